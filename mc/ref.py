"""Reference formulas, plain numpy/scipy, independent of the code under test."""

import math

import numpy as np
import scipy.linalg as sla
import scipy.special as ssp


# -- kernels ------------------------------------------------------------------
def dist(x, y, invrho):
    """Scaled Euclidean distances by explicit loops."""
    x = np.asarray(x, float)
    y = np.asarray(y, float)
    invrho = np.broadcast_to(np.asarray(invrho, float), (x.shape[1],))
    out = np.zeros((x.shape[0], y.shape[0]))
    for i in range(x.shape[0]):
        for j in range(y.shape[0]):
            out[i, j] = math.sqrt(sum(((x[i, k] - y[j, k]) * invrho[k]) ** 2 for k in range(x.shape[1])))
    return out


def matern_nu(h, p):
    """Matern correlation of regularity nu = p + 1/2 from its Bessel definition."""
    nu = p + 0.5
    h = np.asarray(h, float)
    out = np.ones_like(h)
    t = 2.0 * math.sqrt(nu) * h
    m = t > 1e-300
    with np.errstate(all="ignore"):
        lg = (1.0 - nu) * math.log(2.0) - ssp.gammaln(nu) + nu * np.log(t[m])
        out[m] = np.exp(lg) * ssp.kv(nu, t[m])
    # kv overflows / underflows: use limits
    bad = ~np.isfinite(out)
    out[bad] = 1.0
    return out


def matern_cov(p):
    def k(x, y, param):
        param = np.asarray(param, float)
        return np.exp(param[0]) * matern_nu(dist(x, y, np.exp(param[1:])), p)
    return k


def gauss_cov(x, y, param):
    param = np.asarray(param, float)
    return np.exp(param[0]) * np.exp(-0.5 * dist(x, y, np.exp(param[1:])) ** 2)


# -- conditioning ---------------------------------------------------------------
def simple_kriging(K, k, ktt):
    """Weights and posterior covariance of a zero-mean Gaussian vector."""
    lam = np.linalg.solve(K, k)
    return lam, ktt - k.T @ lam


def universal_kriging(K, k, ktt, P, Pt):
    """BLUP by direct constrained minimisation of the error variance.

    lambda = lambda0 + W a, with P^T lambda0 = p_t and W a basis of ker P^T.
    """
    W = sla.null_space(P.T)
    lam0 = np.linalg.pinv(P.T) @ Pt.T
    if W.shape[1]:
        a = np.linalg.solve(W.T @ K @ W, W.T @ (k - K @ lam0))
        lam = lam0 + W @ a
    else:
        lam = lam0
    cov = ktt - lam.T @ k - k.T @ lam + lam.T @ K @ lam
    return lam, cov


def gauss_nll(z, K):
    n = len(z)
    s, ld = np.linalg.slogdet(K)
    return 0.5 * (n * math.log(2 * math.pi) + ld + z @ np.linalg.solve(K, z))


def reml(z, K, P):
    W = sla.null_space(P.T)
    G = W.T @ K @ W
    return gauss_nll(W.T @ z, G)


def fisher(K, dK):
    p = len(dK)
    M = [np.linalg.solve(K, D) for D in dK]
    return np.array([[0.5 * np.trace(M[i] @ M[j]) for j in range(p)] for i in range(p)])


# -- priors ---------------------------------------------------------------------
def prior_power_law(c, lv=1.0, cut_s=9.21, ll=0.0, lo=-9.21, hi=9.21, pen=100.0):
    c = np.asarray(c, float)
    out = -lv * c[0]
    if c[0] > cut_s:
        out -= pen * (c[0] - cut_s)
    for t in c[1:]:
        out -= ll * t
        if t < lo:
            out -= pen * (lo - t)
        if t > hi:
            out -= pen * (t - hi)
    return float(out)


def prior_logsigma2(c, mu, gamma, coverage):
    """Up to a constant: Gaussian with P(|log s2 - mu| <= log gamma) = coverage."""
    std = math.log(gamma) / (math.sqrt(2.0) * float(ssp.erfinv(coverage)))
    return -0.5 * ((float(c[0]) - mu) / std) ** 2


def prior_logrho(c, rmin, r0, alpha):
    """Barrier at rmin, slope alpha on the right, minimum of the penalty at r0."""
    out = 0.0
    for t, a, b in zip(np.asarray(c, float)[1:], rmin, r0):
        h = -t - a
        if h <= 0:
            return -math.inf
        out -= alpha * h - alpha * (b - a) * math.log(h)
    return out


def derivative(f, p, h=2e-3):
    """Sixth-order central differences of a scalar function of a vector."""
    p = np.asarray(p, float)
    w = {1: 45.0, 2: -9.0, 3: 1.0}
    g = np.zeros(p.size)
    for j in range(p.size):
        e = np.zeros(p.size)
        e[j] = h
        g[j] = sum(c * (f(p + k * e) - f(p - k * e)) for k, c in w.items()) / (60.0 * h)
    return g
