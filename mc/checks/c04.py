"""C04 - (restricted) likelihoods and kernel norms equal their closed forms."""

import itertools
import math

import numpy as np

from mc import ref, zoo
from mc.ctx import to_np
from mc.checks.c01 import well_posed, KERNELS

PARAM_SHIFTS = [0.0, 0.6, -0.8]


def one(ctx, s, xi):
    import gpmp.num as gnp
    model = s.model()
    n = len(xi)
    gxi = gnp.asarray(xi)
    # the model's own stored parameters must not matter: only those passed in
    for shift in PARAM_SHIFTS:
        cp = [c + shift for c in s.covparam]
        K = s.K(xi, cp)
        if np.linalg.cond(K) > 1e8 and not s.q:
            continue
        gcp = gnp.asarray(np.array(cp))
        for z in [np.zeros(n)] + [np.eye(n)[i] for i in range(n)] + [zoo.zvec(n), 30 + zoo.zvec(n, 2)]:
            for zz in (z, z.reshape(-1, 1)):
                gz = gnp.asarray(zz)
                col = zz.ndim == 2
                if not s.q and np.linalg.cond(K) < 1e8:
                    nll = ref.gauss_nll(z, K)
                    if not (col and s.meantype == "parameterized"):
                        got = model.negative_log_likelihood_zero_mean(gcp, gxi, gz)
                        ctx.close(float(to_np(got)), nll, "negative log-likelihood (zero mean)", rtol=1e-6, atol=1e-6)
                        ctx.equal(tuple(to_np(got).shape), (), "likelihood is a scalar")
                    q = z @ np.linalg.solve(K, z)
                    got = model.norm_k_sqrd_with_zero_mean(gxi, gz, gcp)
                    ctx.close(to_np(got).reshape(()), q, "squared norm (zero mean)", rtol=1e-6, atol=1e-6)
                    a, b, c = model.k_inverses(gxi, gz, gcp)
                    ctx.close(to_np(a).reshape(()), q, "z' K^-1 z", rtol=1e-6, atol=1e-6)
                    ctx.close(to_np(b).reshape(-1), np.linalg.solve(K, np.ones(n)), "K^-1 1", rtol=1e-5, atol=1e-5)
                    ctx.close(to_np(c).reshape(-1), np.linalg.solve(K, z), "K^-1 z", rtol=1e-5, atol=1e-5)
                if s.meantype == "parameterized" and not col:
                    for mshift in (0.0, 1.5):
                        mp = np.array(s.meanparam) + mshift
                        r = z - s.rmean(xi, mp).reshape(-1)
                        got = model.negative_log_likelihood(gnp.asarray(mp), gcp, gxi, gz)
                        ctx.close(to_np(got), ref.gauss_nll(r, K), "negative log-likelihood (given mean)",
                                  rtol=1e-6, atol=1e-6)
                if s.q and n > s.q:
                    want = ref.reml(z, K, s.P(xi))
                    got = model.negative_log_restricted_likelihood(gcp, gxi, gz)
                    ctx.close(to_np(got), want, "negative log restricted likelihood", rtol=1e-6, atol=1e-6)
                    import scipy.linalg as sla
                    W = sla.null_space(s.P(xi).T)
                    w = W.T @ z
                    got = model.norm_k_sqrd(gxi, gz, gcp)
                    ctx.close(to_np(got).reshape(()), w @ np.linalg.solve(W.T @ K @ W, w), "squared norm (contrasts)",
                              rtol=1e-6, atol=1e-6)
        ctx.state(s.name, xi, shift)


def sized(ctx, s, n, gain, shift):
    import gpmp.num as gnp
    import scipy.linalg as sla
    xi = zoo.spread(n, s.d) + shift
    z = zoo.zvec(n) * gain
    cp = [c + 0.1 for c in s.covparam]
    K = s.K(xi, cp)
    model = s.model()
    gx, gz, gc = gnp.asarray(xi), gnp.asarray(z), gnp.asarray(np.array(cp))
    tol = dict(rtol=1e-7, atol=1e-7 * (n + gain * gain))
    ctx.step()
    if s.q:
        ctx.close(to_np(model.negative_log_restricted_likelihood(gc, gx, gz)), ref.reml(z, K, s.P(xi)), "restricted likelihood", **tol)
        W = sla.null_space(s.P(xi).T)
        w = W.T @ z
        ctx.close(to_np(model.norm_k_sqrd(gx, gz, gc)).reshape(()), w @ np.linalg.solve(W.T @ K @ W, w), "squared norm", **tol)
    else:
        if s.meantype == "parameterized":
            r = z - s.P(xi).reshape(-1)
            got = model.negative_log_likelihood(gnp.asarray(np.array(s.meanparam)), gc, gx, gz)
            ctx.close(to_np(got), ref.gauss_nll(r, K), "likelihood (given mean)", **tol)
        ctx.close(to_np(model.negative_log_likelihood_zero_mean(gc, gx, gz)), ref.gauss_nll(z, K), "likelihood (zero mean)", **tol)
        q = z @ np.linalg.solve(K, z)
        ctx.close(to_np(model.norm_k_sqrd_with_zero_mean(gx, gz, gc)).reshape(()), q, "squared norm", **tol)
        a, b, c = model.k_inverses(gx, gz, gc)
        ctx.close(to_np(a).reshape(()), q, "z' K^-1 z", **tol)
        ctx.close(to_np(b).reshape(-1), np.linalg.solve(K, np.ones(n)), "K^-1 1", rtol=1e-6, atol=1e-6)
        ctx.close(to_np(c).reshape(-1), np.linalg.solve(K, z), "K^-1 z", rtol=1e-6, atol=1e-6 * gain)
    ctx.state("sized", s.name, n, gain, shift)


def units(ctx, s, u, v):
    """Changing units adds the logarithm of the change to the likelihoods and keeps the norms."""
    import gpmp.num as gnp
    import scipy.linalg as sla
    n = 9
    xi, z = zoo.spread(n, s.d), zoo.zvec(n)
    t = zoo.in_units(s, u, v)
    K = s.K(xi)
    model = t.model()
    gx, gz, gc = gnp.asarray(xi * u), gnp.asarray(z * np.sqrt(v)), gnp.asarray(np.array(t.covparam))
    tol = dict(rtol=1e-6, atol=1e-5)
    ctx.step()
    if s.q:
        got = model.negative_log_restricted_likelihood(gc, gx, gz)
        ctx.close(to_np(got), ref.reml(z, K, s.P(xi)) + 0.5 * (n - s.q) * np.log(v), "restricted likelihood in other units", **tol)
        W = sla.null_space(s.P(xi).T)
        w = W.T @ z
        ctx.close(to_np(model.norm_k_sqrd(gx, gz, gc)).reshape(()), w @ np.linalg.solve(W.T @ K @ W, w), "squared norm in other units", **tol)
    else:
        if s.meantype == "parameterized":
            got = model.negative_log_likelihood(gnp.asarray(np.array(t.meanparam)), gc, gx, gz)
            ctx.close(to_np(got), ref.gauss_nll(z - s.P(xi).reshape(-1), K) + 0.5 * n * np.log(v), "likelihood (given mean) in other units", **tol)
        got = model.negative_log_likelihood_zero_mean(gc, gx, gz)
        ctx.close(to_np(got), ref.gauss_nll(z, K) + 0.5 * n * np.log(v), "likelihood (zero mean) in other units", **tol)
        q = z @ np.linalg.solve(K, z)
        ctx.close(to_np(model.norm_k_sqrd_with_zero_mean(gx, gz, gc)).reshape(()), q, "squared norm in other units", **tol)
        a, b, c = model.k_inverses(gx, gz, gc)
        ctx.close(to_np(a).reshape(()), q, "z' K^-1 z in other units", **tol)
        ctx.close(to_np(b).reshape(-1) * v, np.linalg.solve(K, np.ones(n)), "K^-1 1 in other units", **tol)
        ctx.close(to_np(c).reshape(-1) * np.sqrt(v), np.linalg.solve(K, z), "K^-1 z in other units", **tol)
    ctx.state("units", t.name)


def invariance(ctx, s, xi):
    """Restricted likelihood ignores the trend; all criteria ignore data order."""
    import gpmp.num as gnp
    model = s.model()
    n = len(xi)
    z = zoo.zvec(n)
    gcp = gnp.asarray(np.array(s.covparam))
    base = float(to_np(model.negative_log_restricted_likelihood(gcp, gnp.asarray(xi), gnp.asarray(z))))
    P = s.P(xi)
    for coef in itertools.product([-2.0, 0.0, 3.0], repeat=s.q):
        z2 = z + P @ np.array(coef)
        got = model.negative_log_restricted_likelihood(gcp, gnp.asarray(xi), gnp.asarray(z2))
        ctx.close(float(to_np(got)), base, f"invariance to trend {coef}", rtol=1e-6, atol=1e-6)
    for p in itertools.islice(itertools.permutations(range(n)), 24):
        p = list(p)
        got = model.negative_log_restricted_likelihood(gcp, gnp.asarray(xi[p]), gnp.asarray(z[p]))
        ctx.close(float(to_np(got)), base, f"invariance to order {p}", rtol=1e-6, atol=1e-6)
        ctx.state("order", s.name, xi[p])


def failing(ctx, mean, kind, n):
    """A covariance without Cholesky factor: the criterion is +infinity, not an error."""
    import gpmp
    import gpmp.num as gnp
    xi = zoo.grid(1)[:n]
    z = zoo.zvec(n)

    def cov(x, y, covparam, pairwise=False):
        s2 = gnp.exp(covparam[0])
        if kind == "negative":
            K = -s2 * gnp.eye(x.shape[0])
        elif kind == "indefinite":
            K = s2 * (gnp.ones((x.shape[0], x.shape[0])) - 2.0 * gnp.eye(x.shape[0]))
        else:
            raise KeyError(kind)
        return K

    mt = {"zero": "zero", "const": "linear_predictor", "par_const": "parameterized"}[mean]
    model = gpmp.core.Model(None if mean == "zero" else zoo.M[mean], cov, gnp.asarray(np.array([0.7])),
                            gnp.asarray(np.array([0.0])), meantype=mt)
    gcp, gxi, gz = gnp.asarray(np.array([0.3])), gnp.asarray(xi), gnp.asarray(z)
    if mean == "zero":
        v = model.negative_log_likelihood_zero_mean(gcp, gxi, gz)
    elif mean == "par_const":
        v = model.negative_log_likelihood(gnp.asarray(np.array([0.7])), gcp, gxi, gz)
    else:
        v = model.negative_log_restricted_likelihood(gcp, gxi, gz)
    ctx.ok(float(to_np(v)) == math.inf, f"infinite criterion when the factorisation fails, got {v}")
    ctx.state("fail", mean, kind, n)


def explore(ctx):
    T = ctx.thorough
    for kernel in KERNELS:
        for mean, _, _ in zoo.MEANS:
            for v in ((0, 1, 2) if T else (0,)):
                s = zoo.spec(kernel, mean, 1, v)
                for c, xi in zoo.subsets(1, [1, 2, 3, 4, 5]):
                    if well_posed(s, xi) and len(xi) > s.q:
                        ctx.run(f"1d:{s.name}:{c}", one, s, xi)
            for d, sizes in ((2, [4, 6]), (3, [6, 9]), (4, [8, 12])):
                s = zoo.spec(kernel, mean, d, 1)
                g = zoo.grid(d)
                for n in sizes:
                    for c in zoo.progressions(len(g), n, (1, 2, 5, 7) if T else (1, 5), None if T else (0, 4)):
                        if well_posed(s, g[list(c)]) and n > s.q:
                            ctx.run(f"{d}d:{s.name}:{c}", one, s, g[list(c)])
    for kernel, mean in zoo.MEASURED:
        for d in (1, 2, 5):
            for u, v in zoo.UNITS:
                s = zoo.spec(kernel, mean, d, 1)
                ctx.run(f"units:{s.name}:{u}:{v}", units, s, u, v)
    for kernel in ("matern1", "noisy1", "intrinsic1", "swell1"):
        for mean in ("const", "lin", "basis"):
            for d in (1, 2):
                s = zoo.spec(kernel, mean, d, 0)
                g = zoo.grid(d)
                for c in zoo.progressions(len(g), 5 if d == 1 else 6, (1, 2, 4)):
                    if well_posed(s, g[list(c)]):
                        ctx.run(f"inv:{s.name}:{c}", invariance, s, g[list(c)])
                        if kernel == "intrinsic1":
                            ctx.run(f"cpd:{s.name}:{c}", one, s, g[list(c)])
    for mean in ("zero", "const", "par_const"):
        for kind in ("negative", "indefinite"):
            for n in (3, 4, 5):
                ctx.run(f"fail:{mean}:{kind}:{n}", failing, mean, kind, n)
    for kernel, mean in zoo.LARGE:
        for d in ((1, 2, 5, 8) if T else (1, 3, 6)):
            s = zoo.spec(kernel, mean, d, 1 if kernel == "gauss" or d == 1 else 0)
            for n in (zoo.SIZES if not T else tuple(range(13, 66)) + (100, 128, 129, 200, 256, 257, 500)):
                ctx.run(f"size:{s.name}:{n}", sized, s, n, 1.0, 0.0)
            for gain in (1e-12, 1e-6, 1e3, 1e6):
                ctx.run(f"gain:{s.name}:{gain}", sized, s, 24, gain, 0.0)
            for shift in (-1e4, -30.0, 8.0, 30.0, 1e3) if mean in ("zero", "const") else (-3.0, 3.0) if mean == "quad" else (-30.0, 8.0, 30.0):
                ctx.run(f"shift:{s.name}:{shift}", sized, s, 24, 1.0, shift)
