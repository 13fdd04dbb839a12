"""C26 - scoring rules against their defining integrals.

The continuous ranked probability score restricted to an interval and the
expected-improvement terms are compared with quadrature of their definitions
over products of means, deviations, observations and limits, for every way of
passing them (numbers, zero-dimensional, vectors, columns, mixtures).
"""

import functools
import itertools
import math

import numpy as np
from scipy.special import ndtr

from mc.ctx import to_np

INF = math.inf
NODES, WEIGHTS = np.polynomial.legendre.leggauss(24)


def _panel(f, lo, hi, k):
    """composite Gauss-Legendre"""
    if not hi > lo:
        return 0.0
    e = np.linspace(lo, hi, k + 1)
    mid, half = (e[1:] + e[:-1]) / 2, (e[1:] - e[:-1]) / 2
    u = mid[:, None] + half[:, None] * NODES[None, :]
    return float(np.sum(half[:, None] * WEIGHTS[None, :] * f(u)))


def _pieces(f, lo, hi, mu, s):
    """integral over [lo, hi], split where the normal distribution varies"""
    if not hi > lo:
        return 0.0
    cuts = sorted({lo, hi} | {c for c in (mu - 14 * s, mu, mu + 14 * s) if lo < c < hi})
    return sum(_panel(f, u, v, 24) for u, v in zip(cuts, cuts[1:]))


@functools.lru_cache(maxsize=None)
def score(mu, s, z, a, b):
    """integral over [a, b] of (F(u) - 1{z <= u})^2"""
    lo = max(a, min(mu - 40 * s, z)) if a == -INF else a
    hi = min(b, max(mu + 40 * s, z)) if b == INF else b
    below = _pieces(lambda u: ndtr((u - mu) / s) ** 2, lo, min(hi, z), mu, s)
    above = _pieces(lambda u: ndtr((mu - u) / s) ** 2, max(lo, z), hi, mu, s)
    return below + above


@functools.lru_cache(maxsize=None)
def ei1(mu, s, z):
    """mean of the excess of one draw over z: integral of P(X > u) above z"""
    return _pieces(lambda u: ndtr((mu - u) / s), z, max(z, mu + 40 * s), mu, s)


@functools.lru_cache(maxsize=None)
def ei2(mu, s, z):
    """mean of the excess over z of the larger of two draws"""
    return _pieces(lambda u: ndtr((mu - u) / s) * (2 - ndtr((mu - u) / s)), z, max(z, mu + 40 * s), mu, s)


def S():
    import gpmp.misc.scoringrules as m
    return m


def A(v):
    import gpmp.num as gnp
    return gnp.asarray(np.array(v, dtype=float))


MU = (-1.5, 0.0, 0.3, 2.0)
SD = (0.05, 1.0, 2.5)
Z = (-3.0, -1.0, 0.0, 0.3, 1.0, 4.0)
LIM = (-INF, -3.0, -1.0, 0.0, 0.3, 1.0, 5.0, INF)


def tol(mu, s, *v):
    """rounding of differences of quantities of this size"""
    return 2e-9 * (1 + s + abs(mu) + max(abs(x) for x in v if math.isfinite(x)))


def points(ctx, mu, s, fine):
    zs = [k / 4 for k in range(-16, 17)] if fine else Z
    m = S()
    for z in zs:
        t = tol(mu, s, z)
        ctx.step()
        ctx.close(m.crps_gaussian(A([mu]), A([s]), A([z])), [score(mu, s, z, -INF, INF)], f"crps {mu} {s} {z}", atol=t)
        ctx.close(m.tcrps_gaussian(A([mu]), A([s]), A([z])), [score(mu, s, z, -INF, INF)], f"untruncated {mu} {s} {z}", atol=t)
        ctx.close(m.ei1_up(A([mu]), A([s]), A([z])), [ei1(mu, s, z)], f"ei1 {mu} {s} {z}", atol=t)
        ctx.close(m.ei2_up(A([mu]), A([s]), A([z])), [ei2(mu, s, z)], f"ei2 {mu} {s} {z}", atol=t)
        ctx.ok(float(to_np(m.ei1_up(A([mu]), A([s]), A([z])))[0]) >= -t, "negative mean excess")
        ctx.state(mu, s, z)


def intervals(ctx, mu, s, z, lims):
    m = S()
    got = {}
    for a, b in itertools.combinations_with_replacement(lims, 2):
        if a == b and math.isinf(a):
            continue
        t = tol(mu, s, z, *(v for v in (a, b)))
        y = to_np(m.tcrps_gaussian(A([mu]), A([s]), A([z]), a, b))
        ctx.step()
        ctx.close(y, [score(mu, s, z, a, b)], f"score of N({mu},{s}) at {z} over [{a},{b}]", atol=t)
        ctx.ok(y[0] >= -t, "negative score")
        got[a, b] = float(y[0])
        ctx.state(mu, s, z, a, b)
    for a, b, c in itertools.combinations(lims, 3):
        ctx.close(got[a, b] + got[b, c], got[a, c], f"intervals {a} {b} {c} add up", atol=3 * tol(mu, s, z, a, b, c))
        ctx.step()


def scaled(ctx, u, scale, shift):
    """Units: scaling and shifting everything scales the scores (and nothing else)."""
    m = S()
    for mu, s, z in itertools.product((-0.4, 0.0, 1.3), (0.2, 1.0), u):
        args = [A([shift + scale * mu]), A([scale * s]), A([shift + scale * z])]
        t = 2e-9 * scale * (1 + abs(z)) + 4e-15 * abs(shift)
        ctx.step()
        ctx.close(m.crps_gaussian(*args), [scale * score(mu, s, z, -INF, INF)], f"crps {mu} {s} {z}", rtol=0, atol=t)
        ctx.close(m.ei1_up(*args), [scale * ei1(mu, s, z)], f"ei1 {mu} {s} {z}", rtol=0, atol=t)
        ctx.close(m.ei2_up(*args), [scale * ei2(mu, s, z)], f"ei2 {mu} {s} {z}", rtol=0, atol=t)
        for a, b in ((-1.0, 0.5), (-INF, 0.5), (0.0, INF), (-INF, INF)):
            ctx.close(m.tcrps_gaussian(*args, shift + scale * a, shift + scale * b), [scale * score(mu, s, z, a, b)],
                      f"score {mu} {s} {z} over [{a},{b}]", rtol=0, atol=t)
        ctx.state(mu, s, z, scale, shift)


def wrap(form, v, n):
    if form == "float":
        return float(v)
    if form == "0d":
        return A(v)
    if form == "vec1":
        return A([v])
    return A([v + 0.25 * k for k in range(n)])


def mixture(ctx, which, forms, lims):
    """every mixture of numbers and arrays gives the elementwise values"""
    m = S()
    n = 3
    base = (0.1, 0.7, 0.4)
    args = [wrap(f, v, n) for f, v in zip(forms, base)]
    vals = [[v + 0.25 * k if f == "vec" else v for k in range(n)] for f, v in zip(forms, base)]
    size = n if "vec" in forms else 1
    ref = {"crps": lambda *v: score(*v, -INF, INF), "ei1": ei1, "ei2": ei2,
           "tcrps": lambda *v: score(*v, *lims)}[which]
    want = [ref(*(vals[i][k] for i in range(3))) for k in range(size)]
    fn = {"crps": m.crps_gaussian, "ei1": m.ei1_up, "ei2": m.ei2_up,
          "tcrps": lambda *v: m.tcrps_gaussian(*v, *lims)}[which]
    y = to_np(fn(*args))
    ctx.step()
    ctx.equal(int(np.size(y)), size, f"{which} of {forms}: number of values")
    if size > 1:
        ctx.equal(tuple(np.shape(y)), (n,), f"{which} of {forms}: shape")
    ctx.close(np.reshape(y, -1), want, f"{which} of {forms}", rtol=1e-8, atol=1e-8)
    ctx.state(which, forms, lims)


def shaped(ctx, which, shape, lims):
    """arrays of several shapes: same shape out, elementwise values"""
    m = S()
    k = np.arange(int(np.prod(shape)), dtype=float).reshape(shape)
    mu, s, z = 0.3 * k - 0.5, 0.5 + 0.25 * k, 0.9 - 0.4 * k
    ref = {"crps": lambda *v: score(*v, -INF, INF), "ei1": ei1, "ei2": ei2,
           "tcrps": lambda *v: score(*v, *lims)}[which]
    fn = {"crps": m.crps_gaussian, "ei1": m.ei1_up, "ei2": m.ei2_up,
          "tcrps": lambda *v: m.tcrps_gaussian(*v, *lims)}[which]
    ins = [A(v) for v in (mu, s, z)]
    y = to_np(fn(*ins))
    ctx.step()
    ctx.equal(tuple(np.shape(y)), tuple(shape), f"{which}: shape")
    want = np.array([ref(float(a), float(b), float(c)) for a, b, c in zip(mu.ravel(), s.ravel(), z.ravel())]).reshape(shape)
    ctx.close(y, want, f"{which} of shape {shape}", rtol=1e-8, atol=1e-8)
    for v, w in zip(ins, (mu, s, z)):
        ctx.ok(np.array_equal(to_np(v), w), "argument changed")
    ctx.state(which, shape, lims)


def limits(ctx, pairs):
    """limits given as arrays: one interval per element"""
    m = S()
    n = len(pairs)
    mu, s, z = ([v + 0.2 * k for k in range(n)] for v in (0.1, 0.6, -0.3))
    y = m.tcrps_gaussian(A(mu), A(s), A(z), A([p[0] for p in pairs]), A([p[1] for p in pairs]))
    ctx.step()
    ctx.close(y, [score(mu[k], s[k], z[k], *pairs[k]) for k in range(n)], f"limits {pairs}", rtol=1e-8, atol=1e-8)
    for k in range(n):                      # one limit or one prediction shared by all elements
        a, b = pairs[k][0], [max(p[1], pairs[k][0]) for p in pairs]
        if a == -INF or min(b) > a:
            y = m.tcrps_gaussian(mu[k], A(s), z[k], a, A(b))
            ctx.close(y, [score(mu[k], s[j], z[k], a, b[j]) for j in range(n)], f"limits {a} {b}", rtol=1e-8, atol=1e-8)
    ctx.state(pairs)


def explore(ctx):
    T = ctx.thorough
    for mu in MU + ((-0.7, 1.0) if T else ()):
        for s in SD + ((0.3,) if T else ()):
            ctx.run(f"points:{mu}:{s}", points, mu, s, T)
            for z in Z:
                ctx.run(f"intervals:{mu}:{s}:{z}", intervals, mu, s, z, LIM if not T else tuple(sorted(LIM + (-2.0, 0.5, 3.0))))
    cases = [("crps", None), ("ei1", None), ("ei2", None), ("tcrps", (-1.0, 1.0)), ("tcrps", (-INF, 1.0)),
             ("tcrps", (0.0, INF)), ("tcrps", (-INF, INF))]
    for which, lims in cases:
        for forms in itertools.product(("float", "0d", "vec1", "vec"), repeat=3):
            ctx.run(f"mix:{which}:{lims}:{forms}", mixture, which, forms, lims)
        for shape in ((1,), (4,), (1, 1), (3, 1), (1, 3), (2, 3), (2, 2, 2)):
            ctx.run(f"shape:{which}:{lims}:{shape}", shaped, which, shape, lims)
    choices = [(-1.0, 1.0), (-INF, 0.5), (0.0, INF), (-INF, INF), (0.25, 0.25)]
    for n in (1, 2) + ((3,) if T else ()):
        for pairs in itertools.product(choices, repeat=n):
            ctx.run(f"limits:{pairs}", limits, pairs)
    for scale, shift in ((1e-6, 0.0), (1e-3, 0.0), (1e3, 0.0), (1e6, 0.0), (1.0, 100.0), (1.0, -1e4)):
        for u in ((-8.0, -2.0, -0.5), (0.0, 0.4, 1.3), (2.0, 7.0)):
            ctx.run(f"scaled:{scale}:{shift}:{u}", scaled, u, scale, shift)
    for u in ((-60.0, -20.0), (20.0, 60.0)):
        ctx.run(f"far:{u}", scaled, u, 1.0, 0.0)
    for which, lims in cases:
        for shape in ((13,), (64,), (65, 1), (1, 33), (5, 13)):
            ctx.run(f"sizes:{which}:{lims}:{shape}", shaped, which, shape, lims)
