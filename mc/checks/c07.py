"""C07 - covariance functions match their definitions in every call form."""

import itertools
import math
from fractions import Fraction

import numpy as np

from mc import ref, zoo
from mc.ctx import to_np

PS = [0, 1, 2, 3, 4, 5, 6, 8, 10, 12]


def matern_poly(p, h):
    """Half-integer Matern correlation with exact integer coefficients."""
    t = 2.0 * math.sqrt(p + 0.5) * h
    if t > 700.0:
        return 0.0
    s = 0.0
    for i in range(p + 1):
        c = Fraction(math.factorial(p) * math.factorial(p + i),
                     math.factorial(2 * p) * math.factorial(i) * math.factorial(p - i))
        s += float(c) * (2.0 * t) ** (p - i)
    return math.exp(-t) * s


HS = [0.0, 1e-300, 1e-12, 1e-6, 1e-3] + [k / 16.0 for k in range(1, 81)] + \
     [7.3, 10.0, 25.0, 60.0, 150.0, 400.0, 800.0, 3e3, 1e5, 1e10, 1e60, 1e110, 1e160, 1e200, 1e300, math.inf]


def kernel_values(ctx, p):
    import gpmp
    import gpmp.num as gnp
    want = np.array([matern_poly(p, h) for h in HS])
    got = to_np(gpmp.kernel.maternp_kernel(p, gnp.asarray(np.array(HS))))
    for i, h in enumerate(HS):
        ctx.close(got[i], want[i], f"Matern p={p} at distance {h}", rtol=1e-9, atol=1e-12)
        if 1e-3 <= h <= 60:
            ctx.close(got[i], ref.matern_nu(np.array([h]), p)[0], f"Bessel form p={p} at {h}", rtol=1e-7, atol=1e-12)
        ctx.state(p, h)
    # shape is preserved and entries are treated independently
    M = np.array(HS[:84]).reshape(7, 12)
    ctx.close(to_np(gpmp.kernel.maternp_kernel(p, gnp.asarray(M))), want[:84].reshape(7, 12), "matrix of distances",
              rtol=1e-9, atol=1e-12)
    ctx.ok(got[0] == 1.0, "value one at distance zero")
    ctx.ok((got[:-16][1:] <= got[:-16][:-1] + 1e-12).all(), "nonincreasing")


def other_kernels(ctx, which):
    import gpmp
    import gpmp.num as gnp
    H = np.array(HS[:-6])
    if which == "exponential":
        got, want = gpmp.kernel.exponential_kernel(gnp.asarray(H)), np.exp(-H)
    else:
        t = 2 * math.sqrt(1.5) * H
        with np.errstate(over="ignore"):
            got, want = gpmp.kernel.matern32_kernel(gnp.asarray(H)), (1 + t) * np.exp(-t)
        ctx.close(to_np(gpmp.kernel.maternp_kernel(1, gnp.asarray(H))), want, "special case of the general kernel",
                  rtol=1e-9, atol=1e-12)
    ctx.close(to_np(got), want, which, rtol=1e-9, atol=1e-12)
    ctx.state(which)


def covariance(ctx, p, d, variant, c):
    import gpmp
    import gpmp.num as gnp
    g = zoo.grid(d)
    x = g[list(c)]
    n = len(x)
    cp = zoo.covparams("matern1", d, variant)
    s2 = math.exp(cp[0])
    D = ref.dist(x, x, np.exp(cp[1:]))
    K = s2 * np.vectorize(lambda h: matern_poly(p, h))(D)
    gx, gc = gnp.asarray(x), gnp.asarray(np.array(cp))
    tol = dict(rtol=1e-7, atol=3e-7 * s2)
    k = gpmp.kernel.maternp_covariance
    forms = {
        "same object": k(gx, gx, p, gc),
        "omitted": k(gx, None, p, gc),
        "equal copy": k(gx, gnp.copy(gx), p, gc),
    }
    for name, M in forms.items():
        M = to_np(M)
        ctx.close(M, K, f"covariance matrix ({name})", **tol)
    for name in ("same object", "omitted"):
        M = to_np(forms[name])
        ctx.close(M, M.T, f"symmetric ({name})", rtol=0, atol=1e-13 * s2)
        ctx.close(np.diag(M), s2 * np.ones(n), f"variance on the diagonal ({name})", rtol=1e-12, atol=0)
        ctx.ok(np.linalg.eigvalsh(M).min() > -1e-12 * s2 * n, f"nonnegative definite ({name})")
    # pairwise forms
    for name, v in {"same object": k(gx, gx, p, gc, True), "omitted": k(gx, None, p, gc, True),
                    "keyword": k(gx, None, p, gc, pairwise=True),
                    "equal copy": k(gx, gnp.copy(gx), p, gc, True)}.items():
        ctx.close(to_np(v), s2 * np.ones(n), f"pairwise ({name})", rtol=1e-9, atol=1e-9)
    y = x[::-1].copy()
    gy = gnp.asarray(y)
    ctx.close(to_np(k(gx, gy, p, gc, True)), np.diag(K[:, ::-1]).copy(), "pairwise entries of the full matrix", **tol)
    # rectangular, with transposition
    t = zoo.targets(d)
    R = s2 * np.vectorize(lambda h: matern_poly(p, h))(ref.dist(x, t, np.exp(cp[1:])))
    gt = gnp.asarray(t)
    ctx.close(to_np(k(gx, gt, p, gc)), R, "cross covariance", **tol)
    ctx.close(to_np(k(gt, gx, p, gc)), R.T, "cross covariance, arguments exchanged", **tol)
    m = min(n, len(t))
    ctx.close(to_np(k(gx[:m], gt[:m], p, gc, True)), np.diag(R[:m, :m]).copy(), "pairwise cross covariance", **tol)
    ctx.close(to_np(gx), x, "points untouched", rtol=0, atol=0)
    ctx.close(to_np(gc), np.array(cp), "parameters untouched", rtol=0, atol=0)
    ctx.state(p, d, variant, c)


def sized(ctx, p, d, n, m, shift):
    import gpmp
    import gpmp.num as gnp
    x, t = zoo.spread(n, d) + shift, zoo.spread(m, d, 0.137) + shift
    cp = zoo.covparams("matern1", d, 0)
    s2 = math.exp(cp[0])
    corr = np.vectorize(lambda h: matern_poly(p, h), otypes=[float])
    gx, gt, gc = gnp.asarray(x), gnp.asarray(t), gnp.asarray(np.array(cp))
    k = gpmp.kernel.maternp_covariance
    tol = dict(rtol=1e-6, atol=1e-6 * s2)
    ctx.step()
    R = s2 * corr(ref.dist(x, t, np.exp(cp[1:])))
    ctx.close(to_np(k(gx, gt, p, gc)), R, "cross covariance", **tol)
    K = s2 * corr(ref.dist(x, x, np.exp(cp[1:])))
    for y in (gx, None):
        M = to_np(k(gx, y, p, gc))
        ctx.close(M, K, "covariance matrix", **tol)
        ctx.close(np.diag(M), s2 * np.ones(n), "variance on the diagonal", rtol=1e-12, atol=0)
        ctx.close(to_np(k(gx, y, p, gc, True)), s2 * np.ones(n), "pairwise", rtol=1e-9, atol=1e-9)
    q = min(n, m)
    ctx.close(to_np(k(gx[:q], gt[:q], p, gc, True)), np.diag(R[:q, :q]).copy(), "pairwise cross covariance", **tol)
    ctx.state("sized", p, d, n, m, shift)


def extreme(ctx, p, d, loginv, logs2):
    """Extreme parameters: entries stay finite, diagonal is the variance."""
    import gpmp
    import gpmp.num as gnp
    x = zoo.grid(d)[:4]
    cp = np.array([logs2] + [loginv] * d)
    M = to_np(gpmp.kernel.maternp_covariance(gnp.asarray(x), None, p, gnp.asarray(cp)))
    s2 = math.exp(logs2)
    ctx.ok(np.isfinite(M).all(), "finite entries for extreme length scales")
    ctx.close(np.diag(M), s2 * np.ones(4), "variance on the diagonal", rtol=1e-12, atol=0)
    off = M[~np.eye(4, dtype=bool)]
    if loginv >= 20:
        ctx.close(off, np.zeros_like(off), "no correlation at distances far above the length scale", atol=1e-300)
    if loginv <= -30:
        ctx.close(off, s2 * np.ones_like(off), "full correlation at distances far below the length scale", rtol=1e-9, atol=0)
    ctx.state("extreme", p, d, loginv, logs2)


def history(ctx, ops):
    """Evaluation order and cache clearing never change a value."""
    import gpmp
    import gpmp.num as gnp
    from gpmp import config
    config.clear_caches()
    h = np.array([0.0, 0.3, 1.1, 2.9])
    for op in ops:
        ctx.step()
        if op == "clear":
            config.clear_caches()
            ctx.state("cleared", tuple(ops))
            continue
        got = to_np(gpmp.kernel.maternp_kernel(op, gnp.asarray(h)))
        ctx.close(got, np.array([matern_poly(op, v) for v in h]), f"p={op} after {ops}", rtol=1e-10, atol=1e-13)
        ctx.state(tuple(ops), op)
    # and the shared table read directly
    for p in (0, 2, 4) if hasattr(gnp, "compute_gammaln") else ():
        t = to_np(gnp.compute_gammaln(p))
        ctx.close(t, np.array([math.inf] + [math.lgamma(k) for k in range(1, 2 * p + 2)]), "log-gamma values",
                  rtol=1e-12, atol=1e-12)


def distances(ctx, d, variant):
    import gpmp.num as gnp
    x, y = zoo.grid(d), zoo.targets(d)
    li = np.array(zoo.covparams("matern1", d, variant)[1:])
    D = ref.dist(x, y, np.exp(li))
    ctx.close(to_np(gnp.scaled_distance(gnp.asarray(li), gnp.asarray(x), gnp.asarray(y))), D, "scaled distances", rtol=1e-7, atol=1e-7)
    gx = gnp.asarray(x)
    got = to_np(gnp.scaled_distance(gnp.asarray(li), gx, gx))
    ctx.close(got, ref.dist(x, x, np.exp(li)), "scaled distances, same points", rtol=1e-7, atol=1e-7)
    ctx.close(np.diag(got), np.zeros(len(x)), "zero diagonal", rtol=0, atol=0)
    m = len(y)
    ctx.close(to_np(gnp.scaled_distance_elementwise(gnp.asarray(li), gnp.asarray(x[:m][:len(y)]), gnp.asarray(y[:len(x[:m])]))),
              np.diag(D[:m, :m]).copy(), "elementwise distances", rtol=1e-7, atol=1e-7)
    for same in (gx, None):
        ctx.close(to_np(gnp.scaled_distance_elementwise(gnp.asarray(li), gx, same)), np.zeros(len(x)), "elementwise, same points")
    ctx.state("dist", d, variant)


def explore(ctx):
    T = ctx.thorough
    for p in PS + ([15, 20, 25, 30] if T else [20]):
        ctx.run(f"kernel:{p}", kernel_values, p)
    for w in ("exponential", "matern32"):
        ctx.run(f"kernel:{w}", other_kernels, w)
    for p in (0, 1, 2, 3, 5, 8) if not T else PS:
        for v in (0, 1, 2):
            for c, _ in zoo.subsets(1, [1, 2, 3, 4, 5]):
                ctx.run(f"cov:1:{p}:{v}:{c}", covariance, p, 1, v, c)
            for d in (2, 3, 4):
                N = len(zoo.grid(d))
                for n in (1, 3, 6, 9):
                    for c in zoo.progressions(N, n, (1, 2, 5) if T else (1, 5), None if T else (0, 3)):
                        ctx.run(f"cov:{d}:{p}:{v}:{c}", covariance, p, d, v, c)
    for p in (0, 1, 2, 3, 6, 10):
        for d in (1, 2, 3):
            for li in (-60.0, -30.0, -5.0, 20.0, 60.0, 150.0, 300.0):
                for ls in (-30.0, 0.0, 30.0):
                    ctx.run(f"extreme:{p}:{d}:{li}:{ls}", extreme, p, d, li, ls)
    alphabet = [0, 1, 3, 6, "clear"]
    for n in range(1, 5 if T else 4):
        for ops in itertools.product(alphabet, repeat=n):
            ctx.run(f"history:{ops}", history, ops)
    for d in (1, 2, 3, 4):
        for v in (0, 1, 2):
            ctx.run(f"dist:{d}:{v}", distances, d, v)
    for p in (0, 1, 3, 6):
        for d in (1, 3, 6, 8) if T else (1, 3, 8):
            for n in zoo.SIZES + ((257, 400) if T else ()):
                ctx.run(f"size:{p}:{d}:{n}", sized, p, d, n, n, 0.0)
            for n, m in ((1, 300), (300, 1), (20, 257), (129, 20)):
                ctx.run(f"size:{p}:{d}:{n}:{m}", sized, p, d, n, m, 0.0)
            for shift in (-1e6, -30.0, 8.0, 30.0, 1e3, 1e5):
                ctx.run(f"shift:{p}:{d}:{shift}", sized, p, d, 20, 30, shift)
