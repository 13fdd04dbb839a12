"""C29 - one-dimensional distributions and parameter statistics.

A family of log-densities (smooth, skewed, bimodal, flat, with kinks, with
zero-density parts) is placed on every interval of a list and shifted by
additive constants; density, distribution function, quantiles and moments are
compared with composite Gauss-Legendre integration.
"""

import itertools
import math
from types import SimpleNamespace

import numpy as np

from mc import zoo
from mc.ctx import to_np

INF = math.inf
NODES, WEIGHTS = np.polynomial.legendre.leggauss(20)
SHAPES = {
    "flat": lambda t: 0.0,
    "ramp": lambda t: 1.5 * t,
    "down": lambda t: -2.0 * t,
    "bell": lambda t: -0.5 * (t - 0.4) ** 2,
    "peak": lambda t: -8.0 * (t - 0.4) ** 2,
    "skew": lambda t: 1.5 * t - math.exp(min(t, 200.0)),
    "pair": lambda t: float(np.logaddexp(-4 * (t + 1) ** 2, -3 * (t - 1) ** 2 - math.log(2))),
    "kink": lambda t: -abs(t - 0.4),
    "gap": lambda t: -INF if t > 0.5 else -0.5 * t * t,
}
CUTS = (-1.0, 0.0, 0.4, 0.5, 1.0)
SPANS = [(-1.0, 2.0), (0.0, 1.0), (-3.0, 0.45), (0.25, 0.75), (-4.0, 4.0), (0.6, 5.0)]


class Ref:
    """dense integration on a split interval"""

    def __init__(self, name, a, b):
        f = SHAPES[name]
        lo = max(a, -40.0)
        hi = min(b, 40.0)
        edges = sorted({lo, hi} | {c for c in CUTS if lo < c < hi})
        e = [lo]
        for u, v in zip(edges, edges[1:]):
            e += list(np.linspace(u, v, 21 if b - a < 50 else 161)[1:])
        self.e = np.array(e)
        mid, half = (self.e[1:] + self.e[:-1]) / 2, (self.e[1:] - self.e[:-1]) / 2
        self.x = mid[:, None] + half[:, None] * NODES[None, :]
        self.w = half[:, None] * WEIGHTS[None, :] * np.array([[math.exp(f(float(t))) for t in r] for r in self.x])
        self.f = f
        self.mass = self.w.sum(axis=1)
        self.Z = float(self.mass.sum())
        self.mean = float((self.w * self.x).sum() / self.Z)
        self.var = float((self.w * (self.x - self.mean) ** 2).sum() / self.Z)
        self.cum = np.concatenate([[0.0], np.cumsum(self.mass)]) / self.Z

    def cdf(self, t):
        if t <= self.e[0]:
            return 0.0
        if t >= self.e[-1]:
            return 1.0
        k = int(np.searchsorted(self.e, t, side="right")) - 1
        u = self.e[k]
        h = (t - u) / 2
        part = sum(w * h * math.exp(self.f(float(u + h + h * x))) for w, x in zip(WEIGHTS, NODES)) if h > 0 else 0.0
        return float(self.cum[k] + part / self.Z)

    def quantile(self, p):
        lo, hi = float(self.e[0]), float(self.e[-1])
        for _ in range(80):
            m = (lo + hi) / 2
            lo, hi = (m, hi) if self.cdf(m) < p else (lo, m)
        return (lo + hi) / 2


def distribution(ctx, name, a, b, shift):
    from gpmp.modeldiagnosis import Unnormalized1DDistribution
    f = SHAPES[name]
    calls = []

    def log_pdf(t):
        calls.append(t)
        return f(t) + shift
    d = Unnormalized1DDistribution(log_pdf, (a, b))
    r = Ref(name, a, b)
    finite = math.isfinite(a) and math.isfinite(b)
    rough = 2e-5 if name in ("kink", "gap") or not finite else 1e-7
    tol = dict(rtol=rough, atol=rough)
    ctx.step()
    ctx.close(d.Z, r.Z * math.exp(shift), "normalisation", rtol=rough, atol=0)
    lo, hi = max(a, -5.0), min(b, 5.0)
    grid = [min(hi, lo + (hi - lo) * k / 24) for k in range(25)]
    ctx.close(d.f(grid), [math.exp(f(t) + shift) for t in grid], "unnormalised density", rtol=1e-12, atol=0)
    ctx.close(d.pdf(grid), [math.exp(f(t)) / r.Z for t in grid], "density", rtol=rough, atol=1e-12)
    c = [d.cdf(t) for t in grid]
    ctx.close(c, [r.cdf(t) for t in grid], "distribution function", **tol)
    ctx.ok(all(v >= u - 2 * rough for u, v in zip(c, c[1:])), "distribution function decreases")
    for t, v in ((a - 1.0, 0.0), (a, 0.0), (b, 1.0), (b + 1.0, 1.0), (-INF, 0.0), (INF, 1.0)):
        ctx.equal(float(d.cdf(t)), v, f"distribution function at {t}")
    ctx.close(d.mean(), r.mean, "mean", **tol)
    ctx.close(d.var(), r.var, "variance", rtol=10 * rough, atol=10 * rough)
    if finite:
        ctx.ok(all(a <= t <= b for t in calls), "density evaluated outside the interval")
    levels = (0.001, 0.1, 0.25, 0.5, 0.75, 0.9, 0.999)
    if finite:
        q = [d.quantile(p, xtol=1e-9) for p in levels]
        for p, t in zip(levels, q):
            ctx.ok(a <= t <= b, "quantile outside the interval")
            ctx.close(r.cdf(t), p, f"quantile {p}", rtol=0, atol=5e-6)
            ctx.close(t, r.quantile(p), f"quantile {p}", rtol=1e-4, atol=1e-4)
        ctx.ok(all(v >= u for u, v in zip(q, q[1:])), "quantiles decrease")
        for p in (0.1, 0.9):
            ctx.close(d.quantile(p), r.quantile(p), f"quantile {p} with the default tolerance", rtol=1e-4, atol=1e-4)
    else:
        ctx.raises(ValueError, lambda: d.quantile(0.5), "quantile without finite bounds")
    for p in (0.0, 1.0, -0.1, 1.1, math.nan):
        ctx.raises(ValueError, lambda: d.quantile(p), f"level {p} accepted")
    ctx.state(name, a, b, shift)


def moved(ctx, name, a, b, offset, unit):
    """The density of unit * t + offset: location and scale follow."""
    from gpmp.modeldiagnosis import Unnormalized1DDistribution, fast_univariate_stats
    f = SHAPES[name]
    back = lambda t: (t - offset) / unit
    g = lambda t: f(back(t))
    A, B = offset + unit * a, offset + unit * b
    d = Unnormalized1DDistribution(g, (A, B))
    r = Ref(name, back(A), back(B))
    rough = (2e-5 if name == "kink" else 1e-7) + 1e-14 * abs(offset) / unit
    ctx.step()
    ctx.close(d.Z, r.Z * unit, "normalisation", rtol=rough, atol=0)
    ctx.close(back(d.mean()), r.mean, "mean", rtol=rough, atol=rough)
    ctx.close(d.var() / unit ** 2, r.var, "variance", rtol=10 * rough, atol=0)
    grid = [A + (B - A) * k / 8 for k in range(9)]
    ctx.close([d.cdf(t) for t in grid], [r.cdf(back(t)) for t in grid], "distribution function", rtol=rough, atol=rough)
    ctx.close(np.asarray(to_np(d.pdf(grid))) * unit, [math.exp(f(back(t))) / r.Z for t in grid], "density", rtol=1e-6 + rough, atol=1e-12)
    for p in (0.01, 0.25, 0.5, 0.9):
        ctx.close(r.cdf(back(d.quantile(p, xtol=1e-9 * unit))), p, f"quantile {p}", rtol=0, atol=5e-6 + rough)
    m, v, q, mode = fast_univariate_stats(lambda t: -g(t), A, B, n_points=400)
    ctx.close(back(m), r.mean, "grid mean", rtol=5e-3, atol=5e-3)
    ctx.close(v / unit ** 2, r.var, "grid variance", rtol=5e-3, atol=0)
    ctx.close([back(q[k]) for k in sorted(q)], [r.quantile(float(k)) for k in sorted(q)], "grid quantiles", rtol=1e-2, atol=1e-2)
    ctx.state("moved", name, a, b, offset, unit)


def refused(ctx):
    from gpmp.modeldiagnosis import Unnormalized1DDistribution as U
    for a, b in ((1.0, 1.0), (2.0, 1.0), (INF, -INF), (math.nan, 1.0)):
        ctx.raises(ValueError, lambda: U(lambda t: 0.0, (a, b)), f"interval {a},{b} accepted")
    ctx.raises(TypeError, lambda: U(lambda t: 0.0, ("0", 1.0)), "text as a bound")
    ctx.raises(ValueError, lambda: U(lambda t: -INF, (0.0, 1.0)), "zero density normalised")
    ctx.raises(ValueError, lambda: U(lambda t: 800.0, (0.0, 1.0)), "infinite density normalised")
    ctx.state("refused")


# -- grids --------------------------------------------------------------------------
def fast(ctx, name, a, b, shift, n):
    """trapezoidal sums on n equidistant points"""
    from gpmp.modeldiagnosis import fast_univariate_stats
    import gpmp.num as gnp
    f = SHAPES[name]
    x = [a + (b - a) * k / (n - 1) for k in range(n)]
    w = [math.exp(f(t)) for t in x]
    h = (b - a) / (n - 1)
    s = lambda v: h * (sum(v) - (v[0] + v[-1]) / 2)
    Z = s(w)
    mean = s([t * u for t, u in zip(x, w)]) / Z
    var = s([t * t * u for t, u in zip(x, w)]) / Z - mean ** 2
    cum = [0.0]
    for u, v in zip(w, w[1:]):
        cum.append(cum[-1] + h * (u + v) / 2 / Z)
    for form in ("float", "array"):
        fn = (lambda t: -(f(t) + shift)) if form == "float" else (lambda t: gnp.asarray(np.array(-(f(float(t)) + shift))))
        m, v, q, mode = fast_univariate_stats(fn, a, b, n_points=n)
        ctx.step()
        ctx.close(m, mean, "grid mean", rtol=1e-9, atol=1e-9)
        ctx.close(v, var, "grid variance", rtol=1e-7, atol=1e-9)
        ctx.equal(sorted(q), ["0.1", "0.25", "0.5", "0.75", "0.9"], "levels")
        for p, t in q.items():
            k = next(i for i in range(n - 1) if cum[i + 1] >= float(p) - 1e-15)
            want = x[k] + (float(p) - cum[k]) / (cum[k + 1] - cum[k]) * h
            ctx.close(t, want, f"grid quantile {p}", rtol=1e-7, atol=1e-8)
        k = min(range(n), key=lambda i: abs(x[i] - mode))
        ctx.ok(abs(x[k] - mode) < 1e-9 and w[k] >= max(w) * (1 - 1e-9), f"grid mode {mode}")
    if n >= 200 and name != "gap":
        r = Ref(name, a, b)
        ctx.close([m, v], [r.mean, r.var], "grid moments against integration", rtol=5e-3, atol=5e-3)
        ctx.close([q[k] for k in sorted(q)], [r.quantile(float(k)) for k in sorted(q)], "grid quantiles against integration", rtol=1e-2, atol=1e-2)
    ctx.state(name, a, b, shift, n)


# -- sections of a criterion ----------------------------------------------------------------
COUPLED = {
    # criterion, and the one-dimensional section as a shape shifted by the other parameters
    "sum": lambda c: 2.0 * (c[0] - 0.3) ** 2 + 0.75 * (c[1] + 0.2) ** 2 + 4.0 * (c[2] - 1.0) ** 2,
    "prod": lambda c: 1.5 * (c[0] - 0.5 * c[1]) ** 2 + 0.8 * (c[1] + 0.3 * c[2]) ** 2 + (c[2] - 0.1) ** 2,
}


def section(ctx, name, ref, form, shift):
    """only the chosen entry varies; the reference vector is left alone"""
    import gpmp.num as gnp
    from gpmp.modeldiagnosis import make_single_param_criterion_function
    crit = COUPLED[name]
    seen = []

    def f(c):
        v = to_np(c)
        seen.append(v.copy())
        return crit([float(t) for t in v]) + shift
    src = {"list": list(ref), "array": np.array(ref), "gnp": gnp.asarray(np.array(ref))}[form]
    fns = [make_single_param_criterion_function(f, src, j) for j in range(3)]
    for j, t in itertools.product(range(3), (-0.75, 0.0, 0.4, 2.5)):
        got = fns[j](t)
        c = list(map(float, ref))
        c[j] = t
        ctx.close(got, crit(c) + shift, f"section {j} at {t}", rtol=1e-12, atol=1e-12)
        ctx.close(seen[-1], c, f"point of section {j}", rtol=1e-14, atol=1e-14)
        ctx.step()
    ctx.close(to_np(src) if form == "gnp" else np.array(src, dtype=float), np.array(ref, dtype=float), "reference vector", rtol=0, atol=0)
    ctx.state(name, ref, form, shift)


def statistics(ctx, name, ref, ind, boxed, delta, shift, source):
    import gpmp.num as gnp
    from gpmp.modeldiagnosis import selection_criterion_statistics as slow, selection_criterion_statistics_fast as quick
    crit = COUPLED[name]
    f = lambda c: crit([float(t) for t in to_np(c)]) + shift
    calls = []
    xi = zoo.grid(2)[:4]
    model = SimpleNamespace(fisher_information=lambda x, c, epsilon=None: calls.append((to_np(x), to_np(c))) or "fisher")
    box = np.array([[-1.5, -2.0, -0.5], [1.0, 2.5, 2.0]]) if boxed else None
    kw = dict(ind=ind, param_box=box, delta=delta)
    if source == "info" and delta == 5.0:
        del kw["delta"]  # the default half-width
    if source == "info":
        kw["info"] = SimpleNamespace(selection_criterion_nograd=f, covparam=gnp.asarray(np.array(ref)), model=model, xi=xi)
    elif source == "override":
        kw["info"] = SimpleNamespace(selection_criterion_nograd=lambda c: 0.0, covparam=gnp.asarray(np.zeros(3)), model=None, xi=None)
        kw.update(model=model, xi=xi, selection_criterion=f, covparam=np.array(ref))
    else:
        kw.update(model=model, xi=xi, selection_criterion=f, covparam=list(ref))
    names = ["mean", "variance", "quantile_0.1", "quantile_0.25", "quantile_0.5", "quantile_0.75", "quantile_0.9", "mode"]
    which = list(range(3)) if ind is None else list(ind)
    want = []
    for j in which:
        lo, hi = (box[0, j], box[1, j]) if boxed else (ref[j] - delta, ref[j] + delta)
        c = list(map(float, ref))
        x = np.linspace(lo, hi, 4001)
        g = []
        for t in x:
            c[j] = float(t)
            g.append(crit(c))
        g = np.array(g)
        w = np.exp(g.min() - g)
        cum = np.concatenate([[0.0], np.cumsum((w[1:] + w[:-1]) / 2)])
        Z = cum[-1]
        wt = w.copy()
        wt[[0, -1]] /= 2
        m = float((wt * x).sum() / Z)
        want.append([m, float((wt * (x - m) ** 2).sum() / Z)] + [float(np.interp(p, cum / Z, x)) for p in (0.1, 0.25, 0.5, 0.75, 0.9)]
                    + [float(x[int(np.argmin(g))])])
    for fn, tol in ((slow, 2e-3), (quick, 2.5e-2)):
        for verbose in (False,):
            out = fn(**kw)
            ctx.step()
            df = out["parameter_statistics"]
            ctx.equal(list(df.colnames), names, "statistics")
            ctx.equal(list(df.rownames), [f"param_{j}" for j in which], "parameters")
            ctx.close(df.data, want, f"statistics of {name} at {ref}", rtol=tol, atol=tol)
            ctx.equal(out["fisher_information"], "fisher", "information matrix")
            x, c = calls[-1]
            ctx.ok(np.array_equal(x, xi) and np.allclose(c, ref), "information asked at another point")
    ctx.state(name, ref, ind, boxed, delta, shift, source)


def missing(ctx):
    from gpmp.modeldiagnosis import selection_criterion_statistics as slow, selection_criterion_statistics_fast as quick
    full = dict(model=SimpleNamespace(fisher_information=lambda *a, **k: 0), xi=np.zeros((2, 1)), selection_criterion=lambda c: 0.0, covparam=np.zeros(2))
    for fn in (slow, quick):
        for k in full:
            ctx.raises(ValueError, lambda: fn(**{a: b for a, b in full.items() if a != k}), f"no {k}")
    ctx.state("missing")


def explore(ctx):
    T = ctx.thorough
    for name in SHAPES:
        for a, b in SPANS + ([(-2.0, -1.0), (-1.5, 1.5), (0.0, 3.0)] if T else []):
            if name == "gap" and a > 0.5:
                continue
            for shift in () if name == "gap" else (0.0, 30.0, -30.0) + ((300.0, -300.0) if T else ()):
                ctx.run(f"dist:{name}:{a}:{b}:{shift}", distribution, name, a, b, shift)
            for n in (2, 3, 5, 50, 200) + ((37, 1000) if T else ()):
                for shift in (0.0, 2000.0, -2000.0):
                    ctx.run(f"fast:{name}:{a}:{b}:{shift}:{n}", fast, name, a, b, shift, n)
    for name in ("bell", "peak", "pair", "skew"):
        for a, b in ((-INF, INF), (-INF, 1.0), (0.0, INF)):
            ctx.run(f"dist:{name}:{a}:{b}", distribution, name, a, b, 0.0)
    for name in ("ramp", "bell", "peak", "skew", "kink", "pair"):
        for a, b in ((-1.0, 2.0), (0.0, 1.0), (-4.0, 4.0)):
            for offset, unit in itertools.product((0.0, 30.0, -500.0, 1e4, -1e6), (1e-3, 0.05, 1.0, 40.0, 1e4)):
                ctx.run(f"moved:{name}:{a}:{b}:{offset}:{unit}", moved, name, a, b, offset, unit)
    ctx.run("refused", refused)
    ctx.run("missing", missing)
    refs = ((0.3, -0.2, 1.0), (0.0, 0.0, 0.0), (1, -1, 0), (0.5, 0.25, -0.5))
    for name, ref in itertools.product(COUPLED, refs):
        for form, shift in itertools.product(("list", "array", "gnp"), (0.0, 1e4)):
            ctx.run(f"section:{name}:{ref}:{form}:{shift}", section, name, ref, form, shift)
        for ind, boxed, delta, shift, source in itertools.product((None, [1], [2, 0], [0, 1]), (0, 1), (5.0, 1.5, 0.25), (0.0, 3000.0, -3000.0),
                                                                  ("args", "info", "override")):
            if (boxed and delta == 1.5) or (not boxed and delta == 0.25):
                continue
            if not T and (shift and source != "args" or (ind and source == "override")):
                continue
            ctx.run(f"stats:{name}:{ref}:{ind}:{boxed}:{delta}:{shift}:{source}", statistics, name, ref, ind, boxed, delta, shift, source)
