"""C09 - automatic parameter selection returns the best point it saw.

The criterion is an environment whose answers are enumerated: a smooth function
with up to two (three) faulty answers at every pair of evaluation numbers, and
fully arbitrary answer scripts for the first evaluations.
"""

import itertools
import math

import numpy as np

from mc.ctx import to_np

OPT = np.array([1.0, -2.0])


def smooth(p):
    return float(np.sum((p - OPT) ** 2 * np.array([1.0, 3.0])) + 0.1 * np.sum(p**4))


def smooth_grad(p):
    return 2 * (p - OPT) * np.array([1.0, 3.0]) + 0.4 * p**3


class Fault(Exception):
    pass


def linalg(kind):
    if kind == "lin":
        return np.linalg.LinAlgError("Singular matrix")
    return RuntimeError("cholesky factorization failed: the input is not positive definite")


FAULTS = ("inf", "nan", "lin", "rt", "big")


class Env:
    """Scripted criterion; records every evaluation itself."""

    def __init__(self, script, base=smooth):
        self.script = script
        self.base = base
        self.log = []

    def __call__(self, p):
        k = len(self.log)
        a = self.script.get(k)
        p = np.asarray(p, float)
        v = self.base(p) if np.isfinite(p).all() else math.nan
        if a == "inf":
            v = math.inf
        elif a == "nan":
            v = math.nan
        elif a == "big" and np.isfinite(p).all():
            v = 1e6 + k
        elif a in ("lin", "rt"):
            self.log.append((p.copy(), math.inf))
            raise linalg(a)
        elif a == "stop":
            self.log.append((p.copy(), None))
            raise Fault("not a linear algebra problem")
        elif a is not None and np.isfinite(p).all():
            v = a
        self.log.append((p.copy(), v))
        return v


def verify(ctx, env, x, r, p0, bounds, msg):
    x = to_np(x)
    lo = np.array([b[0] if b[0] is not None else -np.inf for b in bounds], float) if bounds is not None else np.full(2, -np.inf)
    hi = np.array([b[1] if b[1] is not None else np.inf for b in bounds], float) if bounds is not None else np.full(2, np.inf)
    hist = list(zip(r.history_params, r.history_criterion))
    ctx.equal(len(hist), len(env.log), f"{msg}: number of recorded evaluations")
    for (a, b), (c, d) in zip(hist, env.log):
        ctx.ok(np.array_equal(to_np(a), c, equal_nan=True), f"{msg}: recorded point {a}, evaluated {c}")
        ctx.ok(float(b) == d or (math.isnan(d) and math.isnan(float(b))), f"{msg}: recorded value {b}, was {d}")
    finite = [v for _, v in env.log if math.isfinite(v)]
    if finite:
        best = min(finite)
        ctx.ok(float(r.fun) == best, f"{msg}: reported value {r.fun}, best seen {best}")
        ctx.ok(any(v == best and np.array_equal(p, x) for p, v in env.log),
               f"{msg}: returned point {x} is not where the best value {best} was seen")
        ctx.ok(np.array_equal(to_np(r.x), x) and np.array_equal(to_np(r.final_params), x), f"{msg}: reported final point")
        ctx.ok((x >= lo - 1e-12).all() and (x <= hi + 1e-12).all(), f"{msg}: {x} outside the bounds {bounds}")
        inside = (p0 >= lo).all() and (p0 <= hi).all()
        if inside:
            ctx.ok(np.array_equal(env.log[0][0], p0), f"{msg}: the first evaluation is not at the starting point")
    ctx.ok(np.array_equal(to_np(r.initial_params), p0), f"{msg}: reported starting point")
    return bool(finite)


BOUNDS = {"auto": None, "off": None, "box": [(-1.0, 0.8), (-3.0, -0.5)], "tight": [(-0.25, 0.25), (-0.25, 0.25)],
          "half": [(None, 0.5), (-1.0, None)]}


def direct(ctx, method, gradient, bname, script, base="smooth"):
    from gpmp.kernel import autoselect_parameters
    p0 = np.array([0.0, 0.0]) if bname != "box" else np.array([0.0, -1.0])
    bases = {"smooth": smooth, "flat": lambda p: 2.5, "slope": lambda p: float(3.0 * p[0] - p[1])}
    grads = {"smooth": smooth_grad, "flat": lambda p: np.array([1.0, -0.5]), "slope": lambda p: np.array([3.0, -1.0])}
    outs = []
    for plain in (True, False):
        env = Env(script, bases[base])
        start = p0.copy()
        if not plain:
            import gpmp.num as gnp
            start = gnp.asarray(p0.copy())
        kw = dict(bounds_auto=(bname == "auto"), bounds_delta=2.5) if BOUNDS[bname] is None else dict(
            bounds=[tuple(b) for b in BOUNDS[bname]])
        x, r = autoselect_parameters(start, env, grads[base] if gradient else None, method=method, info=True, **kw)
        ctx.step(len(env.log))
        b = [(v - 2.5, v + 2.5) for v in p0] if bname == "auto" else BOUNDS[bname]
        verify(ctx, env, x, r, p0, b, f"{method}/{bname}")
        ctx.ok(np.array_equal(to_np(start), p0), "starting point modified")
        if r.bounds is not None:
            got = [tuple(None if v is None else float(v) for v in t) for t in r.bounds]
            ctx.equal(got, [tuple(None if v is None else float(v) for v in t) for t in b], "reported bounds")
        outs.append((to_np(x).copy(), len(env.log)))
    ctx.ok(np.array_equal(outs[0][0], outs[1][0], equal_nan=True), "plain and backend starting points give different answers")
    env = Env(script, bases[base])
    x, none = autoselect_parameters(p0.copy(), env, grads[base] if gradient else None, method=method, **kw)
    ctx.ok(none is None, "diagnostics returned without being asked for")
    ctx.ok(np.array_equal(to_np(x), outs[0][0], equal_nan=True), "result depends on the diagnostics option")
    ctx.state(method, gradient, bname, base, np.round(np.nan_to_num(outs[0][0], nan=99.0), 5), outs[0][1])


def clean(ctx, method, gradient, bname):
    """Without faults the minimum over the box is reached."""
    from gpmp.kernel import autoselect_parameters
    from scipy.optimize import minimize
    b = BOUNDS[bname]
    for start in ([0.0, 0.0], [0.2, -0.9], [-0.9, -2.9], [0.1, 3.0]):
        env = Env({})
        p0 = np.array(start)
        kw = dict(bounds=b) if b is not None else dict(bounds_auto=(bname == "auto"))
        x, r = autoselect_parameters(p0, env, smooth_grad if gradient else None, method=method, info=True, **kw)
        bb = b if b is not None else ([(v - 10, v + 10) for v in start] if bname == "auto" else None)
        verify(ctx, env, x, r, p0, bb, f"{method}/{bname}")
        want = minimize(smooth, np.clip(p0, -0.25, 0.25), bounds=bb, method="L-BFGS-B", jac=smooth_grad,
                        options=dict(ftol=1e-15, gtol=1e-10)).fun
        ctx.close(float(r.fun), want, f"{method}/{bname}: minimum", rtol=1e-5, atol=1e-5)


def valley(ctx, method, gradient, dim):
    """A curved valley in many dimensions: runs of hundreds of evaluations."""
    from gpmp.kernel import autoselect_parameters
    from scipy.optimize import rosen, rosen_der
    p0 = np.array([-1.2 if i % 2 else 1.0 for i in range(dim)])
    env = Env({}, lambda p: float(rosen(p)))
    x, r = autoselect_parameters(p0, env, rosen_der if gradient else None, method=method, info=True)
    ctx.step(len(env.log))
    verify(ctx, env, x, r, p0, [(v - 10, v + 10) for v in p0], f"{method}/{dim}")
    ctx.ok(float(r.fun) < rosen(p0) / 10, "no progress")
    ctx.state("valley", method, gradient, dim, len(env.log))


def far(ctx, delta, start):
    """The automatic tube: half-width as asked, within the safety limits unless the start is outside."""
    from gpmp.kernel import autoselect_parameters
    p0 = np.array(start)
    env = Env({}, lambda p: float(np.sum(p)))
    x, r = autoselect_parameters(p0, env, lambda p: np.ones(2), bounds_delta=delta, info=True)
    want = np.where(np.abs(p0) <= 500, np.maximum(p0 - delta, -500), p0 - delta)
    top = np.where(np.abs(p0) <= 500, np.minimum(p0 + delta, 500), p0 + delta)
    ctx.close(x, want, "minimum of a decreasing criterion", rtol=1e-8, atol=1e-8)
    got = np.array([[float(v) for v in b] for b in r.bounds])
    ctx.close(got, np.stack([want, top], axis=1), "automatic bounds", rtol=1e-14, atol=0)


def foreign(ctx, method, k):
    """Errors that are not numerical failures are not swallowed."""
    from gpmp.kernel import autoselect_parameters
    env = Env({k: "stop"})
    ctx.raises(Fault, lambda: autoselect_parameters(np.zeros(2), env, smooth_grad, method=method), "foreign error")
    ctx.raises(ValueError, lambda: autoselect_parameters(np.zeros(2), Env({}), smooth_grad, method="Nelder"), "unknown method")


class Stub:
    meanparam = None
    covparam = None


def integrated(ctx, method, form, script, bname):
    """Same faults through the criterion wrappers (automatic differentiation with torch)."""
    import gpmp
    import gpmp.num as gnp
    log = []

    def crit(model, p, x, z):
        k = len(log)
        a = script.get(k)
        pn = to_np(p).astype(float).copy()
        v = gnp.sum((p - gnp.asarray(OPT)) ** 2 * gnp.asarray([1.0, 3.0])) + 0.1 * gnp.sum(p**4)
        fv = float(to_np(v))
        if not np.isfinite(pn).all():
            a, fv = "lin", math.inf
        log.append((pn, math.inf if a in ("inf", "lin", "rt") else math.nan if a == "nan" else fv))
        if a == "inf":
            return gnp.safe_inf()
        if a == "nan":
            return v * float("nan")
        if a in ("lin", "rt"):
            raise linalg(a)
        return v
    x, z = gnp.asarray(np.zeros((4, 1))), gnp.asarray(np.zeros(4))
    m = Stub()
    p0 = np.array([0.0, 0.0])
    g0 = gnp.asarray(p0.copy())
    kw = dict(xi=x, zi=z) if form == "arrays" else dict(
        dataloader=gpmp.dataloader.DataLoader(gpmp.dataloader.Dataset(x, z), batch_size=4, shuffle=False))
    b = BOUNDS[bname]
    m2, r = gpmp.kernel.select_parameters_with_criterion(
        m, crit, covparam0=g0, info=True, method=method, bounds=None if b is None else [tuple(t) for t in b], **kw)
    ctx.step(len(log))
    ctx.ok(m2 is m, "the model is returned")
    env = Env({})
    env.log = log
    bb = b if b is not None else [(-10.0, 10.0)] * 2
    if verify(ctx, env, r.x, r, p0, bb, f"{method}/{form}"):
        ctx.ok(np.array_equal(to_np(m.covparam), to_np(r.x)), "parameters installed in the model")
        ctx.ok(np.array_equal(to_np(r.covparam), to_np(r.x)), "parameters reported")
        ctx.ok(np.array_equal(to_np(r.covparam0), p0), "starting parameters reported")
    ctx.ok(np.array_equal(to_np(g0), p0) and not getattr(g0, "requires_grad", False), "starting point modified")
    ctx.state("int", method, form, np.round(np.nan_to_num(to_np(r.x), nan=99.0), 5), len(log))


def scripts(positions, r, faults):
    for ks in itertools.combinations(positions, r):
        for fs in itertools.product(faults, repeat=r):
            yield dict(zip(ks, fs))


def label(s):
    return ",".join(f"{k}={v}" for k, v in s.items()) or "none"


def explore(ctx):
    T = ctx.thorough
    methods = ("SLSQP", "L-BFGS-B")
    for method in methods:
        for g in (True, False):
            for b in BOUNDS:
                ctx.run(f"clean:{method}:{g}:{b}", clean, method, g, b)
            for r in (0, 1, 2) + ((3,) if T else ()):
                faults = FAULTS if r < 3 else ("inf", "nan", "lin")
                for s in scripts(range(10 if r < 2 else 7 if r == 2 else 6), r, faults):
                    for b in BOUNDS if r < 2 else ("auto", "box"):
                        ctx.run(f"direct:{method}:{g}:{b}:{label(s)}", direct, method, g, b, s)
            # arbitrary answers for the first evaluations
            answers = (3.0, 1.0, 2.0, "inf", "nan")
            n = 4 + T
            for a in itertools.product(answers, repeat=n):
                s = dict(enumerate(a))
                for base in ("flat",):
                    ctx.run(f"script:{method}:{g}:{base}:{label(s)}", direct, method, g, "auto" if g else "tight", s, base)
        for k in range(4):
            ctx.run(f"foreign:{method}:{k}", foreign, method, k)
        for form in ("arrays", "loader"):
            for r in (0, 1, 2) + ((3,) if T else ()):
                for s in scripts(range(9 if r < 2 else 6), r, ("inf", "nan", "lin", "rt") if r < 3 else ("inf", "nan", "lin")):
                    for b in ("auto", "box"):
                        ctx.run(f"int:{method}:{form}:{b}:{label(s)}", integrated, method, form, s, b)
        for gradient, dim in ((True, 2), (True, 10), (True, 40), (False, 10), (False, 25)):
            ctx.run(f"valley:{method}:{gradient}:{dim}", valley, method, gradient, dim)
    for delta in (0.5, 10.0, 600.0):
        for start in ([0.0, 1.0], [-495.0, 3.0], [2.0, 498.0], [-499.75, 499.75], [505.0, 0.0], [-700.0, 1.0], [1e4, -2e5]):
            ctx.run(f"far:{delta}:{start}", far, delta, start)
