"""C10 - selection and update procedures minimise the criterion they name.

Every procedure is run on every small configuration (data, mean, start, prior
arguments, data source, method, bounds) and on every history of procedures on
one model; each run is judged against a reference criterion that is evaluated
independently at the start, at every visited point and at the result.
"""

import itertools
import math
import warnings

import numpy as np

from mc import ref, zoo
from mc.ctx import to_np
from mc.checks.c11 import reference as guess_ref
from mc.checks.c12 import logrho_min, restore

HYPER = dict(gamma=1.5, cov=0.95, alpha=1.0, factor=0.05)


def data(d, k):
    if isinstance(k, tuple):        # the same data in other units
        X, z = data(d, k[0])
        return X * k[1], z * math.sqrt(k[2]) + sum(k[3:])
    if d in (1, 2):
        X = zoo.grid(d)[{1: [0, 1, 2, 3, 4], 2: [0, 1, 3, 5, 6, 8]}[d]]
    else:
        X = zoo.spread(8 * d, d)
    if k == 0:
        z = zoo.zvec(len(X))
    elif k == 1:
        z = np.sin(2.0 * X[:, 0]) + 0.4 * X[:, -1] ** 2
    else:
        z = 5.0 - 3.0 * X.sum(1) + 0.2 * zoo.zvec(len(X), 3)
    return X, z


def crit_ref(proc, s, X, z, anchor, kw):
    """Independent criterion: parameter vector -> value."""
    def base(c):
        with np.errstate(all="ignore"):
            try:
                return ref.reml(z, s.K(X, c), s.P(X)) if s.q else ref.gauss_nll(z, s.K(X, c))
            except np.linalg.LinAlgError:
                return math.inf

    def full(p):
        p = np.asarray(p, float)
        if proc == "ml":
            try:
                return ref.gauss_nll(z - p[0], s.K(X, p[1:]))
            except np.linalg.LinAlgError:
                return math.inf
        v = base(p)
        if proc == "power":
            v -= ref.prior_power_law(p)
        if proc in ("s2", "s2rho", "remap"):
            mu = kw.get("prior_log_sigma2_0", anchor[0])
            v -= ref.prior_logsigma2(p, mu, kw.get("prior_gamma", HYPER["gamma"]), kw.get("prior_sigma2_coverage", HYPER["cov"]))
        if proc in ("s2rho", "remap"):
            rmin = kw.get("prior_logrho_min", logrho_min(X, kw.get("prior_rho_min_range_factor", HYPER["factor"])))
            r0 = kw.get("prior_logrho_0", [-t for t in anchor[1:]])
            v -= ref.prior_logrho(p, rmin, r0, kw.get("prior_alpha", HYPER["alpha"]))
        return v
    return full


def procedure(proc, mode):
    import gpmp
    k = gpmp.kernel
    name = {"ml": "ml_constant_mean", "reml": "reml", "power": "remap_with_power_laws_prior",
            "s2": "remap_gaussian_logsigma2", "s2rho": "remap_gaussian_logsigma2_and_logrho_prior", "remap": "remap"}[proc]
    return getattr(k, f"{mode}_parameters_with_{name}")


def conv(kw):
    import gpmp.num as gnp
    return {k: gnp.asarray(np.array(v, float)) if isinstance(v, (list, np.ndarray)) else v for k, v in kw.items()}


def source(src, X, z):
    import gpmp.num as gnp
    from gpmp.dataloader import Dataset, DataLoader
    if src == "arrays":
        return dict(xi=gnp.asarray(X), zi=gnp.asarray(z))
    if src == "plain":
        return dict(xi=X, zi=z)
    if src == "loader":
        return dict(dataloader=DataLoader(Dataset(gnp.asarray(X), gnp.asarray(z)), batch_size=len(X), shuffle=False))
    if src == "shards":
        return dict(dataloader=DataLoader(Dataset([gnp.asarray(X[:2]), gnp.asarray(X[2:])], [gnp.asarray(z[:2]), gnp.asarray(z[2:])]),
                                          batch_size=50, shuffle=False))
    raise KeyError(src)


def inside(p, bounds, tol=1e-9):
    return bounds is None or all(lo - tol <= v <= hi + tol for v, (lo, hi) in zip(p, bounds))


def local_min(f, p, bounds):
    """Smallest value of f on a compass search around p, inside the bounds."""
    best, at = f(p), np.array(p, float)
    h = 0.05
    evals = 0
    while h > 1e-3 and evals < 600:
        moved = False
        for j in range(len(at)):
            for sgn in (1, -1):
                q = at.copy()
                q[j] += sgn * h
                if bounds is not None:
                    q[j] = min(max(q[j], bounds[j][0]), bounds[j][1])
                v = f(q)
                evals += 1
                if v < best - 1e-12:
                    best, at, moved = v, q, True
        if not moved:
            h /= 2
    return best


def judge(ctx, proc, s, model, info, X, z, start, anchor, kw, opts, msg, resp):
    f = crit_ref(proc, s, X, z, anchor, kw)
    nm = 1 if proc == "ml" else 0
    x = np.array(to_np(info["x"]), float)
    cov = to_np(model.covparam)
    ctx.close(to_np(info["covparam"]), cov, f"{msg}: installed covariance parameters", rtol=1e-12, atol=0)
    ctx.close(x[nm:], cov, f"{msg}: solution and installed parameters", rtol=1e-12, atol=0)
    if nm:
        ctx.close(to_np(model.meanparam), x[:1], f"{msg}: installed mean parameter", rtol=1e-12, atol=0)
        ctx.close(to_np(info["meanparam"]), x[:1], f"{msg}: reported mean parameter", rtol=1e-12, atol=0)
        ctx.close(to_np(info["meanparam0"]), start[:1], f"{msg}: reported starting mean", rtol=1e-6, atol=1e-6)
    ctx.close(to_np(info["covparam0"]), start[nm:], f"{msg}: reported starting point", rtol=1e-6, atol=1e-6)
    first = np.array(to_np(info["history_params"][0]), float)
    bounds = info["bounds"]
    if bounds is None or inside(start, bounds):
        ctx.close(first, start, f"{msg}: first point evaluated", rtol=1e-6, atol=1e-6)
    ctx.close(float(info["fun"]), f(x), f"{msg}: reported value", rtol=1e-5, atol=1e-5)
    ctx.ok(f(x) <= f(np.clip(start, *np.array(bounds).T) if bounds is not None else start) + 1e-6 * (1 + abs(f(x))),
           f"{msg}: the result is worse than the starting point")
    if "bounds" in opts:
        want = opts["bounds"]
    elif opts.get("bounds_auto", True):
        dl = opts.get("bounds_delta", 10.0)
        want = [(max(t - dl, -500), min(t + dl, 500)) if abs(t) <= 500 else (t - dl, t + dl) for t in start]
    else:
        want = None
    if want is None:
        ctx.ok(bounds is None, f"{msg}: no bounds asked")
    else:
        ctx.close(np.array([[float(a), float(b)] for a, b in bounds]), np.array(want, float), f"{msg}: bounds used", rtol=1e-6, atol=1e-6)
        ctx.ok(inside(x, want), f"{msg}: solution inside the bounds")
    # reported callables are the named criterion
    pts = [x, np.array(start, float), x + 0.1, x - np.array([0.2, 0.1, 0.3, 0.15, 0.05, 0.25, 0.12, 0.3])[:len(x)]]
    import gpmp.num as gnp
    for fn in ("selection_criterion", "selection_criterion_nograd"):
        for p in pts:
            w = f(p)
            if abs(w) < 1e6 or math.isinf(w):
                ctx.close(float(info[fn](gnp.asarray(p))), w, f"{msg}: {fn}", rtol=1e-5, atol=1e-5)
    hist = [float(v) for v in info["history_criterion"]]
    for p, v in list(zip(info["history_params"], hist))[:6]:
        w = f(np.array(to_np(p), float))
        if abs(w) < 1e6:
            ctx.close(v, w, f"{msg}: recorded value", rtol=1e-5, atol=1e-5)
    ctx.ok(float(info["fun"]) <= min(v for v in hist if v == v) + 1e-12, f"{msg}: best visited value returned")
    if resp and all(math.isfinite(v) for v in hist):    # optimisers may stop at an infinite barrier
        lm = local_min(f, x, want)
        ctx.ok(f(x) - lm <= (2e-2 if X.shape[1] < 3 else 1.0), f"{msg}: not a minimum, {f(x)} but {lm} nearby")
    ctx.state(proc, np.round(x, 4), start, opts.get("method"))


def expected_start(proc, mode, s, X, z, own, kw, ownmean=None):
    """(starting point, anchor) promised by the documentation."""
    m, c0, _ = guess_ref(s, X, z, trend=False)
    if proc == "ml":
        cov = own if mode == "update" else kw.get("covparam0", c0)
        mean = ownmean if mode == "update" else kw.get("meanparam0", [m])
        return np.concatenate((mean, cov)), None
    gen = guess_ref(s, X, z)[1]
    fall = list(own) if mode == "update" else list(gen)
    shared = kw.get("covparam0", fall)
    return np.array(kw.get("covparam0_init", shared), float), kw.get("covparam0_prior", shared)


def run(ctx, proc, mode, s, model, X, z, src, kw, opts, msg, resp=True):
    own = to_np(model.covparam).tolist()
    ownmean = None if model.meanparam is None else to_np(model.meanparam).tolist()
    start, anchor = expected_start(proc, mode, s, X, z, own, kw, ownmean)
    X0, z0 = X.copy(), z.copy()
    if proc in ("s2rho", "remap"):
        rmin = np.array(kw.get("prior_logrho_min", logrho_min(X, kw.get("prior_rho_min_range_factor", HYPER["factor"]))))
        gap = np.min(np.array(kw.get("prior_logrho_0", [-t for t in anchor[1:]])) - rmin)
        if abs(gap) < 1e-4:
            return None
        if gap < 0:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ctx.raises(ValueError, lambda: procedure(proc, mode)(model, **source(src, X, z), **conv(kw), **opts),
                           f"{msg}: reference length scale below the barrier")
            ctx.equal(to_np(model.covparam).tolist(), own, f"{msg}: parameters after a rejected call")
            return None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out, info = procedure(proc, mode)(model, **source(src, X, z), info=True, **conv(kw), **opts)
    ctx.ok(out is model, f"{msg}: the model given is the model returned")
    judge(ctx, proc, s, model, info, X, z, start, anchor, kw, opts, msg, resp)
    ctx.ok(np.array_equal(X, X0) and np.array_equal(z, z0), f"{msg}: data modified")
    return info


def specs(proc, d, kernel="matern1", mean="const", v=0):
    return zoo.spec(kernel, "par_const" if proc == "ml" else mean, d, v)


def single(ctx, proc, mode, d, k, kernel, mean, src, kwi, opti):
    restore()
    s = specs(proc, d, kernel, mean)
    X, z = data(d, k)
    kw = KWS[proc][kwi](d)
    if mode == "update":
        kw = {q: v for q, v in kw.items() if q not in ("covparam0", "meanparam0") or proc in ("s2", "s2rho")}
    opts = OPTS[opti](d + (2 if proc == "ml" else 1))
    model = s.model()
    info = run(ctx, proc, mode, s, model, X, z, src, kw, opts, f"{mode} {proc}")
    if info is None:
        return
    # the answer without diagnostics is the same
    other = s.model()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _, none = procedure(proc, mode)(other, **source(src, X, z), **conv(kw), **opts)
    ctx.ok(none is None, "no diagnostics requested")
    ctx.close(to_np(other.covparam), to_np(model.covparam), "parameters without diagnostics", rtol=1e-9, atol=1e-9)
    ctx.ok(len(info["history_params"]) == len(info["history_criterion"]), "history lengths")


def forms(ctx, proc, mode, src, kx, kz):
    """Whole-number data in every kind of plain array give the parameters of the same values."""
    from gpmp.dataloader import Dataset, DataLoader
    restore()
    s = specs(proc, 2)
    X = zoo.whole(7, 2)
    z = np.array([3.0, -1.0, 4.0, 1.0, -5.0, 9.0, 2.0])
    res = []
    for x, y in ((X, z), (zoo.form(X, kx), zoo.form(z, kz))):
        kw = dict(xi=x, zi=y) if src == "plain" else dict(dataloader=DataLoader(Dataset(x, y), batch_size=7, shuffle=False))
        model = s.model()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _, info = procedure(proc, mode)(model, **kw, info=True)
        res.append((to_np(model.covparam), float(info["fun"])))
        ctx.step()
    ctx.close(res[1][0], res[0][0], f"parameters from {kx}/{kz} arrays", rtol=1e-2, atol=1e-2)
    ctx.close(res[1][1], res[0][1], f"criterion from {kx}/{kz} arrays", rtol=1e-6, atol=1e-6)
    ctx.state("forms", proc, mode, src, kx, kz)


def starts(ctx, proc, kind, d):
    """Whole-number starting parameters in every form a user may give them."""
    restore()
    s = specs(proc, d)
    X, z = zoo.spread(7, d) * 3, np.array([0.0, 1.2, 2.5, 4.2, 4.3, 1.0, 0.3])
    start = [1.0] + [-2.0] * d
    res = []
    for k in ("float", kind):
        model = s.model()
        kw = dict(covparam0=zoo.given(start, k))
        if s.meanparam is not None:
            kw["meanparam0"] = zoo.given([1.0] * len(s.meanparam), k)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _, info = procedure(proc, "select")(model, xi=X, zi=z, info=True, **kw)
        res.append((to_np(model.covparam), float(info["fun"])))
        ctx.step()
    ctx.close(res[1][0], res[0][0], f"parameters from {kind} starting parameters", rtol=1e-2, atol=1e-2)
    ctx.close(res[1][1], res[0][1], f"criterion from {kind} starting parameters", rtol=1e-6, atol=1e-6)
    ctx.state("starts", proc, kind, d)


def history(ctx, hist):
    """A sequence of procedures on one live model."""
    restore()
    s = zoo.spec("matern1", "const", 1, 0)
    model = s.model()
    for i, op in enumerate(hist):
        ctx.step()
        proc, mode, k = op.split(".")
        X, z = data(1, int(k))
        run(ctx, proc, mode, s, model, X, z, "arrays", {}, {}, f"step {i} {op}", resp=False)


def custom(ctx, mode, pm, mlen, src):
    """User-written criterion through the generic procedure: known minimum."""
    import gpmp
    import gpmp.num as gnp
    s = zoo.spec("matern1", "par_affine" if mlen == 2 else "par_const", 1, 0) if pm else zoo.spec("matern1", "const", 1, 0)
    X, z = data(1, 0)
    model = s.model()
    tm, tc = np.array([0.8, -1.2])[:mlen], np.array([0.5, -0.25])
    seen = []

    def f(m, *a):
        ctx.count("transitions")
        seen.append(m)
        if pm:
            mp, cp, xi, zi = a
            ctx.equal(tuple(mp.shape), (mlen,), "mean parameters handed to the criterion")
        else:
            cp, xi, zi = a
        ctx.equal(tuple(cp.shape), (2,), "covariance parameters handed to the criterion")
        ctx.equal(np.array_equal(to_np(xi), X) and np.array_equal(to_np(zi).reshape(-1), z), True, "data handed to the criterion")
        v = gnp.sum((cp - gnp.asarray(tc)) ** 2) + gnp.sum(zi) * 0.0
        return v + 2.0 * gnp.sum((mp - gnp.asarray(tm)) ** 2) if pm else v
    kw = dict(parameterized_mean=pm, meanparam_len=mlen) if pm else {}
    if mode == "select":
        if pm:
            kw["meanparam0"] = gnp.asarray(np.array([0.1, 0.2])[:mlen])
        kw["covparam0"] = gnp.asarray(np.array([1.0, 1.0]))
        fn = gpmp.kernel.select_parameters_with_criterion
    else:
        fn = gpmp.kernel.update_parameters_with_criterion
    m0 = None if model.meanparam is None else to_np(model.meanparam).copy()
    out, info = fn(model, f, **source(src, X, z), info=True, **kw)
    ctx.ok(out is model and all(m is model for m in seen), "model object")
    ctx.close(to_np(model.covparam), tc, "minimiser", rtol=0, atol=2e-3)
    if pm:
        ctx.close(to_np(model.meanparam), tm, "minimiser (mean)", rtol=0, atol=2e-3)
        ctx.close(to_np(info["meanparam0"]), np.array([0.1, 0.2])[:mlen] if mode == "select" else m0, "start (mean)", rtol=1e-12, atol=0)
    else:
        ctx.ok(info["meanparam"] is None and info["meanparam0"] is None, "no mean parameters")
    ctx.close(to_np(info["covparam0"]), np.array([1.0, 1.0]) if mode == "select" else np.array(s.covparam), "start", rtol=1e-12, atol=0)
    ctx.state(mode, pm, mlen, src)


def reject(ctx, what):
    import gpmp
    import gpmp.num as gnp
    k = gpmp.kernel
    X, z = data(1, 0)
    s = zoo.spec("matern1", "const", 1, 0)
    par = zoo.spec("matern1", "par_const", 1, 0)
    a = source("arrays", X, z)
    both = dict(a, **source("loader", X, z))
    cases = {
        "ml without parameterized mean": lambda: k.select_parameters_with_ml_constant_mean(s.model(), **a),
        "ml update without parameterized mean": lambda: k.update_parameters_with_ml_constant_mean(s.model(), **a),
        "two mean parameters": lambda: k.select_parameters_with_ml_constant_mean(par.model(), **a, meanparam0=gnp.asarray(np.zeros(2))),
        "mean start missing": lambda: k.select_parameters_with_criterion(par.model(), lambda *q: 0.0, **a, parameterized_mean=True),
        "two sources": lambda: k.select_parameters_with_reml(s.model(), **both),
        "two sources remap": lambda: k.select_parameters_with_remap(s.model(), **both),
        "two sources update": lambda: k.update_parameters_with_reml(s.model(), **both),
        "no data": lambda: k.select_parameters_with_reml(s.model()),
        "no data ml": lambda: k.select_parameters_with_ml_constant_mean(par.model()),
        "unknown method": lambda: k.select_parameters_with_reml(s.model(), **a, method="nope"),
    }
    ctx.raises(ValueError, cases[what], what)


REJECT = ["ml without parameterized mean", "ml update without parameterized mean", "two mean parameters", "mean start missing",
          "two sources", "two sources remap", "two sources update", "no data", "no data ml", "unknown method"]

START = [0.9, -0.4, 0.3]
ANCHOR = [-0.6, 0.8, -0.2]
KWS = {
    "reml": [lambda d: {}, lambda d: dict(covparam0=START[:d + 1])],
    "power": [lambda d: {}, lambda d: dict(covparam0=START[:d + 1])],
    "ml": [lambda d: {}, lambda d: dict(covparam0=START[:d + 1]), lambda d: dict(meanparam0=[1.5]),
           lambda d: dict(covparam0=START[:d + 1], meanparam0=[-0.5])],
    "s2": [lambda d: {}, lambda d: dict(covparam0=START[:d + 1]), lambda d: dict(covparam0_prior=ANCHOR[:d + 1]),
           lambda d: dict(covparam0_init=START[:d + 1]), lambda d: dict(covparam0_prior=ANCHOR[:d + 1], covparam0_init=START[:d + 1]),
           lambda d: dict(prior_gamma=5.0), lambda d: dict(prior_sigma2_coverage=0.5, covparam0=ANCHOR[:d + 1], covparam0_init=START[:d + 1])],
    "s2rho": [lambda d: {}, lambda d: dict(covparam0=START[:d + 1]), lambda d: dict(covparam0_prior=ANCHOR[:d + 1]),
              lambda d: dict(covparam0_init=START[:d + 1]), lambda d: dict(prior_gamma=5.0, prior_alpha=3.0),
              lambda d: dict(prior_sigma2_coverage=0.5, prior_rho_min_range_factor=0.2),
              lambda d: dict(prior_log_sigma2_0=2.0, prior_logrho_0=[1.0, 0.7][:d], prior_logrho_min=[-3.0, -2.5][:d]),
              lambda d: dict(covparam0_prior=ANCHOR[:d + 1], covparam0_init=START[:d + 1], prior_alpha=0.4)],
    "remap": [lambda d: {}, lambda d: dict(covparam0_init=START[:d + 1]), lambda d: dict(prior_gamma=5.0, prior_alpha=3.0),
              lambda d: dict(covparam0_prior=ANCHOR[:d + 1], prior_logrho_min=[-3.0, -2.5][:d])],
}
OPTS = [
    lambda n: {},
    lambda n: dict(method="L-BFGS-B"),
    lambda n: dict(bounds_delta=0.3),
    lambda n: dict(bounds=[(-1.0 - 0.1 * j, 1.2 + 0.1 * j) for j in range(n)]),
    lambda n: dict(method_options=dict(ftol=1e-10)),
]


def explore(ctx):
    T = ctx.thorough
    for w in REJECT:
        ctx.run(f"reject:{w}", reject, w)
    for mode, (pm, ml), src in itertools.product(("select", "update"), ((False, 1), (True, 1), (True, 2)), ("arrays", "plain", "loader", "shards")):
        ctx.run(f"custom:{mode}:{pm}:{ml}:{src}", custom, mode, pm, ml, src)
    for proc, mode in itertools.product(KWS, ("select", "update")):
        for d, k in itertools.product((1, 2), (0, 1, 2)):
            for kwi in range(len(KWS[proc])):
                for opti in range(len(OPTS)):
                    if not T and (kwi and opti and (kwi + opti + k) % 4):
                        continue
                    for src in ("arrays", "plain", "loader", "shards"):
                        if src in ("plain", "shards") and not T and (kwi or opti):
                            continue
                        ctx.run(f"one:{proc}:{mode}:{d}:{k}:matern1:const:{src}:{kwi}:{opti}", single, proc, mode, d, k, "matern1", "const", src, kwi, opti)
        for d, k, src in itertools.product((4, 6) if T else (4,), (1, 2), ("arrays", "loader")):
            ctx.run(f"dim:{proc}:{mode}:{d}:{k}:{src}", single, proc, mode, d, k, "matern1", "const", src, 0, 0)
        for d, k, (u, v) in itertools.product((1, 2), (1, 2), ((1e-3, 1.0), (1e3, 1.0), (1.0, 1e6), (1e2, 1e8), (1.0, 1e-2 if proc == "ml" else 1e-6)) if mode == "select" else ()):
            ctx.run(f"units:{proc}:{d}:{k}:{u}:{v}", single, proc, mode, d, (k, u, v), "matern1", "const", "arrays", 0, 0)
        for d, k, off in itertools.product((1, 2), (1, 2), (-300.0, 800.0, 2e4) if mode == "select" else ()):
            ctx.run(f"offset:{proc}:{d}:{k}:{off}", single, proc, mode, d, (k, 1.0, 1.0, off), "matern1", "const", "arrays", 0, 0)
        for kind, d in itertools.product(zoo.GIVEN if mode == "select" else (), (1, 2)):
            ctx.run(f"starts:{proc}:{kind}:{d}", starts, proc, kind, d)
        for src, kx, kz in itertools.product(("plain", "loader"), ("int", "single", "reversed", "float"), ("int", "int32", "single", "reversed", "strided")):
            if mode == "update" and proc in ("s2rho", "remap"):     # the model's own length scales are below the prior's
                continue
            ctx.run(f"forms:{proc}:{mode}:{src}:{kx}:{kz}", forms, proc, mode, src, kx, kz)
        for kernel, mean in (("matern0", "const"), ("matern2", "const"), ("matern1", "lin")):
            if proc == "ml" and mean == "lin":
                continue
            for k in (0, 1, 2):
                ctx.run(f"one:{proc}:{mode}:1:{k}:{kernel}:{mean}:arrays:0:0", single, proc, mode, 1, k, kernel, mean, "arrays", 0, 0)
    ops = [f"{p}.{m}.{k}" for p in ("reml", "power", "s2", "s2rho") for m in ("select", "update") for k in ((0, 1) if T else (0,))]
    ops += ["reml.update.1", "s2rho.update.1"] if not T else []
    for n in (2,) + ((3,) if T else ()):
        for h in itertools.product(ops if n == 2 else ops[::2], repeat=n):
            ctx.run(f"hist:{','.join(h)}", history, h)
