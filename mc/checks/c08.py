"""C08 - values and gradients given to optimisers are those of the criterion.

Part 1: every criterion x model x design x parameters, gradient compared with
high-order differences of an independent dense implementation.
Part 2: all call histories up to a depth on one criterion object (single and
mini-batch), with failing parameter vectors in the alphabet.
"""

import itertools
import math

import numpy as np

from mc import ref, zoo
from mc.ctx import to_np

S0, GAMMA, COV = 0.4, 5.0, 0.9
ALPHA = 7.0


def criteria(s, X, z):
    """name -> (gpmp criterion, reference function of p, number of mean parameters)."""
    import gpmp
    import gpmp.num as gnp
    K = gpmp.kernel
    if s.meantype == "zero":
        return {"ml0": (K.negative_log_likelihood_zero_mean, lambda p: ref.gauss_nll(z, s.K(X, p)), 0)}
    if s.meantype == "parameterized":
        q = len(s.meanparam)

        def nll(p):
            m = s.rmean(X, p[:q]).reshape(-1)
            return ref.gauss_nll(z - m, s.K(X, p[q:]))
        return {"ml": (K.negative_log_likelihood, nll, q)}

    def reml(p):
        return ref.reml(z, s.K(X, p), s.P(X))
    d = len(s.covparam) - 1
    rmin = [-3.0 - 0.1 * j for j in range(d)]
    r0 = [-0.2 + 0.15 * j for j in range(d)]
    gm, g0 = gnp.asarray(np.array(rmin)), gnp.asarray(np.array(r0))
    P = gpmp.kernel.priors
    return {
        "reml": (K.negative_log_restricted_likelihood, reml, 0),
        "jeffreys": (lambda m, c, x, y: P.neg_log_restricted_posterior_with_jeffreys_prior(m, c, x, y, lambda_var=1.5),
                     lambda p: reml(p) + 1.5 * p[0], 0),
        "power": (P.neg_log_restricted_posterior_power_laws_prior, lambda p: reml(p) - ref.prior_power_law(p), 0),
        "logsigma2": (lambda m, c, x, y: P.neg_log_restricted_posterior_logsigma2_prior(
            m, c, x, y, log_sigma2_0=S0, gamma=GAMMA, sigma2_coverage=COV),
            lambda p: reml(p) - ref.prior_logsigma2(p, S0, GAMMA, COV), 0),
        "logrho": (lambda m, c, x, y: P.neg_log_restricted_posterior_with_logrho_prior(
            m, c, x, y, logrho_min=gm, logrho_0=g0, alpha=ALPHA),
            lambda p: reml(p) - ref.prior_logrho(p, rmin, r0, ALPHA), 0),
        "both": (lambda m, c, x, y: P.neg_log_restricted_posterior_logsigma2_and_logrho_prior(
            m, c, x, y, log_sigma2_0=S0, gamma=GAMMA, sigma2_coverage=COV, logrho_min=gm, logrho_0=g0, alpha=ALPHA),
            lambda p: reml(p) - ref.prior_logrho(p, rmin, r0, ALPHA) - ref.prior_logsigma2(p, S0, GAMMA, COV), 0),
    }


def available(name):
    import gpmp
    need = {"jeffreys": "neg_log_restricted_posterior_with_jeffreys_prior",
            "power": "neg_log_restricted_posterior_power_laws_prior",
            "logsigma2": "neg_log_restricted_posterior_logsigma2_prior",
            "logrho": "neg_log_restricted_posterior_with_logrho_prior",
            "both": "neg_log_restricted_posterior_logsigma2_and_logrho_prior"}.get(name)
    return need is None or hasattr(gpmp.kernel.priors, need)


def derivative(ctx, kernel, mean, d, variant, sub, name, zshape):
    import gpmp
    import gpmp.num as gnp
    s = zoo.spec(kernel, mean, d, variant)
    X = zoo.grid(d)[list(sub)] if isinstance(sub, tuple) else zoo.spread(sub, d)
    z = zoo.zvec(len(X))
    crit, rf, q = criteria(s, X, z)[name]
    p = np.array((list(s.meanparam) if q else []) + list(s.covparam))
    m = s.model()
    gx, gz = gnp.asarray(X.copy()), gnp.asarray(z.copy() if zshape == "flat" else z.reshape(-1, 1).copy())
    kw = dict(parameterized_mean=True, meanparam_len=q) if q else {}
    want = rf(p)
    wg = ref.derivative(rf, p)
    scale = 1.0 + np.abs(wg).max() + abs(want)
    tol = 1e-6 * scale if kernel != "matern0" else 1e-5 * scale
    for form in ("arrays", "loader"):
        if form == "arrays":
            fs = gpmp.kernel.make_selection_criterion_with_gradient(m, crit, gx, gz, **kw)
        else:
            dl = gpmp.dataloader.DataLoader(gpmp.dataloader.Dataset(gx, gz), batch_size=len(X), shuffle=False)
            fs = gpmp.kernel.make_selection_criterion_with_gradient(m, crit, dataloader=dl, **kw)
        ev, pre, nog, gr = fs
        gp = gnp.asarray(p.copy())
        for what, f in (("value", ev), ("value without gradient", nog), ("value before gradient", pre)):
            ctx.close(float(f(gp)), want, f"{form}: {what}", rtol=1e-8, atol=1e-8)
        ctx.close(float(pre(p.copy())), want, f"{form}: value for a plain array", rtol=1e-8, atol=1e-8)
        if ctx.backend == "torch":
            pre(gp)
            ctx.close(gr(gp), wg, f"{form}: gradient", rtol=0, atol=tol)
            pre(p.copy())
            ctx.close(gr(p.copy()), wg, f"{form}: gradient for a plain array", rtol=0, atol=tol)
        elif gr is not None:
            ctx.close(gr(gp), wg, f"{form}: gradient", rtol=0, atol=tol)
        ctx.ok(np.array_equal(to_np(gp), p), "parameter vector modified")
        ctx.ok(not getattr(gp, "requires_grad", False), "gradient tracking switched on in the argument")
    # the same through the generic helper
    def f(c):
        return crit(m, *((c[:q], c[q:]) if q else (c,)), gx, gz)
    v, g = gnp.value_and_grad(f, gnp.asarray(p.copy()))
    ctx.close(float(v), want, "value (generic helper)", rtol=1e-8, atol=1e-8)
    ctx.close(g, wg, "gradient (generic helper)", rtol=0, atol=(1e-5 if ctx.backend == "numpy" else 0) * scale + tol)
    ctx.state(kernel, mean, d, variant, sub, name)


# -- histories --------------------------------------------------------------------
X5 = np.array([[0.0], [1.0], [2.5], [4.0], [-1.0]])
Z5 = np.array([0.3, -1.0, 2.0, 0.5, 1.5])
PTS = {"a": np.array([0.2, -0.4]), "b": np.array([-0.9, 0.7]),
       "lin": np.array([9.0, 1.0]), "inf": np.array([8.0, 1.0]), "nan": np.array([7.0, 1.0])}


def synthetic(gnp):
    """Smooth criterion (mean over rows) that fails near three parameter vectors."""
    def crit(model, p, x, z):
        first = float(p[0].detach()) if hasattr(p, "detach") else float(p[0])
        if abs(first - 9.0) < 0.5:
            raise np.linalg.LinAlgError("Matrix is not positive definite")
        if abs(first - 8.0) < 0.5:
            return gnp.safe_inf()
        r = gnp.exp(p[0]) * x[:, 0] + gnp.sin(p[1]) * z - z * z
        out = gnp.mean(r * r) + p[0] * p[1]
        if abs(first - 7.0) < 0.5:
            return out * float("nan")
        return out
    return crit


def true_value(p, idx):
    r = np.exp(p[0]) * X5[idx, 0] + np.sin(p[1]) * Z5[idx] - Z5[idx] ** 2
    return np.mean(r * r) + p[0] * p[1]


def full_value(p):
    if abs(p[0] - 7.0) < 0.5:
        return math.nan
    if p[0] > 6:
        return math.inf
    return true_value(p, np.arange(5))


GRAD = {k: ref.derivative(full_value, v, h=1e-3) for k, v in PTS.items() if k in "ab"}


def history(ctx, form, hist):
    import gpmp
    import gpmp.num as gnp
    gx, gz = gnp.asarray(X5.copy()), gnp.asarray(Z5.copy())
    crit = synthetic(gnp)
    if form == "arrays":
        ev, pre, nog, gr = gpmp.kernel.make_selection_criterion_with_gradient(None, crit, gx, gz)
    else:
        bs = int(form[5:])
        dl = gpmp.dataloader.DataLoader(gpmp.dataloader.Dataset(gx, gz), batch_size=bs, shuffle=False)
        ev, pre, nog, gr = gpmp.kernel.make_selection_criterion_with_gradient(None, crit, dataloader=dl)
    args = {k: gnp.asarray(v.copy()) for k, v in PTS.items()}
    last = None          # point of the last value-before-gradient call
    fresh = False        # gradient not asked yet there
    kept = []
    for k, op in enumerate(hist):
        ctx.step()
        kind, pt = op.split(":")
        want = full_value(PTS[pt])
        msg = f"{op} after {','.join(hist[:k])}"
        if kind == "pre":
            plain = (k % 2 == 1)
            got = pre(PTS[pt].copy() if plain else args[pt])
            ctx.close(float(got), want, msg, rtol=1e-12, atol=1e-12)
            last, fresh = pt, True
        elif kind in ("nog", "ev"):
            f = nog if kind == "nog" else ev
            if pt in "ab":
                ctx.close(float(f(args[pt])), want, msg, rtol=1e-12, atol=1e-12)
            else:
                # reported as infinite or raised; never a finite value
                try:
                    got = float(f(args[pt]))
                except Exception:
                    ctx.ok(pt != "nan", msg + " raised")
                else:
                    ctx.ok(not math.isfinite(got), msg + f" gave {got}")
        elif gr is not None:
            ctx.count("comparisons")
            try:
                g = gr(args[pt])
            except Exception as exc:
                # refusing is allowed only when there is nothing to differentiate
                ctx.ok(pt != last or not fresh, f"{msg}: {type(exc).__name__}: {exc}")
            else:
                if pt in "ab":
                    ctx.close(g, GRAD[pt], msg, rtol=1e-6, atol=1e-6)
                    kept.append((g, to_np(g).copy()))
                else:
                    ctx.ok(not np.isfinite(to_np(g)).any(), f"{msg}: finite gradient at a failed point")
                if pt == last:
                    fresh = False
        else:
            ctx.count("comparisons")
        for name, a in args.items():
            ctx.ok(np.array_equal(to_np(a), PTS[name]), f"argument modified by {msg}")
            ctx.ok(not getattr(a, "requires_grad", False), f"gradient tracking switched on by {msg}")
        for g, v in kept:
            ctx.ok(np.array_equal(to_np(g), v), f"an earlier gradient changed during {msg}")
        ctx.state(form, last, fresh, op)


def helpers(ctx, name, p):
    """Gradient and Hessian helpers on functions with known derivatives."""
    import gpmp.num as gnp
    A = np.array([[2.0, 0.3, -0.1], [0.3, 1.5, 0.2], [-0.1, 0.2, 0.7]])
    gA = gnp.asarray(A)
    fs = {
        "quad": (lambda x: 0.5 * gnp.sum(x * gnp.matmul(gA, x)), lambda x: 0.5 * x @ A @ x, lambda x: A @ x, lambda x: A),
        "exp": (lambda x: gnp.sum(gnp.exp(x) * x), lambda x: np.sum(np.exp(x) * x), lambda x: np.exp(x) * (1 + x),
                lambda x: np.diag(np.exp(x) * (2 + x))),
        "prod": (lambda x: x[0] * x[1] * x[2] + x[0] ** 3, lambda x: x[0] * x[1] * x[2] + x[0] ** 3,
                 lambda x: np.array([x[1] * x[2] + 3 * x[0] ** 2, x[0] * x[2], x[0] * x[1]]),
                 lambda x: np.array([[6 * x[0], x[2], x[1]], [x[2], 0, x[0]], [x[1], x[0], 0]])),
    }
    f, v, g, h = fs[name]
    x = np.array(p)
    gx = gnp.asarray(x.copy())
    tv, tg = gnp.value_and_grad(f, gx)
    tol = 1e-10 if ctx.backend == "torch" else 1e-6
    ctx.close(float(tv), v(x), "value", rtol=1e-12, atol=1e-12)
    ctx.close(tg, g(x), "gradient", rtol=tol, atol=tol)
    ctx.ok(np.array_equal(to_np(gx), x) and not getattr(gx, "requires_grad", False), "argument changed")
    ctx.close(gnp.grad(f)(gx), g(x), "gradient function", rtol=tol, atol=tol)
    w = np.round(x)
    for kind in zoo.GIVEN:
        tv, tg = gnp.value_and_grad(f, zoo.given(w, kind))
        ctx.close(float(tv), v(w), f"value at {kind} parameters", rtol=1e-12, atol=1e-12)
        ctx.close(tg, g(w), f"gradient at {kind} parameters", rtol=tol, atol=tol)
        ctx.close(gnp.grad(f)(zoo.given(w, kind)), g(w), f"gradient function at {kind} parameters", rtol=tol, atol=tol)
    if ctx.backend == "torch":
        so = gnp.SecondOrderDifferentiableFunction(f)
        for _ in range(2):
            ctx.close(float(so.evaluate(gx)), v(x), "value", rtol=1e-12, atol=1e-12)
            ctx.close(so.gradient(), g(x), "first derivative", rtol=tol, atol=tol)
            ctx.close(so.hessian(), h(x), "second derivative", rtol=tol, atol=tol)
    ctx.ok(np.array_equal(to_np(gx), x) and not getattr(gx, "requires_grad", False), "argument changed")


def explore(ctx):
    T = ctx.thorough
    names = {"zero": ["ml0"], "par_const": ["ml"], "par_affine": ["ml"],
             "const": ["reml", "jeffreys", "power", "logsigma2", "logrho", "both"],
             "lin": ["reml", "both"], "basis": ["reml"]}
    for mean, crits in names.items():
        for kernel in ("matern0", "matern1", "matern2", "gauss", "noisy1", "swell1") + (("matern3", "matern4") if T else ()):
            if kernel == "noisy1" and mean == "const":
                crits_k = ["reml"]
            else:
                crits_k = crits
            for d in (1, 2, 3):
                for variant in (0, 1) + ((2,) if T else ()):
                    N = len(zoo.grid(d))
                    subs = ([tuple(range(5)), (0, 1, 3), (0, 2, 3, 4)] if d == 1 else
                            zoo.progressions(N, 6, steps=(1, 2), starts=(0,)))
                    if kernel == "gauss":
                        subs = subs[1:]
                    for sub in subs:
                        s = zoo.spec(kernel, mean, d, variant)
                        X = zoo.grid(d)[list(sub)]
                        if np.linalg.cond(s.K(X)) > 1e6 or (s.q and (len(X) <= s.q + 1 or not zoo.rank_ok(s.P(X), s.q))):
                            continue
                        for name in crits_k:
                            if available(name):
                                for zs in ("flat", "col") if name in ("ml0", "reml") else ("flat",):
                                    ctx.run(f"d:{kernel}:{mean}:{d}:{variant}:{sub}:{name}:{zs}", derivative,
                                            kernel, mean, d, variant, sub, name, zs)
    for kernel, mean in (("matern0", "zero"), ("matern1", "const"), ("matern2", "par_affine"), ("noisy1", "lin")):
        for d in (1, 4, 8):
            for n in (20, 33, 65) + ((100, 129) if T else ()):
                for name in names[mean]:
                    if available(name) and not (kernel == "noisy1" and name != "reml"):
                        ctx.run(f"n:{kernel}:{mean}:{d}:{n}:{name}", derivative, kernel, mean, d, 1, n, name, "flat")
    for name in ("quad", "exp", "prod"):
        for p in itertools.product((-1.5, 0.0, 0.75), repeat=3):
            ctx.run(f"helper:{name}:{p}", helpers, name, p)
    ops = ["pre:a", "pre:b", "pre:lin", "pre:inf", "pre:nan", "grad:a", "grad:b", "grad:lin", "grad:inf",
           "nog:a", "nog:b", "nog:lin", "ev:b", "ev:inf"]
    core = ["pre:a", "pre:b", "pre:lin", "pre:inf", "grad:a", "grad:b", "grad:lin", "nog:b"]
    for form in ("arrays", "batch2", "batch5"):
        for n in (1, 2, 3):
            for h in itertools.product(ops, repeat=n):
                ctx.run(f"h:{form}:{','.join(h)}", history, form, h)
        for h in itertools.product(core, repeat=4):
            ctx.run(f"h:{form}:{','.join(h)}", history, form, h)
        if T:
            for h in itertools.product(core[:-1], repeat=5):
                ctx.run(f"h:{form}:{','.join(h)}", history, form, h)
