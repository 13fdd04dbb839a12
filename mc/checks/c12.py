"""C12 - priors, penalised criteria and the store of default hyperparameters.

Formulas are evaluated on full parameter grids (both sides of and at every
cut-off / barrier); the settings store is explored by all histories of accepted
and rejected updates; argument-resolution rules by all presence patterns.
"""

import itertools
import math
import warnings

import numpy as np

from mc import ref, zoo
from mc.ctx import to_np


def mod():
    import gpmp
    return gpmp.kernel.priors


def arr(v):
    import gpmp.num as gnp
    return gnp.asarray(np.array(v, float))


BUILTIN = {"gamma": 1.5, "sigma2_coverage": 0.95, "alpha": 1.0, "rho_min_range_factor": 1 / 20.0}


def restore():
    from gpmp.kernel import prior_defaults as D
    D.set_default_prior_hyperparameters(**BUILTIN)


# -- formulas ---------------------------------------------------------------------
def power(ctx, c, kw):
    P = mod()
    names = dict(lv="lambda_var", cut_s="cut_logvariance_high", ll="lambda_lengthscales", lo="cut_loginvrho_low",
                 hi="cut_loginvrho_high", pen="penalty_factor")
    g = arr(c)
    got = P.log_prior_power_law(g, **{names[k]: v for k, v in kw.items()})
    ctx.close(float(got), ref.prior_power_law(c, **kw), f"power-law prior at {c}", rtol=1e-12, atol=1e-12)
    lam = kw.get("lv", 1.0)
    ctx.close(float(P.log_prior_jeffreys_variance(g, lambda_var=lam)), -lam * c[0], "variance prior", rtol=1e-14)
    if lam == 1.0:
        ctx.close(float(P.log_prior_jeffreys_variance(g)), -c[0], "variance prior", rtol=1e-14)
    ctx.ok(np.array_equal(to_np(g), np.array(c)), "argument modified")
    ctx.state("power", c, kw)


def logsigma2(ctx, s, mu, gamma, cov):
    P = mod()
    restore()
    for d in (1, 2):
        c = [s] + [0.3] * d
        got = float(P.log_prior_gaussian_logsigma2(arr(c), mu, gamma=gamma, sigma2_coverage=cov))
        ctx.close(got, ref.prior_logsigma2(c, mu, gamma, cov), "variance prior", rtol=1e-10, atol=1e-13)
    # calibration, from its documented meaning
    top = float(P.log_prior_gaussian_logsigma2(arr([mu + math.log(gamma), 0.0]), mu, gamma=gamma, sigma2_coverage=cov))
    ctx.close(math.erf(math.sqrt(-top)), cov, "probability of the calibrated interval", rtol=1e-9)
    ctx.state("s2", s, mu, gamma, cov)


def logrho(ctx, c, rmin, r0, alpha):
    P = mod()
    want = ref.prior_logrho(c, rmin, r0, alpha)
    got = float(P.log_prior_logrho_barrier_linear(arr(c), arr(rmin), arr(r0), alpha=alpha))
    ctx.close(got, want, f"length-scale prior at {c}", rtol=1e-12, atol=1e-12)
    el = to_np(P.neglog_f_logrho(arr([-t for t in c[1:]]), arr(rmin), arr(r0), alpha=alpha))
    w = [-ref.prior_logrho([0.0, t], [a], [b], alpha) for t, a, b in zip(c[1:], rmin, r0)]
    ctx.close(el, np.array(w), "componentwise penalty", rtol=1e-12, atol=1e-12)
    # the reference value is the minimum of the penalty
    at0 = to_np(P.neglog_f_logrho(arr(r0), arr(rmin), arr(r0), alpha=alpha))
    ctx.ok((el >= at0 - 1e-12).all(), "penalty below its value at the reference point")
    ctx.state("rho", c, rmin, r0, alpha)


def invalid(ctx, what):
    P = mod()
    c = arr([0.1, 0.2])
    bad = {
        "gamma 1": lambda: P.log_prior_gaussian_logsigma2(c, 0.0, gamma=1.0, sigma2_coverage=0.9),
        "gamma 0.5": lambda: P.log_prior_gaussian_logsigma2(c, 0.0, gamma=0.5, sigma2_coverage=0.9),
        "coverage 0": lambda: P.log_prior_gaussian_logsigma2(c, 0.0, gamma=2.0, sigma2_coverage=0.0),
        "coverage 1": lambda: P.log_prior_gaussian_logsigma2(c, 0.0, gamma=2.0, sigma2_coverage=1.0),
        "coverage 2": lambda: P.log_prior_gaussian_logsigma2(c, 0.0, gamma=2.0, sigma2_coverage=2.0),
        "alpha 0": lambda: P.log_prior_logrho_barrier_linear(c, arr([-1.0]), arr([0.0]), alpha=0.0),
        "alpha -1": lambda: P.neglog_f_logrho(arr([0.0]), arr([-1.0]), arr([0.0]), alpha=-1.0),
        "reference at barrier": lambda: P.neglog_f_logrho(arr([0.0]), arr([0.0]), arr([0.0]), alpha=1.0),
        "one reference below barrier": lambda: P.neglog_f_logrho(arr([0.0, 0.0]), arr([-1.0, 0.5]), arr([0.0, 0.0]), alpha=1.0),
    }
    ctx.raises(ValueError, bad[what], what)


INVALID = ["gamma 1", "gamma 0.5", "coverage 0", "coverage 1", "coverage 2", "alpha 0", "alpha -1",
           "reference at barrier", "one reference below barrier"]


def penalised(ctx, kernel, mean, d, sub, c, hyper):
    """Penalised criterion = restricted criterion - log priors."""
    P = mod()
    s = zoo.spec(kernel, mean, d, 0)
    X = zoo.grid(d)[list(sub)] if isinstance(sub, tuple) else zoo.spread(sub, d)
    z = zoo.zvec(len(X))
    base = ref.reml(z, s.K(X, c), s.P(X))
    mu, gamma, cov, alpha, shift = hyper
    rmin, r0 = [-2.0 - shift] * d, [0.3 + shift * j for j in range(d)]
    m, gx, gz, g = s.model(), arr(X), arr(z), arr(c)
    ps = ref.prior_logsigma2(c, mu, gamma, cov)
    pr = ref.prior_logrho(c, rmin, r0, alpha)
    tol = dict(rtol=1e-8, atol=1e-8)
    ctx.close(float(P.neg_log_restricted_posterior_with_jeffreys_prior(m, g, gx, gz)), base + c[0], "variance prior", **tol)
    ctx.close(float(P.neg_log_restricted_posterior_with_jeffreys_prior(m, g, gx, gz, lambda_var=alpha)), base + alpha * c[0],
              "variance prior, other exponent", **tol)
    ctx.close(float(P.neg_log_restricted_posterior_power_laws_prior(m, g, gx, gz)), base - ref.prior_power_law(c),
              "power-law prior", **tol)
    ctx.close(float(P.neg_log_restricted_posterior_logsigma2_prior(m, g, gx, gz, mu, gamma=gamma, sigma2_coverage=cov)),
              base - ps, "Gaussian prior", **tol)
    ctx.close(float(P.neg_log_restricted_posterior_with_logrho_prior(m, g, gx, gz, arr(rmin), arr(r0), alpha=alpha)),
              base - pr, "length-scale prior", **tol)
    ctx.close(float(P.neg_log_restricted_posterior_logsigma2_and_logrho_prior(
        m, g, gx, gz, mu, gamma=gamma, sigma2_coverage=cov, logrho_min=arr(rmin), logrho_0=arr(r0), alpha=alpha)),
        base - ps - pr, "both priors", **tol)
    ctx.raises(ValueError, lambda: P.neg_log_restricted_posterior_logsigma2_and_logrho_prior(
        m, g, gx, gz, mu, logrho_0=arr(r0)), "missing barrier")
    ctx.state("pen", kernel, mean, d, sub, c, hyper)


def reference_prior(ctx, kernel, d, sub, variant):
    """Half the log-determinant of the Fisher information."""
    P = mod()
    s = zoo.spec(kernel, "zero", d, variant)
    X = zoo.grid(d)[list(sub)]
    c = np.array(s.covparam)
    h = 1e-4
    dK = []
    for j in range(len(c)):
        e = np.zeros(len(c))
        e[j] = h
        dK.append((8 * (s.K(X, c + e) - s.K(X, c - e)) - (s.K(X, c + 2 * e) - s.K(X, c - 2 * e))) / (12 * h))
    F = ref.fisher(s.K(X, c), dK)
    want = 0.5 * np.linalg.slogdet(F)[1]
    m = s.model(covparam=list(c + 0.5))   # the argument, not the model's own, counts
    ctx.close(float(P.log_prior_reference(m, arr(c), arr(X))), want, "reference prior", rtol=1e-4, atol=1e-4)
    ctx.state("ref", kernel, d, sub, variant)


# -- store of defaults ----------------------------------------------------------------
GOOD = {"g2": {"gamma": 2.0}, "g3": {"gamma": 3}, "c5": {"sigma2_coverage": 0.5}, "a4": {"alpha": 4.0},
        "r1": {"rho_min_range_factor": 0.1}, "ga": {"gamma": 1.25, "alpha": 0.5}, "none": {},
        "all": {"gamma": 6.0, "sigma2_coverage": 0.8, "alpha": 2.0, "rho_min_range_factor": 0.3},
        "nn": {"gamma": None, "alpha": 9.0}}
BAD = {"g1": {"gamma": 1.0}, "gn": {"gamma": float("nan")}, "c0": {"sigma2_coverage": 0.0}, "c1": {"sigma2_coverage": 1.0},
       "a0": {"alpha": 0.0}, "r0": {"rho_min_range_factor": 0.0}, "an": {"alpha": float("nan")}, "rn": {"rho_min_range_factor": -2.0},
       "g4a-": {"gamma": 4.0, "alpha": -1.0}, "c7r-": {"sigma2_coverage": 0.7, "rho_min_range_factor": -1.0},
       "a8g-": {"alpha": 8.0, "gamma": 0.5}, "text": {"gamma": 7.0, "alpha": "x"}}
KW = {"gamma": "prior_logsigma2_gamma", "sigma2_coverage": "prior_logsigma2_coverage", "alpha": "prior_logrho_alpha",
      "rho_min_range_factor": "prior_logrho_min_range_factor"}


def used(ctx, model_state, msg):
    """Values actually used when hyperparameters are omitted."""
    from gpmp.kernel import prior_defaults as D
    from gpmp.kernel import prior_helpers as H
    P = mod()
    g, c, a, r = (model_state[k] for k in ("gamma", "sigma2_coverage", "alpha", "rho_min_range_factor"))
    X = np.array([[0.0, 2.0], [1.0, 2.5], [4.0, 9.0]])
    for xi in (None, X):
        ctx.equal(D.get_default_prior_hyperparameters(xi), model_state, msg)
    cp = [0.7, 0.2, -0.4]
    ctx.close(float(P.log_prior_gaussian_logsigma2(arr(cp), 0.1)), ref.prior_logsigma2(cp, 0.1, g, c), msg, rtol=1e-9)
    ctx.close(float(P.log_prior_gaussian_logsigma2(arr(cp), 0.1, gamma=11.0)), ref.prior_logsigma2(cp, 0.1, 11.0, c), msg, rtol=1e-9)
    ctx.close(float(P.log_prior_gaussian_logsigma2(arr(cp), 0.1, sigma2_coverage=0.33)), ref.prior_logsigma2(cp, 0.1, g, 0.33), msg, rtol=1e-9)
    rm, r0 = [-1.0, -2.0], [0.4, 0.1]
    ctx.close(float(P.log_prior_logrho_barrier_linear(arr(cp), arr(rm), arr(r0))), ref.prior_logrho(cp, rm, r0, a), msg, rtol=1e-9)
    ctx.close(float(P.log_prior_logrho_barrier_linear(arr(cp), arr(rm), arr(r0), alpha=13.0)), ref.prior_logrho(cp, rm, r0, 13.0), msg, rtol=1e-9)
    ctx.close(H.compute_logrho_min_from_xi(arr(X)), logrho_min(X, r), msg, rtol=1e-10, atol=1e-12)
    ctx.close(H.compute_logrho_min_from_xi(arr(X), 0.9), logrho_min(X, 0.9), msg, rtol=1e-10, atol=1e-12)
    ctx.equal(tuple(D.resolve_prior_defaults_for_selection(xi=X)), (g, c, a, r), msg)
    ctx.equal(tuple(D.resolve_prior_defaults_for_selection(xi=X, gamma=8.0, alpha=3.5)), (8.0, c, 3.5, r), msg)
    ctx.equal(tuple(D.resolve_prior_defaults_for_selection(sigma2_coverage=0.2, rho_min_range_factor=5.0)), (g, 0.2, a, 5.0), msg)


def store(ctx, hist):
    from gpmp.kernel import prior_defaults as D
    restore()
    try:
        cur = dict(BUILTIN)
        for k, op in enumerate(hist):
            ctx.step()
            form, name = op.split(":")
            vals = GOOD.get(name, BAD.get(name))
            msg = f"after {','.join(hist[:k + 1])}"
            if form == "set":
                call = lambda: D.set_default_prior_hyperparameters(**vals)  # noqa: E731
            else:
                kw = {KW[q]: v for q, v in vals.items()}
                kw["other"] = 1
                before = dict(kw)
                call = lambda: D.set_default_prior_hyperparameters_from_kwargs(kw)  # noqa: E731
            if form == "get":
                got = D.get_default_prior_hyperparameters()
                for q in got:
                    got[q] = -1.0           # the returned dictionary is the caller's
                ctx.count("comparisons")
            elif name in GOOD:
                call()
                cur.update({q: float(v) for q, v in vals.items() if v is not None})
                if form == "kw":
                    ctx.equal(kw, {"other": 1}, f"remaining keywords {msg}")
            else:
                ctx.raises(ValueError, call, f"rejected update {msg}")
                if form == "kw":
                    ctx.equal(set(kw), set(before), f"keywords of a rejected update {msg}")
            ctx.equal(D.get_default_prior_hyperparameters(), cur, f"defaults {msg}")
            ctx.state(cur)
        used(ctx, cur, f"values used after {','.join(hist)}")
    finally:
        restore()


# -- bounds from the design ---------------------------------------------------------------
def logrho_min(X, factor):
    out = []
    for col in np.asarray(X, float).T:
        v = sorted(set(col.tolist()))
        cand = [-math.inf]
        if len(v) > 1:
            cand.append(math.log(min(b - a for a, b in zip(v[:-1], v[1:]))))
            cand.append(math.log((v[-1] - v[0]) * factor))
        out.append(max(cand))
    return np.array(out)


def design(ctx, rows, factor):
    from gpmp.kernel import prior_helpers as H
    X = np.array(rows, float)
    g = arr(X)
    ctx.close(H.compute_logrho_min_from_xi(g, factor), logrho_min(X, factor), f"smallest length scale for {rows}",
              rtol=1e-12, atol=1e-12)
    ctx.ok(np.array_equal(to_np(g), X), "design modified")
    for bad in (0.0, -1.0):
        ctx.raises(ValueError, lambda: H.compute_logrho_min_from_xi(g, bad), f"factor {bad}")
    ctx.state("design", rows, factor)


# -- which argument wins ----------------------------------------------------------------
def roles(ctx, mode, shared, prior, init, model_has, source):
    from gpmp.kernel import prior_helpers as H
    import gpmp
    s = zoo.spec("matern1", "const", 1, 0)
    X, z = zoo.grid(1)[:4], zoo.zvec(4)
    m = s.model()
    own = [5.0, 5.5]
    m.covparam = arr(own) if model_has else None
    gx, gz = arr(X), arr(z)
    dl = gpmp.dataloader.DataLoader(gpmp.dataloader.Dataset(gx, gz), shuffle=False)
    data = dict(xi=gx, zi=gz) if source == "arrays" else dict(dataloader=dl)
    guess = to_np(gpmp.kernel.anisotropic_parameters_initial_guess(m, **data))
    v = {"covparam0": [1.0, 1.5], "covparam0_prior": [2.0, 2.5], "covparam0_init": [3.0, 3.5]}
    have = {"covparam0": shared, "covparam0_prior": prior, "covparam0_init": init}
    kw = {k: (arr(v[k]) if have[k] else None) for k in v}
    f = H.resolve_covparam0_prior_and_init if mode == "select" else H.resolve_covparam0_roles_for_update
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        p, i = f(m, **data, **kw)

    def want(own_key):
        if have[own_key]:
            return v[own_key]
        if shared:
            return v["covparam0"]
        if mode == "update" and model_has:
            return own
        return guess
    ctx.close(p, np.array(want("covparam0_prior")), "prior anchor", rtol=1e-10, atol=1e-10)
    ctx.close(i, np.array(want("covparam0_init")), "starting point", rtol=1e-10, atol=1e-10)
    if mode == "update":
        ctx.equal(bool(ws), (not prior) and (shared or model_has), "warning about the prior anchor")
    ctx.state(mode, have, model_has, source)


def prior_args(ctx, given, source):
    """Explicit prior arguments take precedence over values derived from the anchor, data and store."""
    from gpmp.kernel import prior_helpers as H
    import gpmp
    restore()
    X = np.array([[0.0, 2.0], [1.0, 2.5], [4.0, 9.0]])
    gx = arr(X)
    dl = gpmp.dataloader.DataLoader(gpmp.dataloader.Dataset([gx[:1], gx[1:]], [arr([1.0]), arr([2.0, 3.0])]), shuffle=False)
    anchor = [0.7, 0.3, -0.9]
    explicit = {"prior_gamma": 4.0, "prior_sigma2_coverage": 0.6, "prior_alpha": 3.0, "prior_rho_min_range_factor": 0.5,
                "prior_log_sigma2_0": -2.0, "prior_logrho_0": [1.0, 1.5], "prior_logrho_min": [-4.0, -5.0]}
    names = list(explicit)
    kw = {k: (arr(explicit[k]) if isinstance(explicit[k], list) else explicit[k]) for k, on in zip(names, given) if on}
    out = H.resolve_logsigma2_logrho_prior_args(covparam0_prior=arr(anchor), **(
        dict(xi=gx) if source == "arrays" else dict(dataloader=dl)), **kw)
    w = {"prior_gamma": 1.5, "prior_sigma2_coverage": 0.95, "prior_alpha": 1.0, "prior_rho_min_range_factor": 0.05,
         "prior_log_sigma2_0": 0.7, "prior_logrho_0": [-0.3, 0.9]}
    w["prior_logrho_min"] = logrho_min(X, 0.5 if given[3] else 0.05)
    for (k, on), got in zip(zip(names, given), out):
        ctx.close(to_np(got).astype(float), np.array(explicit[k] if on else w[k], float), f"{k} with {sorted(kw)} given",
                  rtol=1e-12, atol=1e-12)
    ctx.state(given, source)


def fresh(ctx, got):
    ctx.step()
    ctx.close([got[k] for k in BUILTIN], list(BUILTIN.values()), "defaults before any update")


def explore(ctx):
    from gpmp.kernel import prior_defaults as D
    T = ctx.thorough
    ctx.run("fresh", fresh, D.get_default_prior_hyperparameters())
    s2 = (-12.0, -1.0, 0.0, 0.5, 9.21, 9.3, 14.0)
    ls = (-15.0, -9.21, -9.0, 0.0, 2.0, 9.21, 9.5, 20.0)
    kws = ({}, dict(lv=2.5, pen=7.0), dict(cut_s=0.2, ll=0.5), dict(lo=-1.0, hi=1.0, ll=-0.3, pen=3.0), dict(lv=0.0, ll=1.0))
    for c0 in s2:
        for kw in kws:
            for a in ls:
                ctx.run(f"power:{c0},{a}:{kw}", power, (c0, a), kw)
                for b in ls if T else ls[::3]:
                    ctx.run(f"power:{c0},{a},{b}:{kw}", power, (c0, a, b), kw)
    for s, mu, g, cov in itertools.product((-5.0, -0.3, 0.0, 0.4, 8.0), (-1.0, 0.0, 0.4), (1.001, 1.1, 1.2, 1.5, 4.0, 1e3), (0.05, 0.5, 0.95, 0.999)):
        ctx.run(f"s2:{s}:{mu}:{g}:{cov}", logsigma2, s, mu, g, cov)
    for t, u in itertools.product((-3.0, -0.5, 0.0, 0.4, 1.0, 1.5, 2.0, 6.0), repeat=2):
        for rmin, r0 in (((-1.0, -2.0), (0.4, 0.5)), ((0.0, -1.5), (0.001, 3.0))):
            for alpha in (0.1, 1.0, 10.0):
                ctx.run(f"rho:{t},{u}:{rmin}:{r0}:{alpha}", logrho, [0.3, t, u], rmin, r0, alpha)
    for w in INVALID:
        ctx.run(f"invalid:{w}", invalid, w)
    hypers = [(0.2, 1.5, 0.95, 1.0, 0.0), (-1.0, 8.0, 0.5, 4.0, 0.3)]
    for kernel, mean, d in itertools.product(("matern0", "matern1", "matern2"), ("const", "lin"), (1, 2)):
        sub = (0, 1, 2, 3, 4) if d == 1 else (0, 2, 3, 5, 7, 8)
        for c0 in (-2.0, 0.5, 9.5):
            for inv in itertools.product((-0.3, 0.6, 1.9), repeat=d):
                for h in hypers:
                    ctx.run(f"pen:{kernel}:{mean}:{d}:{c0}:{inv}:{h}", penalised, kernel, mean, d, sub, (c0,) + inv, h)
    for d in (3, 5, 8):
        for k in range(12):
            c = tuple(6.0 * math.sin(1.0 + 3 * j + k * (j + 1)) for j in range(d + 1))
            for kw in kws:
                ctx.run(f"powerdim:{d}:{k}:{kw}", power, c, kw)
            for alpha in (0.1, 1.0, 10.0):
                rmin = tuple(-1.0 - 0.5 * math.cos(j + k) for j in range(d))
                r0 = tuple(0.5 + 0.4 * math.sin(2 * j + k) for j in range(d))
                ctx.run(f"rhodim:{d}:{k}:{alpha}", logrho, [0.3] + [0.2 * v for v in c[1:]], rmin, r0, alpha)
        for n in (20, 40, 65):
            for h in hypers:
                ctx.run(f"pendim:{d}:{n}:{h}", penalised, "matern1", "const", d, n, (0.4,) + tuple(-0.3 + 0.2 * j for j in range(d)), h)
            for factor in (0.05, 0.4):
                ctx.run(f"designdim:{d}:{n}:{factor}", design, zoo.spread(n, d) * (1.0 + np.arange(d)) - 5.0, factor)
    for kernel, d, v in itertools.product(("matern1", "matern2", "gauss"), (1, 2), (0, 1)):
        ctx.run(f"ref:{kernel}:{d}:{v}", reference_prior, kernel, d, (0, 2, 4) if d == 1 else (0, 2, 4, 7), v)
    ops = [f"{f}:{n}" for f in ("set", "kw") for n in list(GOOD) + list(BAD)] + ["get:none"]
    core = ["set:g2", "kw:a4", "set:g4a-", "kw:c7r-", "kw:ga", "set:r1", "set:c5", "kw:a8g-", "get:none"]
    for n in (1, 2):
        for h in itertools.product(ops, repeat=n):
            ctx.run(f"store:{','.join(h)}", store, h)
    for n in (3,) + ((4,) if T else ()):
        for h in itertools.product(core, repeat=n):
            ctx.run(f"store:{','.join(h)}", store, h)
    vals = (0.0, 0.5, 0.7, 3.0)
    for n in (1, 2, 3) + ((4,) if T else ()):
        for col in itertools.product(vals, repeat=n):
            rows = tuple((a, 10.0 - 2.0 * k * k) for k, a in enumerate(col))
            for factor in (0.05, 0.4, 2.0):
                ctx.run(f"design:{rows}:{factor}", design, rows, factor)
    for mode, a, b, c, d, src in itertools.product(("select", "update"), *[(False, True)] * 4, ("arrays", "loader")):
        ctx.run(f"roles:{mode}:{a}:{b}:{c}:{d}:{src}", roles, mode, a, b, c, d, src)
    for given in itertools.product((False, True), repeat=7):
        for src in ("arrays", "loader"):
            ctx.run(f"args:{given}:{src}", prior_args, given, src)
