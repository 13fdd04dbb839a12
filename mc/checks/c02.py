"""C02 - calls are pure: arguments unchanged, no influence on later results.

State = (current parameters of each model).  All operation histories up to a
depth are executed on live models; each result is compared with the result of
the same operation on a freshly built model holding the same parameters, every
argument is compared bit for bit with a pristine copy, and results returned
earlier must not change afterwards.
"""

import itertools

import numpy as np

from mc import zoo
from mc.ctx import to_np
from mc.scripted import Normals, patched


class World:
    def __init__(self, mean, d=1):
        import gpmp.num as gnp
        self.gnp = gnp
        self.s = zoo.spec("matern1", mean, d, 0)
        self.s2 = zoo.spec("matern3", mean, d, 1)
        g = zoo.grid(d)
        self.idx = [0, 2, 3, 4]
        self.np = {
            "xi": g[:4].copy() if d == 1 else g[[0, 2, 4, 5, 7]].copy(),
            "xt": zoo.targets(d)[:3].copy(),
            "cpA": np.array(self.s.covparam),
            "cpB": np.array(self.s.covparam) + 0.4,
            "mp": np.array([0.3, -0.8]),
        }
        self.np["zi"] = zoo.zvec(len(self.np["xi"]))
        self.np["z2"] = self.np["zi"].reshape(-1, 1).copy()
        allx = np.vstack([self.np["xi"], self.np["xt"]])
        self.np["allx"] = allx
        self.np["sim"] = np.sin(np.arange(allx.shape[0] * 2.0)).reshape(-1, 2)
        self.g = {k: gnp.asarray(v.copy()) for k, v in self.np.items()}
        self.pristine = {k: v.copy() for k, v in self.np.items()}
        # two live models sharing the data
        self.models = [self.s.model(), self.s2.model()]
        self.params = [np.array(self.s.covparam), np.array(self.s2.covparam)]

    def fresh(self, j):
        s = (self.s, self.s2)[j]
        return s.model(self.params[j])

    def check_arguments(self, ctx, hist):
        for k, v in self.pristine.items():
            ctx.ok(np.array_equal(self.np[k], v), f"plain argument {k} modified by {hist}")
            ctx.ok(np.array_equal(to_np(self.g[k]), v), f"backend argument {k} modified by {hist}")
        for j in (0, 1):
            cur = to_np(self.models[j].covparam)
            ctx.ok(np.array_equal(cur, self.params[j]), f"parameters of model {j} modified by {hist}")


def ops_for(mean):
    """name -> function(world, model, j) -> tuple of results."""
    ni = 4

    def predict(w, m, j):
        return m.predict(w.np["xi"], w.np["zi"], w.np["xt"], return_lambdas=True)

    def predict_backend(w, m, j):
        return m.predict(w.g["xi"], w.g["zi"], w.g["xt"], convert_in=False, convert_out=False)

    def predict_same(w, m, j):
        return m.predict(w.g["xi"], w.g["z2"], w.g["xi"], zero_neg_variances=False)

    def loo(w, m, j):
        return m.loo(w.g["xi"], w.g["zi"])

    def crit(w, m, j):
        if mean == "zero":
            return (m.negative_log_likelihood_zero_mean(w.g["cpB"], w.g["xi"], w.g["zi"]),
                    m.norm_k_sqrd_with_zero_mean(w.g["xi"], w.g["z2"], w.g["cpA"]),
                    *m.k_inverses(w.g["xi"], w.g["zi"], w.g["cpB"]))
        if mean.startswith("par"):
            return (m.negative_log_likelihood(w.g["mp"], w.g["cpB"], w.g["xi"], w.g["zi"]),)
        return (m.negative_log_restricted_likelihood(w.g["cpB"], w.g["xi"], w.g["zi"]),
                m.norm_k_sqrd(w.g["xi"], w.g["z2"], w.g["cpA"]))

    def fisher(w, m, j):
        return (m.fisher_information(w.g["xi"], covparam=w.g["cpB"]), m.fisher_information_cpd(w.g["xi"]))

    def sample(w, m, j):
        with patched(randn=Normals(np.cos(np.arange(40.0)))):
            return (m.sample_paths(w.g["allx"], 2), m.sample_paths(w.np["allx"], 1, method="svd"))

    def condition(w, m, j):
        n = len(w.np["xi"])
        _, _, lam = m.predict(w.np["xi"], w.np["zi"], w.np["xt"], return_lambdas=True)
        ii, it = np.arange(n), n + np.arange(3)
        if mean.startswith("par"):
            return (m.conditional_sample_paths_parameterized_mean(
                w.g["sim"], w.g["xi"], ii, w.g["zi"], w.g["xt"], it, lam),)
        return (m.conditional_sample_paths(w.g["sim"], ii, w.g["z2"], it, lam),)

    def weights(w, m, j):
        f = m.kriging_predictor if mean in ("const", "lin", "quad") else m.kriging_predictor_with_zero_mean
        return f(w.g["xi"], w.g["xt"], 1)

    def value_grad(w, m, j):
        import gpmp
        if mean == "zero":
            c = gpmp.kernel.negative_log_likelihood_zero_mean
        elif mean.startswith("par"):
            return (m.negative_log_likelihood(w.g["mp"], w.g["cpA"], w.g["xi"], w.g["zi"]),)
        else:
            c = gpmp.kernel.negative_log_restricted_likelihood
        ev, pre, nog, gr = gpmp.kernel.make_selection_criterion_with_gradient(m, c, w.g["xi"], w.g["zi"])
        a = pre(w.np["cpB"])
        b = gr(w.np["cpB"]) if gr is not None else np.zeros(2)
        return (float(a), b, float(nog(w.g["cpA"])))

    return {
        "predict": predict, "predict_backend": predict_backend, "predict_same": predict_same, "loo": loo,
        "crit": crit, "fisher": fisher, "sample": sample, "condition": condition, "weights": weights,
        "value_grad": value_grad,
    }


EXPECTED = {}


def expected(w, mean, name, j, ops):
    key = (mean, w.s.d, name, j, w.params[j].tobytes())
    if key not in EXPECTED:
        out = ops[name](World(mean, w.s.d), w.fresh(j), j)
        EXPECTED[key] = [to_np(o).copy() for o in out if o is not None]
    return EXPECTED[key]


def history(ctx, mean, d, hist):
    w = World(mean, d)
    ops = ops_for(mean)
    kept = []
    for k, op in enumerate(hist):
        ctx.step()
        if op.startswith("set"):
            j = int(op[4])
            shift = {"A": 0.0, "B": 0.4, "C": -0.3}[op[3]]
            w.params[j] = np.array((w.s, w.s2)[j].covparam) + shift
            w.models[j].covparam = w.gnp.asarray(w.params[j].copy())
        elif op == "scribble":
            # the caller overwrites everything it was given
            for out, _ in kept:
                a = out.detach().numpy() if hasattr(out, "detach") else out
                if isinstance(a, np.ndarray) and a.flags.writeable:
                    a[...] = -7.25
            kept = []
        elif op == "clear":
            from gpmp import config
            config.clear_caches()
        else:
            name, j = op[:-1], int(op[-1])
            want = expected(w, mean, name, j, ops)
            out = [o for o in ops[name](w, w.models[j], j) if o is not None]
            ctx.equal(len(out), len(want), f"{op} number of outputs")
            for o, v in zip(out, want):
                ctx.close(to_np(o), v, f"{op} after {hist[:k]} differs from a fresh model", rtol=1e-11, atol=1e-12)
            kept.extend((o, to_np(o).copy()) for o in out)
        w.check_arguments(ctx, hist[:k + 1])
        for o, v in kept:
            ctx.ok(np.array_equal(to_np(o), v, equal_nan=True), f"an earlier result changed during {hist[:k + 1]}")
        ctx.state(mean, d, tuple(p.tobytes() for p in w.params), op)


def fits(ctx, mean, d, hist):
    """Fitting procedures: arguments untouched, model then behaves like a fresh one."""
    import gpmp
    w = World(mean, d)
    gnp = w.gnp
    kern = gpmp.kernel
    ops = ops_for(mean)
    x0 = {"p0": np.array(w.s.covparam) - 0.2}
    p0 = x0["p0"].copy()
    gp0 = gnp.asarray(p0.copy())
    for k, op in enumerate(hist):
        ctx.step()
        m = w.models[0]
        if op == "guess":
            g = kern.anisotropic_parameters_initial_guess(m, w.g["xi"], w.g["zi"])
            ctx.ok(np.isfinite(to_np(g)).all(), "finite initial guess")
        elif op == "reml":
            kern.select_parameters_with_reml(m, w.g["xi"], w.g["zi"], covparam0=gp0, info=True)
            w.params[0] = to_np(m.covparam).copy()
        elif op == "reml_np":
            kern.select_parameters_with_reml(m, w.np["xi"], w.np["zi"])
            w.params[0] = to_np(m.covparam).copy()
        elif op == "update":
            kern.update_parameters_with_reml(m, w.g["xi"], w.g["zi"], info=True)
            w.params[0] = to_np(m.covparam).copy()
        elif op == "remap":
            kern.select_parameters_with_remap_gaussian_logsigma2(m, w.g["xi"], w.g["zi"], covparam0=gp0)
            w.params[0] = to_np(m.covparam).copy()
        else:
            name, j = op[:-1], int(op[-1])
            want = expected(w, mean, name, j, ops)
            out = [o for o in ops[name](w, w.models[j], j) if o is not None]
            for o, v in zip(out, want):
                ctx.close(to_np(o), v, f"{op} after {hist[:k]} differs from a fresh model", rtol=1e-9, atol=1e-10)
        w.check_arguments(ctx, hist[:k + 1])
        ctx.ok(np.array_equal(to_np(gp0), x0["p0"]), f"starting point modified by {hist[:k + 1]}")
        ctx.ok(not getattr(gp0, "requires_grad", False), "starting point switched to gradient tracking")
        ctx.state("fit", mean, d, op, np.round(w.params[0], 6).tobytes())


def explore(ctx):
    T = ctx.thorough
    base = ["predict", "predict_backend", "predict_same", "loo", "crit", "fisher", "sample", "condition", "weights", "value_grad"]
    for mean in ("zero", "const", "lin", "par_affine"):
        one = [b + "0" for b in base] + ["setB0", "scribble"]
        two = [b + "1" for b in base[:5]] + ["setC1", "clear"]
        for d in (1, 2):
            if d == 2 and mean != "lin":
                continue
            for n in (1, 2):
                for h in itertools.product(one + two, repeat=n):
                    ctx.run(f"h:{mean}:{d}:{','.join(h)}", history, mean, d, h)
            short = ["predict0", "predict_backend0", "loo0", "crit0", "fisher0", "sample0", "value_grad0", "setB0", "scribble", "predict1"]
            if d == 1:
                for h in itertools.product(short if not T else one, repeat=3):
                    ctx.run(f"h:{mean}:{d}:{','.join(h)}", history, mean, d, h)
        if mean in ("const", "lin"):
            fo = ["guess", "reml", "reml_np", "update", "remap", "predict0", "loo0", "predict1"]
            for n in (1, 2) + ((3,) if T else ()):
                for h in itertools.product(fo, repeat=n):
                    ctx.run(f"fit:{mean}:{','.join(h)}", fits, mean, 1, h)
