"""C05 - Fisher information matrices equal the trace formula."""

import itertools

import numpy as np
import scipy.linalg as sla

from mc import ref, zoo
from mc.ctx import to_np
from mc.checks.c01 import well_posed


def dcov(s, xi, cp, h=1e-4):
    """Derivatives of the reference covariance, fourth-order differences."""
    out = []
    for i in range(len(cp)):
        def K(t):
            c = list(cp)
            c[i] += t
            return s.K(xi, c)
        out.append((8 * (K(h) - K(-h)) - (K(2 * h) - K(-2 * h))) / (12 * h))
    return out


def one(ctx, s, xi):
    import gpmp.num as gnp
    model = s.model()
    gxi = gnp.asarray(xi)
    for shift in (None, 0.5, -0.4):
        cp = list(s.covparam) if shift is None else [c + shift for c in s.covparam]
        K = s.K(xi, cp)
        if np.linalg.cond(K) > 1e5:
            continue
        dK = dcov(s, xi, cp)
        arg = None if shift is None else gnp.asarray(np.array(cp))
        want = ref.fisher(K, dK)
        got = to_np(model.fisher_information(gxi, covparam=arg))
        ctx.close(got, want, "Fisher information", rtol=1e-3, atol=1e-4)
        ctx.ok((got == got.T).all(), "symmetric matrix")
        ctx.ok(np.linalg.eigvalsh(got).min() > -1e-6 * max(1.0, np.abs(got).max()), "nonnegative definite")
        if s.q:
            W = sla.null_space(s.P(xi).T)
            G = W.T @ K @ W
            want = ref.fisher(G, [W.T @ D @ W for D in dK])
        got = to_np(model.fisher_information_cpd(gxi, covparam=arg))
        ctx.close(got, want, "Fisher information (contrasts)", rtol=1e-3, atol=1e-4)
        ctx.ok((got == got.T).all(), "symmetric matrix (contrasts)")
        for eps in (1e-2, 1e-4):
            got = to_np(model.fisher_information(gxi, covparam=arg, epsilon=eps))
            ctx.close(got, ref.fisher(K, dK), f"Fisher information, step {eps}", rtol=2e-2, atol=2e-3)
            got = to_np(model.fisher_information_cpd(gxi, covparam=arg, epsilon=eps))
            ctx.close(got, want, f"Fisher information (contrasts), step {eps}", rtol=2e-2, atol=2e-3)
        ctx.close(to_np(model.covparam), np.array(s.covparam), "model parameters untouched", rtol=0, atol=0)
        ctx.state(s.name, xi, shift)


def units(ctx, s, u, v):
    """The information on logarithms of scales does not depend on the units."""
    xi = zoo.spread(9, s.d)
    K, dK = s.K(xi), dcov(s, xi, list(s.covparam))
    W = sla.null_space(s.P(xi).T) if s.q else np.eye(len(xi))
    t = zoo.in_units(s, u, v)
    model = t.model()
    ctx.close(to_np(model.fisher_information(xi * u)), ref.fisher(K, dK), "Fisher information in other units", rtol=1e-3, atol=1e-4)
    ctx.close(to_np(model.fisher_information_cpd(xi * u)), ref.fisher(W.T @ K @ W, [W.T @ D @ W for D in dK]),
              "Fisher information (contrasts) in other units", rtol=1e-3, atol=1e-4)
    ctx.state("units", t.name)


def params(ctx, s, kind):
    """Whole-number parameters in every form a user may give them."""
    import gpmp
    xi = zoo.spread(6, s.d)
    K, dK = s.K(xi), dcov(s, xi, list(s.covparam))
    W = sla.null_space(s.P(xi).T) if s.q else np.eye(len(xi))
    mean = None if s.meanparam is None else zoo.given(s.meanparam, kind)
    model = gpmp.core.Model(s.mean, s.cov, mean, zoo.given(s.covparam, kind), meantype=s.meantype)
    for arg in (None, zoo.given(s.covparam, kind)):
        for x in (xi, zoo.bk().asarray(xi)):
            ctx.close(to_np(model.fisher_information(x, covparam=arg)), ref.fisher(K, dK), f"Fisher information, {kind} parameters", rtol=1e-3, atol=1e-4)
            ctx.close(to_np(model.fisher_information_cpd(x, covparam=arg)), ref.fisher(W.T @ K @ W, [W.T @ D @ W for D in dK]),
                      f"Fisher information (contrasts), {kind} parameters", rtol=1e-3, atol=1e-4)
    ctx.state("params", s.name, kind)


def explore(ctx):
    T = ctx.thorough
    for kernel in ("matern0", "matern1", "matern2", "noisy1", "gauss", "swell1", "patchy1"):
        for mean, _, _ in zoo.MEANS:
            for v in (0, 1, 2):
                s = zoo.spec(kernel, mean, 1, v)
                for c, xi in zoo.subsets(1, [1, 2, 3, 4, 5] if T else [2, 3, 5]):
                    if len(xi) > s.q and well_posed(s, xi) and np.linalg.cond(s.K(xi)) < 1e5:
                        ctx.run(f"1d:{s.name}:{c}", one, s, xi)
            for d, n in ((2, 6), (3, 7), (4, 8)):
                s = zoo.spec(kernel, mean, d, 1)
                g = zoo.grid(d)
                for c in zoo.progressions(len(g), n, (1, 2, 5) if T else (1, 5), None if T else (0, 4)):
                    if n > s.q and well_posed(s, g[list(c)]):
                        ctx.run(f"{d}d:{s.name}:{c}", one, s, g[list(c)])
    for kernel, mean in zoo.LARGE:
        for d in (1, 3, 6):
            s = zoo.spec(kernel, mean, d, 1 if kernel == "gauss" or d == 1 else 0)
            for n in (13, 20, 33, 64, 65, 100) if not T else (13, 16, 17, 20, 31, 32, 33, 50, 64, 65, 100, 128, 129):
                if kernel != "intrinsic1":
                    ctx.run(f"size:{s.name}:{n}", one, s, zoo.spread(n, d))
    for kernel, mean, d, kind in itertools.product(("matern0", "matern1", "noisy1", "swell1"), ("zero", "const", "lin", "basis", "par_affine"), (1, 2), zoo.GIVEN):
        s = zoo.rounded(kernel, mean, d)
        ctx.run(f"params:{s.name}:{kind}", params, s, kind)
    for kernel, mean in zoo.MEASURED:
        for d in (1, 2, 5):
            for u, v in zoo.UNITS:
                s = zoo.spec(kernel, mean, d, 1)
                ctx.run(f"units:{s.name}:{u}:{v}", units, s, u, v)
