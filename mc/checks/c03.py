"""C03 - leave-one-out equals deleting each observation and predicting it."""

import itertools

import numpy as np

from mc import zoo
from mc.ctx import to_np
from mc.checks.c01 import well_posed, KERNELS


def loo_posed(s, xi):
    n = len(xi)
    if n < max(2, s.q + 1) or not well_posed(s, xi):
        return False
    return all(well_posed(s, np.delete(xi, i, 0)) for i in range(n))


def brute(s, xi, z):
    n = len(xi)
    m, v = np.zeros(n), np.zeros(n)
    for i in range(n):
        a, b, _, _ = s.predict(np.delete(xi, i, 0), np.delete(z, i), xi[i:i + 1])
        m[i], v[i] = a[0], b[0]
    return m, v, z - m


def one(ctx, s, xi):
    import gpmp.num as gnp
    model = s.model()
    n = len(xi)
    scale = 1.0 + np.max(np.abs(s.K(xi)))
    tol = dict(rtol=1e-5, atol=1e-5)
    zs = [np.zeros(n)] + [np.eye(n)[i] for i in range(n)] + [zoo.zvec(n), 50.0 + zoo.zvec(n, 3)]
    for z in zs:
        m, v, e = brute(s, xi, z)
        zl, sl, el = model.loo(xi, z)
        ctx.close(to_np(zl), m, "leave-one-out predictions", **tol)
        ctx.close(to_np(sl), v, "leave-one-out variances", rtol=1e-5, atol=1e-5 * scale)
        ctx.close(to_np(el), e, "leave-one-out errors", **tol)
    z = zs[-2]
    m, v, e = brute(s, xi, z)
    for shape2, cin, cout in itertools.product([0, 1], repeat=3):
        zz = z.reshape(-1, 1) if shape2 else z
        args = (xi, zz) if cin else (gnp.asarray(xi), gnp.asarray(zz))
        out = model.loo(*args, convert_in=bool(cin), convert_out=bool(cout))
        for got, want, what in zip(out, (m, v, e), ("predictions", "variances", "errors")):
            ctx.close(to_np(got), want, f"{what} under options", rtol=1e-5, atol=1e-5 * scale)
            ctx.ok(isinstance(got, np.ndarray) if cout else gnp.isarray(got), "output array type")
    # agreement with the library's own prediction on the reduced data
    for i in range(n):
        a, b = model.predict(np.delete(xi, i, 0), np.delete(z, i), xi[i:i + 1], zero_neg_variances=False)
        ctx.close(a, m[i:i + 1], "prediction on reduced data (mean)", **tol)
        ctx.close(b, v[i:i + 1], "prediction on reduced data (variance)", rtol=1e-5, atol=1e-5 * scale)
    # equivariance: reordering the data reorders the results
    p = list(range(n))[::-1]
    zl, sl, el = model.loo(xi[p], z[p])
    ctx.close(to_np(zl), m[p], "predictions after reordering", **tol)
    ctx.close(to_np(sl), v[p], "variances after reordering", rtol=1e-5, atol=1e-5 * scale)
    ctx.state(s.name, xi)


def sized(ctx, s, n, gain, shift):
    """Larger data sets; the deleted-point problems share one inverse in the reference."""
    xi = zoo.spread(n, s.d) + shift
    z = zoo.zvec(n) * gain
    K = s.K(xi)
    if s.q:
        P = s.P(xi)
        W = np.linalg.svd(P.T)[2][s.q:].T
        Q = W @ np.linalg.solve(W.T @ K @ W, W.T)
        r = z
    else:
        Q = np.linalg.inv(K)
        r = z - s.P(xi).reshape(-1) if s.meantype == "parameterized" else z
    e = (Q @ r) / np.diag(Q)
    for i in (0, n // 2, n - 1):    # the closed form agrees with deleting the point
        a, b, _, _ = s.predict(np.delete(xi, i, 0), np.delete(z, i), xi[i:i + 1])
        ctx.close([z[i] - e[i], 1 / Q[i, i]], [a[0], b[0]], "reference", rtol=1e-6, atol=1e-6 * gain)
    zl, sl, el = s.model().loo(xi, z)
    ctx.step()
    ctx.close(to_np(el), e, "leave-one-out errors", rtol=1e-6, atol=1e-6 * gain)
    ctx.close(to_np(zl), z - e, "leave-one-out predictions", rtol=1e-6, atol=1e-6 * gain)
    ctx.close(to_np(sl), 1 / np.diag(Q), "leave-one-out variances", rtol=1e-6, atol=1e-6)
    ctx.state("sized", s.name, n, gain, shift)


def units(ctx, s, u, v):
    """Changing the units of inputs and outputs changes the units of the results only."""
    xi, z = zoo.spread(9, s.d), zoo.zvec(9)
    want = brute(s, xi, z)
    t = zoo.in_units(s, u, v)
    r = np.sqrt(v)
    out = t.model().loo(xi * u, z * r)
    ctx.step()
    for got, w, unit, what in zip(out, want, (r, v, r), ("predictions", "variances", "errors")):
        ctx.close(to_np(got) / unit, w, f"{what} in other units", rtol=1e-6, atol=1e-6)
    ctx.state("units", t.name)


def forms(ctx, s):
    """Whole-number data in every kind of plain array."""
    xi = zoo.whole(7, s.d)
    z = np.array([3.0, -1.0, 4.0, 1.0, -5.0, 9.0, 2.0])
    want = brute(s, xi, z)
    model = s.model()
    for kx, kz in itertools.product(zoo.FORMS + ("float",), repeat=2):
        for col in (False, True):
            out = model.loo(zoo.form(xi, kx), zoo.form(z.reshape(-1, 1) if col else z, kz))
            ctx.step()
            for got, w, what in zip(out, want, ("predictions", "variances", "errors")):
                ctx.close(to_np(got), w, f"{what} from {kx}/{kz} arrays", rtol=1e-5, atol=1e-5)
    ctx.state("forms", s.name)


def explore(ctx):
    T = ctx.thorough
    for kernel in KERNELS:
        for mean, _, _ in zoo.MEANS:
            for v in ((0, 1, 2) if T else (0, 2)):
                s = zoo.spec(kernel, mean, 1, v)
                for c, xi in zoo.subsets(1, [2, 3, 4, 5]):
                    if loo_posed(s, xi):
                        ctx.run(f"1d:{s.name}:{c}", one, s, xi)
            for d, sizes in ((2, [3, 5, 6, 7]), (3, [6, 9]), (4, [8, 12])):
                s = zoo.spec(kernel, mean, d, 1)
                g = zoo.grid(d)
                for n in sizes:
                    for c in zoo.progressions(len(g), n, (1, 2, 5, 7) if T else (1, 5), None if T else (0, 1, 4)):
                        if loo_posed(s, g[list(c)]):
                            ctx.run(f"{d}d:{s.name}:{c}", one, s, g[list(c)])
    for pw, means in ((1, ["const", "lin"]), (3, ["lin", "quad"])):
        for mean in means:
            for d in (1, 2):
                s = zoo.spec(f"intrinsic{pw}", mean, d, 0)
                g = zoo.grid(d)
                for n in (4, 5):
                    for c in list(itertools.combinations(range(len(g)), n))[::1 if T else 5]:
                        if n > s.q + 1 and loo_posed(s, g[list(c)]):
                            ctx.run(f"cpd:{s.name}:{c}", one, s, g[list(c)])
    for kernel, mean in zoo.LARGE:
        for d in ((1, 2, 5, 8) if T else (1, 3, 6)):
            s = zoo.spec(kernel, mean, d, 1 if kernel == "gauss" or d == 1 else 0)
            for n in (zoo.SIZES if not T else tuple(range(13, 66)) + (100, 128, 129, 200, 256, 257, 500)):
                ctx.run(f"size:{s.name}:{n}", sized, s, n, 1.0, 0.0)
            for gain in (1e-12, 1e-6, 1e3, 1e6, 1e9):
                ctx.run(f"gain:{s.name}:{gain}", sized, s, 24, gain, 0.0)
            for shift in (-1e4, -30.0, 8.0, 30.0, 1e3) if mean in ("zero", "const") else (-3.0, 3.0) if mean == "quad" else (-30.0, 8.0, 30.0):
                ctx.run(f"shift:{s.name}:{shift}", sized, s, 24, 1.0, shift)
    for kernel in ("matern0", "matern2", "noisy1"):
        for mean in ("zero", "const", "lin", "basis", "par_affine"):
            for d in (1, 2):
                s = zoo.spec(kernel, mean, d, 0)
                if loo_posed(s, zoo.whole(7, d)):
                    ctx.run(f"forms:{s.name}", forms, s)
    for kernel, mean in zoo.MEASURED:
        for d in (1, 2, 5):
            for u, v in zoo.UNITS:
                s = zoo.spec(kernel, mean, d, 1)
                ctx.run(f"units:{s.name}:{u}:{v}", units, s, u, v)
