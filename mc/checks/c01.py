"""C01 - prediction is exact Gaussian conditioning / best linear unbiased prediction.

Space: kernels x means x dimensions x parameter variants x every subset of a
lattice as design x target arrangements x call options x solver faults.
Prediction is affine in the observed values, so the weights plus the response
to a basis of observation vectors decide every observation vector.
"""

import itertools

import numpy as np

from mc import zoo
from mc.ctx import to_np

KERNELS = ["matern0", "matern1", "matern2", "matern4", "gauss", "noisy1", "noisy0", "swell1", "patchy1"]


def well_posed(s, xi):
    K = s.K(xi)
    if s.q:
        P = s.P(xi)
        if not zoo.rank_ok(P, s.q):
            return False
        W = np.linalg.svd(P.T)[2][s.q:].T
        if W.shape[1] and np.linalg.cond(W.T @ K @ W) > 1e7:
            return False
        return True
    return np.linalg.cond(K) < 1e7


def one(ctx, s, xi, xt, xt_kind):
    import gpmp.num as gnp
    model = s.model()
    n, m = len(xi), len(xt)
    gxi, gxt = gnp.asarray(xi.copy()), gnp.asarray(xt.copy())
    tol = dict(rtol=3e-6, atol=3e-6)
    _, var, lam, cov = s.predict(xi, np.zeros(n), xt)
    scale = 1.0 + np.max(np.abs(s.ktt(xt)))
    vtol = dict(rtol=3e-6, atol=3e-6 * scale)

    # every observation vector: zero, basis vectors, one generic vector
    zs = [np.zeros(n)] + [np.eye(n)[i] for i in range(n)] + [zoo.zvec(n)]
    for z in zs:
        want, _, _, _ = s.predict(xi, z, xt)
        zm, zv, lt = model.predict(xi, z, xt, return_lambdas=True, zero_neg_variances=False)
        ctx.close(zm, want, "posterior mean", **tol)
        ctx.close(zv, var, "posterior variance", **vtol)
        ctx.close(to_np(lt), lam, "kriging weights", **tol)
        ctx.ok(isinstance(zm, np.ndarray) and isinstance(zv, np.ndarray), "numpy output by default")
    z = zs[-1]
    want = s.predict(xi, z, xt)[0]

    # option combinations leave the values unchanged
    for shape2, cin, cout, lamb, clip in itertools.product([0, 1], [0, 1], [0, 1], [0, 1], [0, 1]):
        zz = z.reshape(-1, 1) if shape2 else z
        if cin:
            args = (xi, zz, xt)
        else:
            args = (gxi, gnp.asarray(zz), gxt)
        out = model.predict(*args, return_lambdas=bool(lamb), zero_neg_variances=bool(clip),
                            convert_in=bool(cin), convert_out=bool(cout))
        ctx.equal(len(out), 3 if lamb else 2, "number of outputs")
        ctx.close(out[0], want, "posterior mean under options", **tol)
        ctx.close(out[1], np.maximum(var, 0.0) if clip else var, "posterior variance under options",
                  **vtol)
        if clip:
            ctx.ok((to_np(out[1]) >= 0.0).all(), "clipped variances are nonnegative")
        ctx.ok(isinstance(out[0], np.ndarray) if cout else gnp.isarray(out[0]), "output array type")

    # weights / full covariance entry points
    fn = model.kriging_predictor if s.q else model.kriging_predictor_with_zero_mean
    for rt in (-1, 0, 1):
        lt, v = fn(gxi, gxt, rt)
        ctx.close(to_np(lt), lam, f"weights, return_type={rt}", **tol)
        if rt == -1:
            ctx.ok(v is None, "no variance when not requested")
        else:
            ctx.close(to_np(v), var if rt == 0 else cov, f"variance, return_type={rt}", **vtol)

    # targets one at a time give the same numbers as jointly
    if xt_kind != "single":
        for j in range(m):
            a, b = model.predict(xi, z, xt[j:j + 1], zero_neg_variances=False)
            ctx.close(a, want[j:j + 1], "target predicted alone (mean)", **tol)
            ctx.close(b, var[j:j + 1], "target predicted alone (variance)", **vtol)
    if s.noise is None and n:
        # interpolation at the design, equal copies and the very same array
        for same in (xi, xi.copy()):
            a, b = model.predict(xi, z, same)
            ctx.close(a, z, "interpolates the data", rtol=1e-5, atol=1e-5)
            ctx.close(b, np.zeros(n), "zero variance at the data", atol=1e-5 * scale)
    ctx.state(s.name, xi, xt_kind)


def permuted(ctx, s, xi, xt):
    """Every ordering of the design gives the same prediction."""
    z = zoo.zvec(len(xi))
    want, var, _, _ = s.predict(xi, z, xt)
    model = s.model()
    for perm in itertools.permutations(range(len(xi))):
        p = list(perm)
        a, b = model.predict(xi[p], z[p], xt, zero_neg_variances=False)
        ctx.close(a, want, f"mean, observation order {p}", rtol=3e-6, atol=3e-6)
        ctx.close(b, var, f"variance, observation order {p}", rtol=3e-6, atol=1e-5)
        ctx.state(s.name, xi[p])


def fallback(ctx, s, xi, xt, nfail):
    """The linear solver reports failure on its first `nfail` calls."""
    import gpmp.num as gnp
    model = s.model()
    n = len(xi)
    _, var, lam, cov = s.predict(xi, np.zeros(n), xt)
    scale = 1.0 + np.max(np.abs(s.ktt(xt)))
    real = gnp.solve
    gxi, gxt = gnp.asarray(xi), gnp.asarray(xt)
    for rt in (-1, 0, 1):
        left = [nfail]

        def failing(*a, **k):
            if left[0] > 0:
                left[0] -= 1
                raise np.linalg.LinAlgError("injected: singular matrix")
            return real(*a, **k)

        gnp.solve = failing
        try:
            lt, v = model.kriging_predictor(gxi, gxt, rt)
        finally:
            gnp.solve = real
        ctx.close(to_np(lt), lam, f"weights after solver failure, return_type={rt}", rtol=1e-5, atol=1e-5)
        if rt == -1:
            ctx.ok(v is None, "no variance when not requested")
        else:
            ctx.close(to_np(v), var if rt == 0 else cov,
                      f"variance after solver failure, return_type={rt}", rtol=1e-5, atol=1e-5 * scale)
        ctx.state("fallback", s.name, xi, rt, left[0])


def sized(ctx, s, n, m, gain, shift):
    """Larger data and target sets, values of every magnitude, far-away origins."""
    import gpmp.num as gnp
    xi = zoo.spread(n, s.d) + shift
    xt = zoo.spread(m, s.d, 0.137) * 1.1 + shift
    if m > 3:
        xt[m // 2] = xi[n // 3]
        xt[-1] = xt[0]
    z = zoo.zvec(n) * gain
    model = s.model()
    # the reference treats many targets in small groups
    g = m if m <= 130 else 25
    parts = [s.predict(xi, z, xt[a:a + g]) for a in range(0, m, g)]
    mean, var = np.concatenate([p[0] for p in parts]), np.concatenate([p[1] for p in parts])
    lam, cov = np.hstack([p[2] for p in parts]), parts[0][3]
    got = model.predict(xi, z, xt, return_lambdas=True, zero_neg_variances=False)
    size = np.max(np.abs(mean)) + gain
    ctx.close(got[0], mean, "posterior mean", rtol=1e-6, atol=1e-6 * size)
    ctx.close(got[1], var, "posterior variance", rtol=1e-6, atol=1e-6 * (1 + np.abs(var).max()))
    ctx.close(to_np(got[2]), lam, "kriging weights", rtol=1e-6, atol=1e-6)
    if m <= 130:
        fn = model.kriging_predictor if s.q else model.kriging_predictor_with_zero_mean
        _, v = fn(gnp.asarray(xi), gnp.asarray(xt), 1)
        ctx.close(to_np(v), cov, "posterior covariance", rtol=1e-6, atol=1e-6 * (1 + np.abs(cov).max()))
    ctx.step()
    ctx.state("sized", s.name, n, m, gain, shift)


def forms(ctx, s, kx):
    """Whole-number data in every kind of plain array."""
    xi = zoo.whole(6, s.d)
    xt = np.concatenate([xi[2:4], zoo.whole(6, s.d)[:3] + 1])
    z = np.array([3.0, -1.0, 4.0, 1.0, -5.0, 9.0])
    mean, var, lam, _ = s.predict(xi, z, xt)
    model = s.model()
    for kz, kt in itertools.product(zoo.FORMS + ("float",), repeat=2):
        for col in (False, True):
            args = zoo.form(xi, kx), zoo.form(z.reshape(-1, 1) if col else z, kz), zoo.form(xt, kt)
            m, v, w = model.predict(*args, return_lambdas=True, zero_neg_variances=False)
            ctx.step()
            ctx.close(m, mean, f"posterior mean from {kx}/{kz}/{kt} arrays", rtol=3e-6, atol=3e-6)
            ctx.close(v, var, f"posterior variance from {kx}/{kz}/{kt} arrays", rtol=3e-6, atol=1e-5)
            ctx.close(to_np(w), lam, f"weights from {kx}/{kz}/{kt} arrays", rtol=3e-6, atol=3e-6)
            ctx.ok(m.dtype == float and v.dtype == float, "double precision")
            for a, b in zip(args, (xi, z.reshape(-1, 1) if col else z, xt)):
                ctx.ok(np.array_equal(a, b), "arguments unchanged")
    ctx.state("forms", s.name, kx)


def params(ctx, s, kind):
    """Whole-number parameters in every form a user may give them, at construction or later."""
    import gpmp
    gnp = zoo.bk()
    xi, xt = zoo.spread(6, s.d), zoo.spread(9, s.d)
    z = np.cos(1.0 + 2.0 * np.arange(6))
    mean, var, lam, cov = s.predict(xi, z, xt)
    cp = zoo.given(s.covparam, kind)
    mp = None if s.meanparam is None else zoo.given(s.meanparam, kind)
    model = gpmp.core.Model(s.mean, s.cov, mp, cp, meantype=s.meantype)
    late = gpmp.core.Model(s.mean, s.cov, meantype=s.meantype)
    late.covparam, late.meanparam = cp, mp
    for which, m in (("given", model), ("assigned", late)):
        zm, zv, w = m.predict(xi, z, xt, return_lambdas=True, zero_neg_variances=False)
        ctx.close(zm, mean, f"posterior mean, {which} {kind} parameters", rtol=1e-6, atol=1e-7)
        ctx.close(zv, var, f"posterior variance, {which} {kind} parameters", rtol=1e-6, atol=1e-7)
        ctx.close(to_np(w), lam, f"weights, {which} {kind} parameters", rtol=1e-6, atol=1e-6)
        ctx.step()
    ctx.ok(all(float(a) == b for a, b in zip(cp, s.covparam)) and len(cp) == len(s.covparam), "given parameters unchanged")
    ctx.state("params", s.name, kind)


def units(ctx, s, u, v):
    """Changing the units of inputs and outputs changes the units of the prediction only."""
    xi, xt, z = zoo.spread(9, s.d), np.concatenate([zoo.spread(14, s.d)[9:], zoo.spread(9, s.d)[:2]]), zoo.zvec(9)
    mean, var, lam, cov = s.predict(xi, z, xt)
    t = zoo.in_units(s, u, v)
    model = t.model()
    r = np.sqrt(v)
    zm, zv, w = model.predict(xi * u, z * r, xt * u, return_lambdas=True, zero_neg_variances=False)
    ctx.step()
    ctx.close(zm / r, mean, "posterior mean in other units", rtol=1e-6, atol=1e-6)
    ctx.close(zv / v, var, "posterior variance in other units", rtol=1e-6, atol=1e-6 * np.exp(s.covparam[0]))
    ctx.close(to_np(w), lam, "weights in other units", rtol=1e-6, atol=1e-6)
    fn = model.kriging_predictor if s.q else model.kriging_predictor_with_zero_mean
    gnp = zoo.bk()
    _, c = fn(gnp.asarray(xi * u), gnp.asarray(xt * u), 1)
    ctx.close(to_np(c) / v, cov, "posterior covariance in other units", rtol=1e-6, atol=1e-6 * np.exp(s.covparam[0]))
    ctx.state("units", t.name)


def empty(ctx, s, n, m):
    """No data gives the prior law, no targets give empty answers."""
    import gpmp.num as gnp
    xi, xt = zoo.grid(s.d)[:n], zoo.targets(s.d)[:m]
    z = zoo.zvec(n) if n else np.zeros(0)
    model = s.model()
    mean, var = np.zeros(0), np.zeros(0)
    if m and s.meantype == "parameterized":
        mean = s.P(xt).reshape(-1)
    elif m:
        mean = np.zeros(m)
    if m:
        var = np.diag(s.ktt(xt)) if np.ndim(s.ktt(xt)) == 2 else s.ktt(xt)
    for cin, cout in itertools.product((True, False), repeat=2):
        a = (xi, z, xt) if cin else tuple(gnp.asarray(v) for v in (xi, z, xt))
        got = model.predict(*a, return_lambdas=True, convert_in=cin, convert_out=cout)
        ctx.step()
        ctx.close(to_np(got[0]), mean, "posterior mean", rtol=1e-9, atol=1e-9)
        ctx.close(to_np(got[1]), var, "posterior variance", rtol=1e-9, atol=1e-9)
        ctx.equal(tuple(got[2].shape), (n, m), "shape of the weights")
    ctx.state("empty", s.name, n, m)


def negative_clip(ctx, amount, clip):
    """A covariance whose diagonal is understated makes raw variances negative."""
    import gpmp
    import gpmp.num as gnp

    def cov(x, y, covparam, pairwise=False):
        k = zoo.matern(1)(x, y, covparam, pairwise)
        return k - amount if pairwise else k

    model = gpmp.core.Model(None, cov, None, gnp.asarray(np.array([0.0, 0.0])), meantype="zero")
    xi = np.array([[0.0], [1.0]])
    xt = np.array([[0.0], [0.5], [3.0]])
    _, v = model.predict(xi, np.array([1.0, 2.0]), xt, **({} if clip is None else {"zero_neg_variances": clip}))
    clip = clip is None or clip
    s = zoo.spec("matern1", "zero", 1)
    s.covparam = [0.0, 0.0]
    raw = s.predict(xi, np.zeros(2), xt)[1] - amount
    ctx.close(v, np.maximum(raw, 0.0) if clip else raw, "variance clipping", rtol=1e-6, atol=1e-7)
    ctx.state("clip", amount, clip)


def bad_shapes(ctx, what):
    import gpmp.num as gnp
    s = zoo.spec("matern1", "zero", 2)
    model = s.model()
    xi = zoo.grid(2)[:4]
    z = zoo.zvec(4)
    xt = zoo.targets(2)
    bad = {
        "xi1d": (xi[:, 0], z, xt),
        "zi_rows": (xi, z[:3], xt),
        "zi_cols": (xi, np.stack([z, z], 1), xt),
        "zi_3d": (xi, z.reshape(4, 1, 1), xt),
        "xt1d": (xi, z, xt[:, 0]),
        "xt_dim": (xi, z, xt[:, :1]),
    }[what]
    for cin in (True, False):
        a = bad if cin else tuple(gnp.asarray(b) for b in bad)
        ctx.raises(Exception, lambda: model.predict(*a, convert_in=cin), f"inconsistent shapes rejected ({what})")
    ctx.state("bad", what)


def explore(ctx):
    T = ctx.thorough
    # 1-D: every subset of the lattice
    variants = [0, 1, 2] if T else [0, 2]
    for kernel in KERNELS:
        for mean, _, _ in zoo.MEANS:
            for v in variants:
                s = zoo.spec(kernel, mean, 1, v)
                for c, xi in zoo.subsets(1, [1, 2, 3, 4, 5]):
                    if not T and v == 2 and len(c) not in (2, 4):
                        continue
                    if not well_posed(s, xi):
                        continue
                    ctx.run(f"1d:{s.name}:{c}", one, s, xi, zoo.targets(1), "all")
    # 2-D, 3-D, 4-D designs
    for d, sizes in ((2, [2, 4, 6]), (3, [5, 8]), (4, [7, 12])):
        for kernel in KERNELS:
            for mean, _, _ in zoo.MEANS:
                s = zoo.spec(kernel, mean, d, 1)
                g = zoo.grid(d)
                for n in sizes:
                    for c in zoo.progressions(len(g), n, (1, 2, 5, 7) if T else (1, 5), None if T else (0, 4)):
                        xi = g[list(c)]
                        if well_posed(s, xi):
                            ctx.run(f"{d}d:{s.name}:{c}", one, s, xi, zoo.targets(d), "all")
    # single targets
    for kernel in ("matern2", "noisy1", "swell1"):
        for mean in ("zero", "const", "par_affine"):
            s = zoo.spec(kernel, mean, 2, 0)
            xi = zoo.grid(2)[[0, 3, 5, 7]]
            for j in range(5):
                ctx.run(f"single:{s.name}:{j}", one, s, xi, zoo.targets(2)[j:j + 1], "single")
    # conditionally positive definite kernels
    for pw, means in ((1, ["const", "lin"]), (3, ["lin", "quad"])):
        for mean in means:
            for d in (1, 2):
                s = zoo.spec(f"intrinsic{pw}", mean, d, 0)
                for n in (4, 5):
                    g = zoo.grid(d)
                    for c in list(itertools.combinations(range(len(g)), n))[::1 if T else 7]:
                        xi = g[list(c)]
                        if n > s.q and well_posed(s, xi):
                            ctx.run(f"cpd:{s.name}:{c}", one, s, xi, zoo.targets(d), "all")
    # observation orders
    for kernel in ("matern1", "noisy1", "patchy0"):
        for mean in ("zero", "const", "lin", "basis", "par_affine"):
            s = zoo.spec(kernel, mean, 1, 0)
            for c, xi in zoo.subsets(1, [3, 4]):
                if well_posed(s, xi):
                    ctx.run(f"perm:{s.name}:{c}", permuted, s, xi, zoo.targets(1)[:3])
    # solver faults
    for kernel in ("matern1", "gauss", "noisy1", "intrinsic1", "swell2", "patchy1"):
        for mean in ("const", "lin", "quad", "basis"):
            for d in (1, 2):
                s = zoo.spec(kernel, mean, d, 0)
                g = zoo.grid(d)
                for n in (3, 5):
                    for c in list(itertools.combinations(range(len(g)), n))[::3 if T else 9]:
                        xi = g[list(c)]
                        if n > s.q and well_posed(s, xi):
                            ctx.run(f"fault:{s.name}:{c}", fallback, s, xi, zoo.targets(d), 1)
    # sizes, dimensions and magnitudes beyond the enumerated designs
    for kernel, mean in zoo.LARGE:
        for d in ((1, 2, 5, 8) if T else (1, 3, 6)):
            s = zoo.spec(kernel, mean, d, 1 if kernel == "gauss" or d == 1 else 0)
            for n in zoo.SIZES + ((200, 256, 257) if T else ()):
                for m in (1, n):
                    ctx.run(f"size:{s.name}:{n}:{m}", sized, s, n, m, 1.0, 0.0)
            for m in (127, 128, 129, 255, 256, 257, 500, 512, 513, 999, 1000, 1001, 1024, 1025):
                ctx.run(f"size:{s.name}:20:{m}", sized, s, 20, m, 1.0, 0.0)
            for gain in (1e-12, 1e-6, 1e3, 1e6, 1e9):
                ctx.run(f"gain:{s.name}:{gain}", sized, s, 24, 40, gain, 0.0)
            for shift in (-1e4, -30.0, 8.0, 30.0, 1e3) if mean in ("zero", "const") else (-3.0, 3.0) if mean == "quad" else (-30.0, 8.0, 30.0):
                ctx.run(f"shift:{s.name}:{shift}", sized, s, 24, 40, 1.0, shift)
    for kernel, mean in zoo.MEASURED:
        for d in (1, 2, 5):
            for u, v in zoo.UNITS:
                s = zoo.spec(kernel, mean, d, 1)
                ctx.run(f"units:{s.name}:{u}:{v}", units, s, u, v)
    for kernel in ("matern0", "matern1", "noisy1", "swell1", "patchy1"):
        for mean in ("zero", "const", "lin", "basis", "par_const", "par_affine"):
            for d in (1, 2, 3):
                s = zoo.rounded(kernel, mean, d)
                if well_posed(s, zoo.spread(6, d)):
                    for kind in zoo.GIVEN:
                        ctx.run(f"params:{s.name}:{kind}", params, s, kind)
    for kernel in ("matern0", "matern2", "noisy1"):
        for mean in ("zero", "const", "lin", "par_affine"):
            for d in (1, 2):
                s = zoo.spec(kernel, mean, d, 0)
                if well_posed(s, zoo.whole(6, d)):
                    for kx in zoo.FORMS + ("float",):
                        ctx.run(f"forms:{s.name}:{kx}", forms, s, kx)
    for kernel in KERNELS:
        for mean, _, _ in zoo.MEANS:
            for d in (1, 2):
                s = zoo.spec(kernel, mean, d, 0)
                for n in (3, 4, 5):
                    if n > s.q and well_posed(s, zoo.grid(d)[:n]):
                        ctx.run(f"empty:{s.name}:{n}:0", empty, s, n, 0)
                if not s.q:
                    for m in (1, 2, 5):
                        ctx.run(f"empty:{s.name}:0:{m}", empty, s, 0, m)
    for amount in (0.0, 0.05, 2.0):
        for clip in (True, False, None):
            ctx.run(f"clip:{amount}:{clip}", negative_clip, amount, clip)
    for what in ("xi1d", "zi_rows", "zi_cols", "zi_3d", "xt1d", "xt_dim"):
        ctx.run(f"shape:{what}", bad_shapes, what)
