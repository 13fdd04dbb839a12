"""C11 - anisotropic initial guesses and empirical bounds follow the data.

Every subset (with repetition of coordinates) of small lattices, every batch
layout and every coordinate permutation is compared with a direct evaluation.
"""

import itertools
import math

import numpy as np
import scipy.linalg as sla

from mc import zoo
from mc.ctx import to_np
from mc.checks.c13 import compositions


def factor(d):
    # radius such that the ball of that radius has the volume of the unit cube
    return math.gamma(d / 2 + 1) ** (1 / d) / math.sqrt(math.pi)


def sq(s, X, z, c):
    """Squared norm of the data, modulo the unknown trend."""
    K = s.K(X, c)
    if s.q:
        W = sla.null_space(s.P(X).T)
        u = W.T @ z
        return float(u @ np.linalg.solve(W.T @ K @ W, u))
    return float(z @ np.linalg.solve(K, z))


def reference(s, X, z, batches=None, trend=True):
    """(mean, [log variance, log inverse length scales]) from first principles."""
    rho = factor(X.shape[1]) * (X.max(0) - X.min(0))
    c = np.concatenate(([0.0], -np.log(rho)))
    v = m = 0.0
    for b in batches or [list(range(len(X)))]:
        x, y = X[b], z[b]
        K = s.K(x, c)
        one = np.ones(len(b))
        q = sq(s, x, y, c) if trend else float(y @ np.linalg.solve(K, y))
        v += q / len(b) * len(b) / len(X)
        m += (one @ np.linalg.solve(K, y)) / (one @ np.linalg.solve(K, one)) * len(b) / len(X)
    return m, np.concatenate(([math.log(v)], c[1:])), c


def funcs():
    import gpmp
    k = gpmp.kernel
    return (k.anisotropic_parameters_initial_guess_zero_mean, k.anisotropic_parameters_initial_guess_constant_mean,
            k.anisotropic_parameters_initial_guess)


def well(s, X, c, batches=None):
    for b in batches or [list(range(len(X)))]:
        if len(b) <= s.q or np.linalg.cond(s.K(X[b], c)) > 1e8 or (s.q and not zoo.rank_ok(s.P(X[b]), s.q)):
            return False
    return True


def compare(ctx, s, X, z, call, batches, msg, tol=1e-7):
    zero, const, gen = funcs()
    m, g0, c = reference(s, X, z, batches, trend=False)
    model = s.model()
    own = to_np(model.covparam).copy()
    ctx.close(call(zero, model), g0, f"zero-mean guess {msg}", rtol=tol, atol=tol)
    mean, cov = call(const, model)
    ctx.close(mean, np.array([m]), f"constant-mean guess, mean {msg}", rtol=tol, atol=tol)
    ctx.close(cov, g0, f"constant-mean guess {msg}", rtol=tol, atol=tol)
    if s.meantype == "linear_predictor" and well(s, X, c, batches):
        g1 = reference(s, X, z, batches)[1]
        ctx.close(call(gen, model), g1, f"guess {msg}", rtol=tol, atol=tol)
    ctx.equal(to_np(model.covparam).tolist(), own.tolist(), "model parameters")


def arrays(ctx, s, X, z):
    import gpmp.num as gnp
    gx, gz = gnp.asarray(X), gnp.asarray(z)
    compare(ctx, s, X, z, lambda f, m: f(m, gx, gz), None, "from arrays")
    compare(ctx, s, X, z, lambda f, m: f(m, gx, gz.reshape(-1, 1)), None, "from a column")
    compare(ctx, s, X, z, lambda f, m: f(m, X, z), None, "from plain arrays")
    perm = np.roll(np.arange(len(X)), 1)[::-1].copy()
    compare(ctx, s, X, z, lambda f, m: f(m, gnp.asarray(X[perm]), gnp.asarray(z[perm])), None, "from reordered rows")
    scale = np.array([2.0, 0.25, 8.0, 0.5, 3.0, 0.1, 1.5, 40.0])[:s.d]
    Y = X * scale - 3.0 * np.ptp(X, axis=0)
    compare(ctx, s, Y, -4.0 * z, lambda f, m: f(m, gnp.asarray(Y), gnp.asarray(-4.0 * z)), None, "after rescaling")
    ctx.equal(to_np(gx).tolist(), X.tolist(), "inputs")
    ctx.state("arrays", s.name, X)


def loader(ctx, s, X, z, layout, bs, shuffle, col):
    import gpmp.num as gnp
    from gpmp.dataloader import Dataset, DataLoader
    cuts = np.cumsum((0,) + layout)
    zz = z.reshape(-1, 1) if col else z
    xs = [gnp.asarray(X[a:b]) for a, b in zip(cuts[:-1], cuts[1:])]
    zs = [gnp.asarray(zz[a:b]) for a, b in zip(cuts[:-1], cuts[1:])]
    ds = Dataset(xs[0], zs[0]) if len(xs) == 1 else Dataset(xs, zs)
    dl = DataLoader(ds, batch_size=bs, shuffle=shuffle)
    n = len(X)
    batches = [list(range(a, min(n, a + bs))) for a in range(0, n, bs)]
    if shuffle and len(batches) > 1:
        raise AssertionError("not a case")
    compare(ctx, s, X, z, lambda f, m: f(m, dataloader=dl), batches, f"from a loader {layout}/{bs}", tol=1e-6)
    ctx.state("loader", s.name, X, layout, bs)


def forms(ctx, s, kx, kz):
    """Whole-number data in every kind of plain array."""
    from gpmp.dataloader import Dataset, DataLoader
    X = zoo.whole(6, s.d)
    z = np.array([3.0, -1.0, 4.0, 1.0, -5.0, 9.0])
    x, y = zoo.form(X, kx), zoo.form(z, kz)
    compare(ctx, s, X, z, lambda f, m: f(m, x, y), None, f"from {kx}/{kz} arrays")
    batches = [[0, 1, 2, 3], [4, 5]]
    dl = DataLoader(Dataset(x, y), batch_size=4, shuffle=False)
    compare(ctx, s, X, z, lambda f, m: f(m, dataloader=dl), batches, f"from a loader of {kx}/{kz} arrays", tol=1e-6)
    import gpmp
    ctx.close(gpmp.kernel.empirical_bounds_factory(x, y), gpmp.kernel.empirical_bounds_factory(X, z), "bounds", rtol=1e-12)
    ctx.state("forms", s.name, kx, kz)


def bounds(ctx, rows, z, kw):
    import gpmp
    import gpmp.num as gnp
    X = np.array(rows, float)
    f = gpmp.kernel.empirical_bounds_factory
    q = kw.get("mean_paramlength", 0)
    v = float(np.mean((z - z.mean()) ** 2))
    lo, hi, ln = kw.get("var_lower_factor", 2.0), kw.get("var_upper_factor", 10.0), kw.get("length_lower_factor", 2.0)
    want = [(-math.inf, math.inf)] * q + [(math.log(lo * v), math.log(hi * v))]
    for col in X.T:
        u = sorted(set(col.tolist()))
        want.append((-math.inf, math.inf if len(u) < 2 else -math.log(ln * min(b - a for a, b in zip(u[:-1], u[1:])))))
    for gz in (gnp.asarray(z), gnp.asarray(z).reshape(-1, 1)):
        got = f(gnp.asarray(X), gz, **kw)
        ctx.close(got, np.array(want), "bounds", rtol=1e-10, atol=1e-12)
    ctx.state("bounds", rows, kw)


def sources(ctx, have_x, have_z, have_l):
    """Exactly one source of data is accepted."""
    import gpmp.num as gnp
    from gpmp.dataloader import Dataset, DataLoader
    s = zoo.spec("matern1", "const", 1, 0)
    X, z = zoo.grid(1)[:3], zoo.zvec(3)
    gx, gz = gnp.asarray(X), gnp.asarray(z)
    kw = {}
    if have_x:
        kw["xi"] = gx
    if have_z:
        kw["zi"] = gz
    if have_l:
        kw["dataloader"] = DataLoader(Dataset(gx, gz), batch_size=3, shuffle=False)
    full = have_x and have_z
    for f in funcs():
        if full != have_l:
            r = f(s.model(), **kw)
            ctx.ok(all(np.isfinite(to_np(t)).all() for t in (r if isinstance(r, tuple) else (r,))), "finite guess")
        else:
            ctx.raises(ValueError, lambda: f(s.model(), **kw), "ambiguous or missing data")
    ctx.state("sources", have_x, have_z, have_l)


def explore(ctx):
    T = ctx.thorough
    for d in (1, 2, 3, 4):
        g = zoo.grid(d)
        n = (2, 3, 4, 5) if d == 1 else (4, 5) if d == 2 else (6,)
        for kernel in ("matern0", "matern1", "matern2"):
            for mean in ("zero", "const", "lin", "par_const"):
                s = zoo.spec(kernel, mean, d, 0)
                for k in n:
                    subs = list(itertools.combinations(range(len(g)), k)) if d <= 2 else zoo.progressions(len(g), k, (1, 2, 5))
                    if not T and d == 2:
                        subs = subs[::5]
                    for c in subs:
                        X = g[list(c)]
                        if (X.max(0) == X.min(0)).any() or np.linalg.cond(s.K(X, reference(s, X, zoo.zvec(k), trend=False)[2])) > 1e8:
                            continue
                        ctx.run(f"arrays:{s.name}:{c}", arrays, s, X, zoo.zvec(k))
    for mean in ("zero", "const"):
        for d, sub in ((1, (0, 1, 2, 3, 4)), (2, (0, 2, 4, 5, 7))):
            s = zoo.spec("matern1", mean, d, 1)
            X = zoo.grid(d)[list(sub)][[3, 0, 4, 2, 1]]
            z = zoo.zvec(5, 2)
            for layout in compositions(5):
                for bs in (1, 2, 3, 4, 5, 7):
                    for shuffle in (False, True) if bs >= 5 else (False,):
                        for col in (False, True):
                            ctx.run(f"loader:{s.name}:{layout}:{bs}:{shuffle}:{col}", loader, s, X, z, layout, bs, shuffle, col)
    kws = [{}, dict(mean_paramlength=2), dict(var_lower_factor=0.5, var_upper_factor=3.0), dict(length_lower_factor=0.1, mean_paramlength=1)]
    for n in (2, 3) + ((4,) if T else ()):
        for col in itertools.product((0.0, 0.5, 0.7, 3.0), repeat=n):
            rows = tuple((a, 10.0 - 2.0 * k * k) for k, a in enumerate(col))
            for i, kw in enumerate(kws):
                ctx.run(f"bounds:{rows}:{i}", bounds, rows, zoo.zvec(n, i), kw)
    for d in (1, 2, 5, 8) if T else (1, 3, 6):
        for kernel, mean in (("matern0", "zero"), ("matern1", "const"), ("matern2", "lin")):
            s = zoo.spec(kernel, mean, d, 0)
            for n in zoo.SIZES:
                if n > 50 and kernel == "matern2" and d == 1:
                    continue
                X, z = zoo.spread(n, d), zoo.zvec(n)
                ctx.run(f"size:{s.name}:{n}", arrays, s, X, z)
            for n, bs in ((20, 7), (33, 32), (64, 16), (101, 25), (130, 64), (130, 130)):
                ctx.run(f"lsize:{s.name}:{n}:{bs}", loader, s, zoo.spread(n, d), zoo.zvec(n), (n // 3, n - n // 3), bs, bs == n, False)
            X, z = zoo.spread(20, d), zoo.zvec(20)
            for gain, shift in ((1e-6, 0.0), (1e6, 0.0), (1.0, 30.0), (1.0, -30.0)):
                ctx.run(f"gain:{s.name}:{gain}:{shift}", arrays, s, X + shift, z * gain)
            for u, v in zoo.UNITS:
                ctx.run(f"units:{s.name}:{u}:{v}", arrays, s, X * u, z * np.sqrt(v))
        for u, v in zoo.UNITS:
            for i, kw in enumerate(kws):
                ctx.run(f"bunits:{d}:{u}:{v}:{i}", bounds, zoo.spread(12, d) * u, zoo.zvec(12, i) * np.sqrt(v), kw)
        for n in (10, 31, 100, 257):
            for i, kw in enumerate(kws):
                ctx.run(f"bsize:{d}:{n}:{i}", bounds, zoo.spread(n, d), zoo.zvec(n, i), kw)
    for mean in ("zero", "const", "par_const"):
        for d in (1, 2):
            s = zoo.spec("matern1", mean, d, 0)
            for kx, kz in itertools.product(zoo.FORMS + ("float",), repeat=2):
                ctx.run(f"forms:{s.name}:{kx}:{kz}", forms, s, kx, kz)
    for t in itertools.product((False, True), repeat=3):
        if t[0] != t[1] and t[2]:
            continue        # a loader and half of the arrays: not specified
        ctx.run(f"sources:{t}", sources, *t)
