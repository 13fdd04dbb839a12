"""C15 - scalers are exact inverses and normalise as advertised.

Columns over a small alphabet are enumerated completely (length <= 4), at
several magnitudes and offsets, including constant columns and single rows.
"""

import itertools

import numpy as np

from mc.ctx import to_np

ALPHA = (-2.0, 0.0, 1.0, 3.5)
EPS = 1e-8




def column_stats(ctx, name, t, x, q, tol):
    """Advertised statistics of every transformed non-constant column."""
    for j in range(x.shape[1]):
        c, u = x[:, j], t[:, j]
        if name == "normal":
            ctx.ok(abs(u.mean()) < tol, f"mean of the scaled column {c} is {u.mean()}")
            if c.std() > 10 * EPS:
                s0 = u.std()
                s1 = u.std(ddof=1) if len(u) > 1 else s0
                ctx.ok(min(abs(s0 - 1), abs(s1 - 1)) < tol, f"deviation of the scaled column {c} is {s0}")
            else:
                ctx.ok(abs(u).max() < 20 * EPS, f"constant column {c} scaled to {u}")
        elif name == "robust":
            a, m, b = np.percentile(u, [q[0], 50.0, q[1]])
            iqr = np.subtract(*np.percentile(c, [q[1], q[0]]))
            ctx.ok(abs(m) < tol, f"median of the scaled column {c} is {m}")
            if iqr > 10 * EPS:
                ctx.ok(abs(b - a - 1) < tol, f"interquantile range of the scaled column {c} is {b - a}")
        else:
            if c.max() - c.min() > 10 * EPS:
                ctx.ok(abs(u.min()) < tol and abs(u.max() - 1) < tol, f"range of the scaled column {c}: {u.min()}, {u.max()}")
            else:
                ctx.ok(abs(u).max() < 20 * EPS, f"constant column {c} scaled to {u}")


def arrays(ctx, x, name, q):
    import gpmp.num as gnp
    from gpmp import dataloader as D
    g = gnp.asarray(x.copy())
    cls = {"normal": D.Normalizer, "robust": D.RobustScaler, "minmax": D.MinMaxScaler}[name]
    sc = cls.fit(g, *q) if name == "robust" else cls.fit(g)
    q = q or (25.0, 75.0)
    spread = np.abs(x).max() / max(1e-300, min([s for s in (x.max(0) - x.min(0)) if s > EPS] or [1.0]))
    tol = 1e-9 + 1e-14 * spread
    scale = np.abs(x).max() + 1.0
    t = sc.transform(g)
    ctx.ok(np.array_equal(to_np(g), x), "transform modified its input")
    tn = to_np(t).copy()
    ctx.equal(tn.shape, x.shape, "shape of the transformed array")
    ctx.ok(np.isfinite(tn).all(), f"not finite: {tn.tolist()} from {x.tolist()}")
    column_stats(ctx, name, tn, x, q, tol)
    back = sc.inverse_transform(t)
    ctx.ok(np.array_equal(to_np(t), tn), "inverse transform modified its input")
    ctx.close(back, x, "inverse of the transform", rtol=1e-12, atol=1e-13 * scale)
    # other rows go through the same affine map, row by row
    y = np.vstack([x[:1] + 0.75 * scale, x[-1:], x[:1] - 2.0])
    ty = sc.transform(gnp.asarray(y))
    ctx.close(sc.inverse_transform(ty), y, "round trip of new rows", rtol=1e-12, atol=1e-13 * scale)
    one = [to_np(sc.transform(gnp.asarray(y[k:k + 1]))) for k in range(3)]
    ctx.close(ty, np.vstack(one), "row by row", rtol=1e-13, atol=1e-300)
    aff = to_np(sc.transform(gnp.asarray(0.25 * y + 0.75 * y[::-1])))
    ctx.close(aff, 0.25 * to_np(ty) + 0.75 * to_np(ty)[::-1], "affine map", rtol=1e-9, atol=tol * max(1.0, np.abs(to_np(ty)).max()))
    ctx.close(sc.transform(gnp.asarray(x.copy()), copy=False), tn, "without copy", rtol=0, atol=0)
    ctx.close(sc.inverse_transform(gnp.asarray(tn.copy()), copy=False), to_np(back), "inverse without copy", rtol=0, atol=0)
    # the result is the caller's: writing to it affects neither input nor scaler
    w = to_np(t)
    if w.flags.writeable:
        w[...] = 77.0
    ctx.ok(np.array_equal(to_np(g), x), "result shares memory with the input")
    ctx.close(sc.transform(g), tn, "transform after writing to an earlier result", rtol=0, atol=0)


def column(ctx, cols, scale, offset, name, q):
    x = np.array(cols, float) * scale + offset
    arrays(ctx, x, name, q)
    ctx.state(name, q, x)


def sized(ctx, n, d, scale, offset, name, q):
    i = np.arange(n)[:, None]
    x = (np.sin(1.3 * i + np.arange(d)) + 0.2 * np.cos(0.1 * i * (1 + np.arange(d)))) * scale + offset
    if d > 2:
        x[:, 2] = offset
    arrays(ctx, x, name, q)
    ctx.state(name, q, n, d, scale, offset)


def outputs(ctx, col, scale, offset, shape):
    import gpmp.num as gnp
    from gpmp.dataloader import ObservationScaler
    z = np.array(col) * scale + offset
    if shape == "col":
        z = z.reshape(-1, 1)
    g = gnp.asarray(z.copy())
    sc = ObservationScaler.fit(g)
    t = sc.transform(g)
    tn = to_np(t).copy()
    ctx.equal(tn.shape, z.shape, "shape")
    ctx.ok(np.isfinite(tn).all(), f"not finite: {tn.tolist()} from {z.tolist()}")
    tol = 1e-9 + 1e-14 * np.abs(z).max() / max(z.std(), EPS)
    ctx.ok(abs(tn.mean()) < tol, "mean of scaled outputs")
    if z.std() > 10 * EPS:
        ctx.ok(min(abs(tn.std() - 1), abs(tn.std(ddof=1) - 1)) < tol, f"deviation of scaled outputs {tn.std()}")
    ctx.close(sc.inverse_transform(t), z, "inverse", rtol=1e-12, atol=1e-13 * (np.abs(z).max() + 1))
    ctx.ok(np.array_equal(to_np(g), z) and np.array_equal(to_np(t), tn), "input modified")
    ctx.close(sc.transform(gnp.asarray(z.copy()), copy=False), tn, "without copy", rtol=0, atol=0)
    ctx.close(sc.inverse_transform(gnp.asarray(tn.copy()), copy=False), sc.inverse_transform(t), "inverse without copy", rtol=0, atol=0)
    w = to_np(t)
    if w.flags.writeable:
        w[...] = 5.0
    ctx.ok(np.array_equal(to_np(g), z), "result shares memory with the input")
    ctx.state("obs", shape, z)


def explicit(ctx, name):
    """Scalers built from explicit location and scale."""
    import gpmp.num as gnp
    from gpmp import dataloader as D
    a, b = np.array([[1.0, -2.0, 0.5]]), np.array([[2.0, 0.0, 1e-12]])
    x = np.array([[3.0, 4.0, 5.0], [-1.0, 0.0, 0.25]])
    s = np.where(b < EPS, 1.0, b)
    if name == "minmax":
        sc = D.MinMaxScaler(gnp.asarray(a), gnp.asarray(a + b))
    else:
        sc = {"normal": D.Normalizer, "robust": D.RobustScaler}[name](gnp.asarray(a), gnp.asarray(b))
    ctx.close(sc.transform(gnp.asarray(x)), (x - a) / s, "transform", rtol=1e-12)
    ctx.close(sc.inverse_transform(gnp.asarray(x)), x * s + a, "inverse transform", rtol=1e-12)
    for std in (0.5, 0.0, 1e-9):
        so = D.ObservationScaler(2.0, std)
        w = std if std > EPS else 1.0
        ctx.close(so.transform(gnp.asarray(x)), (x - 2.0) / w, "outputs", rtol=1e-12)
        ctx.close(so.inverse_transform(gnp.asarray(x)), x * w + 2.0, "outputs, inverse", rtol=1e-12)


def collate(ctx, sizes, zkind):
    import gpmp.num as gnp
    from gpmp.dataloader import collate_batches
    from mc.checks.c13 import rows
    n = sum(sizes)
    x, z = rows(n, zkind)
    cuts = np.cumsum((0,) + sizes)
    bs = [(gnp.asarray(x[a:b].copy()), gnp.asarray(z[a:b].copy())) for a, b in zip(cuts[:-1], cuts[1:])]
    cx, cz = collate_batches(bs)
    ctx.close(cx, x, "collated inputs", rtol=0, atol=0)
    ctx.close(cz, z, "collated outputs", rtol=0, atol=0)
    ctx.raises(ValueError, lambda: collate_batches([]), "no batches")


def explore(ctx):
    from mc.checks.c13 import compositions
    T = ctx.thorough
    mags = ((1.0, 0.0), (1e-5, 0.0), (1e6, 0.0), (1.0, 1e4), (1e-3, -7.0))
    if T:
        mags += ((1e-7, 0.0), (1e12, 1.0), (1.0, 1e6))
    qs = {"normal": [()], "minmax": [()], "robust": [(), (25.0, 75.0), (10.0, 90.0), (0.0, 100.0)]}
    for name in ("normal", "robust", "minmax"):
        ctx.run(f"explicit:{name}", explicit, name)
        for n in range(1, 5 + T):
            for c in itertools.product(ALPHA, repeat=n):
                # second column: the reversed one; third: constant; fourth: tiny variation
                cols = [[c[k], -c[n - 1 - k] * 2, 1.5, 1.0 + 1e-12 * k] for k in range(n)]
                for q in qs[name]:
                    for sc, off in mags if (n <= 3 or T) else mags[:1]:
                        ctx.run(f"x:{name}:{q}:{c}:{sc}:{off}", column, cols, sc, off, name, q)
    for n in range(1, 5 + T):
        for c in itertools.product(ALPHA, repeat=n):
            for sc, off in mags:
                for shape in ("flat", "col"):
                    ctx.run(f"z:{c}:{sc}:{off}:{shape}", outputs, c, sc, off, shape)
    for n in range(1, 6 + T):
        for sizes in compositions(n):
            for z in ("flat", "col", "two"):
                ctx.run(f"collate:{sizes}:{z}", collate, sizes, z)
    for n in (6, 13, 32, 33, 64, 65, 100, 101, 128, 129, 256, 1000):
        for sc, off in mags:
            for name in ("normal", "robust", "minmax"):
                for d in (1, 3, 6):
                    for q in qs[name]:
                        ctx.run(f"size:{name}:{q}:{n}:{d}:{sc}:{off}", sized, n, d, sc, off, name, q)
            for shape in ("flat", "col"):
                ctx.run(f"zsize:{n}:{sc}:{off}:{shape}", outputs, np.sin(1.3 * np.arange(n)).tolist(), sc, off, shape)
    for sizes in ((32,) * 4, (64, 64, 1), (100, 28), (1,) * 40, (33,) * 8):
        for z in ("flat", "col", "two"):
            ctx.run(f"csize:{sizes}:{z}", collate, sizes, z)
