"""C14 - a data set behaves as the concatenation of its shards.

All divisions of up to six rows into shards (and derived data sets: subsets of
subsets, splits, folds) are compared with plain numpy on the concatenation.
"""

import itertools

import numpy as np

from mc import zoo
from mc.checks.c13 import compositions, dataset, rows
from mc.ctx import to_np

VALUES = np.array([[0.5, -3.0], [2.0, 7.0], [-1.25, 7.0], [4.0, 0.0], [0.5, 2.5], [9.0, -8.0], [3.0, 1.0]])
ZV = np.array([1.0, -2.0, 0.25, 5.0, 5.0, -7.5, 2.0])


def values(n):
    if n <= len(VALUES):
        return VALUES[:n].copy(), ZV[:n].copy()
    i = np.arange(n)
    return (np.stack([np.round(8 * np.sin(1.3 * i)) / 4, 3.0 * np.cos(0.7 * i) - 1.0], axis=1),
            np.where(i % 5, 2.0 * np.sin(0.9 * i + 1.0), 0.25))


def ragged(n, layout, zkind, offset=0.0):
    import gpmp.num as gnp
    from gpmp.dataloader import Dataset
    x, z = (a + offset for a in values(n))
    if zkind == "col":
        z = z.reshape(-1, 1)
    if zkind == "two":
        z = np.stack([z, z[::-1] * 2], axis=1)
    cuts = np.cumsum((0,) + layout)
    xs = [x[a:b] for a, b in zip(cuts[:-1], cuts[1:])]
    zs = [z[a:b] for a, b in zip(cuts[:-1], cuts[1:])]
    gx, gz = [gnp.asarray(a.copy()) for a in xs], [gnp.asarray(a.copy()) for a in zs]
    return Dataset(gx, gz), x, z, gx, gz


def content(ds):
    x = np.concatenate([to_np(a) for a in ds.x_list]) if ds.x_list else np.zeros((0, 2))
    z = np.concatenate([to_np(a) for a in ds.z_list]) if ds.z_list else np.zeros(0)
    return x, z


def access(ctx, n, layout, zkind):
    ds, x, z, gx, gz = ragged(n, layout, zkind)
    ctx.equal(len(ds), n, "length")
    for k in range(-n, n):
        a, b = ds[k]
        ctx.close(a, x[k], f"input at position {k}", rtol=0, atol=0)
        ctx.close(b, z[k], f"output at position {k}", rtol=0, atol=0)
    for k in (n, n + 1, n + 7, -n - 1, -n - 4):
        ctx.raises(IndexError, lambda: ds[k], f"position {k} of {n}")
    got = [to_np(a) for a, _ in ds]
    ctx.equal(len(got), n, "rows obtained by iterating")
    for k in range(n):
        ctx.close(got[k], x[k], f"row {k} obtained by iterating", rtol=0, atol=0)
    ctx.state(n, layout, zkind)


def stats(ctx, n, layout, zkind):
    from gpmp.dataloader import DataLoader
    ds, x, z, gx, gz = ragged(n, layout, zkind)
    dl = DataLoader(ds, batch_size=2)
    for name, a in (("x", x), ("z", z)):
        want = {"min": a.min(0), "max": a.max(0), "mean": a.mean(0), "median": np.median(a, axis=0)}
        if n > 1:
            want["var"] = a.var(0, ddof=1)
            want["std"] = a.std(0, ddof=1)
        for _ in range(2):  # asking twice gives the same answer
            for st, w in want.items():
                ctx.close(getattr(ds, f"{name}_{st}")(), w, f"{st} of {name}", rtol=1e-12, atol=1e-12)
                ctx.close(getattr(dl, f"dataset_{name}_{st}")(), w, f"{st} of {name} from the loader", rtol=1e-12, atol=1e-12)
            for q in (0.0, 0.1, 0.25, 1 / 3, 0.5, 0.75, 0.99, 1.0):
                ctx.close(getattr(ds, f"{name}_quantile")(q), np.quantile(a, q, axis=0), f"quantile {q} of {name}",
                          rtol=1e-12, atol=1e-12)
        for q in (-0.1, 1.1, 50):
            ctx.raises(ValueError, lambda: getattr(ds, f"{name}_quantile")(q), f"quantile level {q}")
    cx, cz = content(ds)
    ctx.close(cx, x, "inputs after computing statistics", rtol=0, atol=0)
    ctx.close(cz, z, "outputs after computing statistics", rtol=0, atol=0)


def forms(ctx, layout, kx, kz):
    """Whole-number shards in every kind of plain array."""
    from gpmp.dataloader import Dataset
    n = sum(layout)
    x, z = np.round(values(n)[0] * 4), np.round(values(n)[1] * 4)
    cuts = np.cumsum((0,) + layout)
    ds = Dataset([zoo.form(x[a:b], kx) for a, b in zip(cuts[:-1], cuts[1:])], [zoo.form(z[a:b], kz) for a, b in zip(cuts[:-1], cuts[1:])])
    ctx.equal(len(ds), n, "length")
    for k in range(-n, n):
        ctx.close(ds[k][0], x[k], f"input at position {k}", rtol=0, atol=0)
        ctx.close(ds[k][1], z[k], f"output at position {k}", rtol=0, atol=0)
    for name, a in (("x", x), ("z", z)):
        for st, w in (("min", a.min(0)), ("max", a.max(0)), ("mean", a.mean(0)), ("median", np.median(a, axis=0)), ("var", a.var(0, ddof=1)), ("std", a.std(0, ddof=1))):
            ctx.close(getattr(ds, f"{name}_{st}")(), w, f"{st} of {name} ({kx}/{kz})", rtol=1e-12, atol=1e-12)
        for q in (0.1, 0.5, 0.75):
            ctx.close(getattr(ds, f"{name}_quantile")(q), np.quantile(a, q, axis=0), f"quantile {q} of {name} ({kx}/{kz})", rtol=1e-12, atol=1e-12)
    ctx.step()
    ctx.state("forms", layout, kx, kz)


def subset(ctx, n, layout, zkind):
    """All index subsets, in every order for small ones, with repetitions, nested."""
    import gpmp.num as gnp
    ds, x, z, gx, gz = ragged(n, layout, zkind)
    for m in range(0, n + 1):
        for sel in itertools.combinations(range(n), m):
            for arr in (sel, sel[::-1]):
                sub = ds.subset(gnp.asarray(np.array(arr, dtype=int)))
                ctx.equal(len(sub), m, f"size of the subset {arr}")
                if m == 0:
                    continue
                cx, cz = content(sub)
                ctx.close(cx, x[list(sel)], f"inputs of the subset {arr}", rtol=0, atol=0)
                ctx.close(cz, z[list(sel)], f"outputs of the subset {arr}", rtol=0, atol=0)
                ctx.close(sub[m - 1][0], x[sel[-1]], "last row of a subset", rtol=0, atol=0)
                ctx.close(sub.x_mean(), x[list(sel)].mean(0), "mean of a subset", rtol=1e-12, atol=1e-12)
            if m >= 2:
                inner = [0, m - 1]
                sub2 = sub.subset(gnp.asarray(np.array(inner)))
                cx, cz = content(sub2)
                ctx.close(cx, x[[sel[i] for i in inner]], f"subset {inner} of the subset {sel}", rtol=0, atol=0)
                ctx.close(cz, z[[sel[i] for i in inner]], f"subset {inner} of the subset {sel}", rtol=0, atol=0)
    rep = ds.subset(gnp.asarray(np.array([0, n - 1, 0])))
    ctx.close(content(rep)[0], x[sorted([0, n - 1, 0])], "subset with a repeated index", rtol=0, atol=0)
    ctx.raises(ValueError, lambda: ds.subset(gnp.asarray(np.array([[0]]))), "two-dimensional indices")
    cx, cz = content(ds)
    ctx.close(cx, x, "inputs after taking subsets", rtol=0, atol=0)


def offset_stats(ctx, n, layout, offset):
    """Spread measures do not suffer from a common offset."""
    ds, x, z, _, _ = ragged(n, layout, "flat", offset)
    for name, a in (("x", x), ("z", z)):
        ctx.close(getattr(ds, f"{name}_mean")(), a.mean(0), f"mean of {name}", rtol=1e-14 * n, atol=0)
        ctx.close(getattr(ds, f"{name}_var")(), a.var(0, ddof=1), f"variance of {name}", rtol=1e-7, atol=0)
        ctx.close(getattr(ds, f"{name}_std")(), a.std(0, ddof=1), f"deviation of {name}", rtol=1e-7, atol=0)
    ctx.state("offset", n, layout, offset)


def some_subsets(ctx, n, layout, zkind):
    import gpmp.num as gnp
    ds, x, z, _, _ = ragged(n, layout, zkind)
    i = np.arange(n)
    for sel in (i, i[::2], i[n // 3:2 * n // 3], i[i % 7 == 3], i[-5:], i[:1]):
        sub = ds.subset(gnp.asarray(sel.copy()))
        ctx.step()
        cx, cz = content(sub)
        ctx.close(cx, x[sel], "inputs of a subset", rtol=0, atol=0)
        ctx.close(cz, z[sel], "outputs of a subset", rtol=0, atol=0)
        ctx.close(sub.x_max(), x[sel].max(0), "maximum of a subset", rtol=0, atol=0)
        ctx.equal(len(sub), len(sel), "size of a subset")
    ctx.state("subsets", n, layout, zkind)


def split(ctx, n, layout, ratios, seed):
    import gpmp.num as gnp
    from gpmp.dataloader import Dataset
    ds = dataset(n, layout, "flat")
    if seed is None:
        gnp.set_seed(4)
    parts = Dataset.split(ds, ratios, seed=seed)
    ctx.equal(len(parts), 3, "number of parts")
    keys = []
    for p, r in zip(parts, ratios):
        x, z = content(p)
        k = np.rint(x[:, 0] - 0.25).astype(int) if len(x) else np.zeros(0, int)
        ctx.ok(np.array_equal(z, 10.0 * k + 0.5), "outputs of a part belong to other rows")
        keys.append(sorted(k.tolist()))
    for j in (0, 1):
        ctx.ok(ratios[j] * n - 1 - 1e-9 < len(keys[j]) <= ratios[j] * n + 1e-9,
               f"part {j} has {len(keys[j])} of {n} rows for ratio {ratios[j]}")
    ctx.equal(sorted(keys[0] + keys[1] + keys[2]), list(range(n)), f"rows of the split {ratios}")
    gnp.randn(5)
    if seed is None:
        gnp.set_seed(4)
    again = Dataset.split(ds, ratios, seed=seed)
    for p, q in zip(parts, again):
        ctx.close(content(p)[0], content(q)[0], "same seed, same split", rtol=0, atol=0)
    ctx.state(n, layout, ratios, repr(keys))


def kfold(ctx, n, k, seed, reps):
    import gpmp.num as gnp
    from gpmp.dataloader import Dataset

    def get():
        if seed is None:
            gnp.set_seed(8)
        if reps is None:
            return Dataset.k_fold_indices(n, k, seed=seed)
        return Dataset.repeated_k_fold_indices(n, k, reps, seed=seed)
    out = get()
    r = 1 if reps is None else reps
    ctx.equal(len(out), k * r, "number of folds")
    vals = []
    for j in range(r):
        seen = []
        sizes = []
        for tr, va in out[j * k:(j + 1) * k]:
            tr, va = to_np(tr).tolist(), to_np(va).tolist()
            ctx.equal(sorted(tr + va), list(range(n)), "training and validation indices of a fold")
            seen += va
            sizes.append(len(va))
        ctx.equal(sorted(seen), list(range(n)), "validation folds of one repetition")
        ctx.ok(max(sizes) - min(sizes) <= 1, f"fold sizes {sizes}")
        vals.append(tuple(seen))
    if n >= 6 and r >= 3:
        ctx.ok(len(set(vals)) >= (r if n >= 20 else 2), "repetitions are identical")
    gnp.rand(3)
    again = get()
    for (a, b), (c, d) in zip(out, again):
        ctx.close(a, c, "same seed, same training indices", rtol=0, atol=0)
        ctx.close(b, d, "same seed, same validation indices", rtol=0, atol=0)
    ctx.state(n, k, seed, reps, repr(vals))


def seeds(ctx, n):
    from gpmp.dataloader import Dataset
    a = {tuple(to_np(Dataset.k_fold_indices(n, 2, seed=s)[0][1]).tolist()) for s in range(6)}
    b = set()
    for s in range(6):
        x, _ = content(Dataset.split(dataset(n, (n,)), (0.5, 0.25, 0.25), seed=s)[0])
        b.add(tuple(x[:, 0]))
    ctx.ok(len(a) >= 3, "folds do not depend on the seed")
    ctx.ok(len(b) >= 3, "splits do not depend on the seed")


def rejected(ctx, what):
    import gpmp.num as gnp
    from gpmp.dataloader import Dataset
    x, z = rows(4, "flat")
    x, z = gnp.asarray(x), gnp.asarray(z)
    bad = {
        "lengths": lambda: Dataset(x, z[:3]),
        "second shard": lambda: Dataset([x, x[:2]], [z, z]),
        "swapped shards": lambda: Dataset([x[:1], x[1:]], [z[:3], z[3:]]),
        "shard counts": lambda: Dataset([x, x], [z]),
        "shard counts 2": lambda: Dataset(x, [z[:2], z[2:]]),
        "ratios": lambda: Dataset.split(Dataset(x, z), (0.5, 0.2, 0.2)),
        "ratios above one": lambda: Dataset.split(Dataset(x, z), (0.8, 0.3, 0.1)),
    }
    ctx.raises(Exception, bad[what], what)


REJECTED = ["lengths", "second shard", "swapped shards", "shard counts", "shard counts 2", "ratios", "ratios above one"]


def explore(ctx):
    T = ctx.thorough
    for n in range(1, (7 if T else 6) + 1):
        for layout in compositions(n):
            for z in ("flat", "col", "two"):
                ctx.run(f"access:{n}:{layout}:{z}", access, n, layout, z)
                ctx.run(f"stats:{n}:{layout}:{z}", stats, n, layout, z)
            ctx.run(f"subset:{n}:{layout}", subset, n, layout, "flat" if n % 2 else "col")
    tenths = [(i / 10, j / 10, (10 - i - j) / 10) for i in range(11) for j in range(11 - i)]
    for n in range(1, (13 if T else 10)):
        for layout in sorted({(n,), (1, n - 1) if n > 1 else (n,), (n // 2, n - n // 2) if n > 1 else (n,)}):
            for ratios in tenths:
                ctx.run(f"split:{n}:{layout}:{ratios}", split, n, layout, ratios, (n % 4) or None)
    for n in range(2, (20 if T else 14)):
        for k in range(2, n + 1):
            for seed in (None, 0, 5):
                for reps in (None, 1, 3):
                    ctx.run(f"kfold:{n}:{k}:{seed}:{reps}", kfold, n, k, seed, reps)
    for n in (6, 9, 12):
        ctx.run(f"seeds:{n}", seeds, n)
    for w in REJECTED:
        ctx.run(f"reject:{w}", rejected, w)
    # larger data sets
    for n in (13, 31, 32, 33, 64, 65, 100, 101, 128, 129, 256, 257, 1000):
        third = n // 3
        for layout in ((n,), (third, third + 1, n - 2 * third - 1), (1,) * 9 + (n - 9,)):
            for z in ("flat", "col", "two"):
                ctx.run(f"size:access:{n}:{len(layout)}:{z}", access, n, layout, z)
                ctx.run(f"size:stats:{n}:{len(layout)}:{z}", stats, n, layout, z)
                ctx.run(f"size:subset:{n}:{len(layout)}:{z}", some_subsets, n, layout, z)
            for offset in (1e3, -1e5):
                ctx.run(f"size:offset:{n}:{len(layout)}:{offset}", offset_stats, n, layout, offset)
            for ratios in ((0.6, 0.2, 0.2), (0.8, 0.1, 0.1), (0.7, 0.3, 0.0), (1.0, 0.0, 0.0)):
                ctx.run(f"size:split:{n}:{len(layout)}:{ratios}", split, n, layout, ratios, 3)
        for k in (2, 3, 5, 7, 10):
            for reps in (None, 2, 12) + ((40,) if n in (33, 100) else ()):
                ctx.run(f"size:kfold:{n}:{k}:{reps}", kfold, n, k, 5, reps)
    for layout in ((5,), (2, 3), (1, 3, 1)):
        for kx, kz in itertools.product(zoo.FORMS + ("float",), repeat=2):
            ctx.run(f"forms:{layout}:{kx}:{kz}", forms, layout, kx, kz)
