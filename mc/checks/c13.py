"""C13 - every data-loader epoch is a partition of the rows in a repeatable order.

Part 1 enumerates sizes, shard layouts, batch sizes and flags; the shuffle is
scripted so that *every* permutation of up to five rows is produced.
Part 2 executes all operation histories up to a depth on one live loader (two
concurrent iterators, epoch changes, foreign random draws, another loader, a
seeded split) against a small transition model.
"""

import itertools

import numpy as np

from mc.ctx import to_np
from mc.scripted import patched


def compositions(n):
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        for rest in compositions(n - first):
            yield (first,) + rest


def rows(n, zkind):
    i = np.arange(n)
    x = np.stack([i + 0.25, 100.0 - i], axis=1)
    z = {"flat": 10.0 * i + 0.5, "col": (10.0 * i + 0.5).reshape(-1, 1),
         "two": np.stack([10.0 * i + 0.5, -1.0 * i], axis=1)}[zkind]
    return x, z


def dataset(n, layout, zkind="flat", plain=False):
    import gpmp.num as gnp
    from gpmp.dataloader import Dataset
    x, z = rows(n, zkind)
    cv = (lambda a: a) if plain else gnp.asarray
    if layout == (n,):
        return Dataset(cv(x), cv(z))
    cuts = np.cumsum((0,) + layout)
    return Dataset([cv(x[a:b]) for a, b in zip(cuts[:-1], cuts[1:])],
                   [cv(z[a:b]) for a, b in zip(cuts[:-1], cuts[1:])])


def ids(ctx, batch, n, zkind="flat"):
    """Row numbers of a batch; checks that inputs and outputs belong together."""
    xb, zb = (to_np(b) for b in batch)
    x, z = rows(n, zkind)
    ctx.equal(xb.shape[1:], x.shape[1:], "shape of an input row")
    ctx.equal(zb.shape[1:], z.shape[1:], "shape of an output row")
    ctx.equal(xb.shape[0], zb.shape[0], "inputs and outputs of a batch")
    k = np.rint(xb[:, 0] - 0.25).astype(int)
    ctx.ok(((k >= 0) & (k < n)).all(), "batch contains a row that is not in the data")
    ctx.ok(np.array_equal(xb, x[k]), "batch input rows")
    ctx.ok(np.array_equal(zb, z[k]), "batch outputs belong to other rows")
    return tuple(int(v) for v in k)


def sizes_of(n, bs, drop):
    full, rest = divmod(n, bs)
    return [bs] * full + ([rest] if rest and not drop else [])


def epoch(ctx, n, layout, zkind, bs, drop, shuffle, plain):
    from gpmp.dataloader import DataLoader, collate_batches
    ds = dataset(n, layout, zkind, plain)
    ctx.equal(len(ds), n, "length of the data set")
    dl = DataLoader(ds, batch_size=bs, shuffle=shuffle, drop_last=drop)
    want = sizes_of(n, n if bs is None else bs, drop)
    ctx.equal(len(dl), len(want), "reported number of batches")
    for _ in range(2):
        got = [ids(ctx, b, n, zkind) for b in dl]
        ctx.step(len(got))
        ctx.equal([len(g) for g in got], want, "batch sizes")
        flat = [i for g in got for i in g]
        ctx.equal(len(set(flat)), len(flat), "a row appears twice")
        if not drop:
            ctx.equal(sorted(flat), list(range(n)), "rows visited in one epoch")
        if not shuffle:
            ctx.equal(flat, list(range(sum(want))), "order without shuffling")
    ctx.state(n, layout, bs, drop, shuffle)
    if not drop:
        xb, zb = collate_batches(list(DataLoader(ds, batch_size=bs, shuffle=False)))
        x, z = rows(n, zkind)
        ctx.close(xb, x, "collated inputs", rtol=0, atol=0)
        ctx.close(zb, z, "collated outputs", rtol=0, atol=0)


def indexing(ctx, n, layout, bs, drop):
    from gpmp.dataloader import DataLoader
    dl = DataLoader(dataset(n, layout), batch_size=bs, shuffle=False, drop_last=drop)
    it = [ids(ctx, b, n) for b in dl]
    nb = len(it)
    for k in range(-nb, nb):
        ctx.equal(ids(ctx, dl[k], n), it[k], f"batch {k}")
    for k in (nb, nb + 1, -nb - 1):
        ctx.raises(IndexError, lambda: dl[k], f"batch {k} of {nb}")
    ends = [None] + list(range(-nb - 1, nb + 2))
    for a, b, s in itertools.product(ends, ends, (None, 1, 2, -1)):
        ctx.equal([ids(ctx, q, n) for q in dl[a:b:s]], it[a:b:s], f"batches {a}:{b}:{s}")
    ctx.equal([ids(ctx, b, n) for b in dl], it, "iteration after indexing")
    for kw in (dict(shuffle=True), dict(shuffle=False, infinite=True)):
        ctx.raises(RuntimeError, lambda: DataLoader(dl.dataset, batch_size=bs, **kw)[0], "indexing such a loader")


def every_shuffle(ctx, n, layout, bs, drop):
    """All outcomes of the shuffle."""
    import gpmp.num as gnp
    from gpmp.dataloader import DataLoader
    ds = dataset(n, layout)
    for perm in itertools.permutations(range(n)):
        def scripted(k, *a, **kw):
            return gnp.asarray(np.array(perm))
        with patched(permutation=scripted):
            got = [ids(ctx, b, n) for b in DataLoader(ds, batch_size=bs, shuffle=True, drop_last=drop)]
        ctx.step(len(got))
        ctx.equal([len(g) for g in got], sizes_of(n, bs, drop), f"batch sizes for shuffle {perm}")
        flat = [i for g in got for i in g]
        ctx.equal(len(set(flat)), len(flat), f"a row appears twice for shuffle {perm}")
        if not drop:
            ctx.equal(sorted(flat), list(range(n)), f"rows visited for shuffle {perm}")


_ORDER = {}


def order(ctx, n, layout, bs, seed, e):
    """Reference: batches of a fresh loader, fresh seed, asked for epoch e."""
    from gpmp.dataloader import DataLoader
    key = (n, layout, bs, seed, e)
    if key not in _ORDER:
        dl = DataLoader(dataset(n, layout), batch_size=bs, shuffle=True, seed=seed)
        dl.set_epoch(e)
        _ORDER[key] = [ids(ctx, b, n) for b in dl]
    return _ORDER[key]


def orders(ctx, n, layout, bs):
    """Distinct epochs and seeds give distinct orders; same ones the same order."""
    from gpmp.dataloader import DataLoader
    for seed in (0, 1, 7, 123456):
        dl = DataLoader(dataset(n, layout), batch_size=bs, shuffle=True, seed=seed)
        seen = []
        for e in range(5):
            got = [ids(ctx, b, n) for b in dl]
            ctx.equal(got, order(ctx, n, layout, bs, seed, e), f"epoch {e} with seed {seed}")
            seen.append(tuple(got))
        ctx.ok(len(set(seen)) >= 4, f"epochs are not reshuffled with seed {seed}")
        ctx.ok(any([i for g in s for i in g] != list(range(n)) for s in seen), "no shuffling at all")
        dl.set_epoch(2)
        ctx.equal([ids(ctx, b, n) for b in dl], list(seen[2]), "epoch 2 asked again")
    a = [order(ctx, n, layout, bs, s, 0) for s in (0, 1, 7, 123456)]
    ctx.ok(len({tuple(v) for v in a}) >= 3, "the order does not depend on the seed")


def many_epochs(ctx, n, layout, bs, seed, infinite):
    """Sixty epochs in a row, then epochs far away: all orders differ and can be asked again."""
    from gpmp.dataloader import DataLoader
    dl = DataLoader(dataset(n, layout), batch_size=bs, shuffle=True, seed=seed, infinite=infinite)
    per = len(sizes_of(n, bs, False))
    seen = []
    it = None
    for e in range(60):
        if infinite:
            it = it or iter(dl)
            got = [ids(ctx, next(it), n) for _ in range(per)]
        else:
            got = [ids(ctx, b, n) for b in dl]
        ctx.equal(got, order(ctx, n, layout, bs, seed, e), f"epoch {e} with seed {seed}")
        ctx.equal(sorted(i for g in got for i in g), list(range(n)), f"rows of epoch {e}")
        seen.append(tuple(got))
    for e in (100, 255, 256, 1000, 1024, 65536, 10 ** 6):
        seen.append(tuple(order(ctx, n, layout, bs, seed, e)))
    ctx.equal(len(set(seen)), len(seen), "number of different orders")
    ctx.step(len(seen))
    ctx.state("epochs", n, layout, bs, seed, infinite)


def history(ctx, n, layout, bs, infinite, shuffle, hist):
    import gpmp.num as gnp
    from gpmp.dataloader import DataLoader, Dataset
    seed = 11
    dl = DataLoader(dataset(n, layout), batch_size=bs, shuffle=shuffle, seed=seed, infinite=infinite)
    other = iter(DataLoader(dataset(4, (4,)), batch_size=1, shuffle=True, seed=5, infinite=True))
    # model: epoch counter, and for each iterator None | (batches, position) | "done"
    ep = 0
    live = {"A": iter(dl), "B": iter(dl)}
    pos = {"A": None, "B": None}

    def batches(e):
        if shuffle:
            return order(ctx, n, layout, bs, seed, e)
        return [tuple(range(k, min(k + bs, n))) for k in range(0, n, bs)]

    for k, op in enumerate(hist):
        ctx.step()
        if op in ("nA", "nB"):
            w = op[1]
            got = next(live[w], None)
            if pos[w] == "done":
                ctx.ok(got is None, f"an exhausted iterator yields again after {hist[:k]}")
                continue
            if pos[w] is None:
                want = [batches(ep), 0]
            else:
                want = pos[w]
                if want[1] == len(want[0]):
                    ep += 1
                    want = [batches(ep), 0] if infinite else None
            if want is None:
                pos[w] = "done"
                ctx.ok(got is None, f"too many batches after {hist[:k]}")
            else:
                ctx.ok(got is not None, f"too few batches after {hist[:k]}")
                ctx.equal(ids(ctx, got, n), want[0][want[1]], f"batch {want[1]} (epoch {ep}) after {hist[:k]}")
                pos[w] = [want[0], want[1] + 1]
        elif op in ("iA", "iB"):
            live[op[1]] = iter(dl)
            pos[op[1]] = None
        elif op.startswith("e"):
            ep = int(op[1:])
            dl.set_epoch(ep)
        elif op == "draw":
            gnp.randn(3)
            gnp.permutation(4)
        elif op == "other":
            next(other)
        elif op == "split":
            Dataset.split(dl.dataset, (0.5, 0.25, 0.25), seed=3)
        elif op == "index" and not (shuffle or infinite):
            ctx.equal(ids(ctx, dl[-1], n), batches(0)[-1], "last batch by index")
        elif op == "len":
            ctx.equal(len(dl), len(batches(0)), "reported length")
        ctx.state(n, layout, bs, infinite, shuffle, ep, repr(pos))
    # the history ends with one complete pass of a new iterator
    if not infinite:
        ctx.equal([ids(ctx, b, n) for b in dl], batches(ep), f"complete pass after {hist}")
    else:
        it = iter(dl)
        m = len(batches(0))
        for e in (ep, ep + 1):
            ctx.equal([ids(ctx, next(it), n) for _ in range(m)], batches(e), f"pass {e} after {hist}")


def rejected(ctx, bs):
    from gpmp.dataloader import DataLoader, collate_batches
    ctx.raises(ValueError, lambda: DataLoader(dataset(4, (4,)), batch_size=bs), f"batch size {bs}")
    ctx.raises(ValueError, lambda: collate_batches([]), "collating nothing")


def explore(ctx):
    T = ctx.thorough
    N = 7 if T else 6
    for n in range(1, N + 1):
        for layout in compositions(n):
            for bs in [None] + list(range(1, n + 2)):
                for drop in (False, True):
                    for shuffle in (False, True):
                        z = ("flat", "col", "two")[(n + len(layout) + (bs or 0)) % 3]
                        ctx.run(f"epoch:{n}:{layout}:{z}:{bs}:{drop}:{shuffle}", epoch, n, layout, z, bs, drop,
                                shuffle, len(layout) % 2 == 0)
                    if bs and n <= 5 + T:
                        ctx.run(f"index:{n}:{layout}:{bs}:{drop}", indexing, n, layout, bs, drop)
                    if bs and n <= 4 + T:
                        ctx.run(f"perm:{n}:{layout}:{bs}:{drop}", every_shuffle, n, layout, bs, drop)
    # empty shards in every position
    for layout in ((0, 3), (3, 0), (2, 0, 3), (0, 2, 0, 0, 2)):
        n = sum(layout)
        for bs in [None] + list(range(1, n + 2)):
            for shuffle in (False, True):
                ctx.run(f"epoch:{n}:{layout}:flat:{bs}:False:{shuffle}", epoch, n, layout, "flat", bs, False, shuffle, False)
    for n, layout in ((6, (6,)), (7, (2, 5)), (8, (1, 3, 4)), (9, (9,)), (12, (5, 7))):
        for bs in (1, 2, 4):
            ctx.run(f"orders:{n}:{layout}:{bs}", orders, n, layout, bs)
    for n, layout, bs in ((16, (16,), 5), (20, (7, 13), 20), (33, (11, 11, 11), 8)):
        for seed in (0, 3, 2 ** 20):
            for infinite in (False, True):
                ctx.run(f"epochs:{n}:{layout}:{bs}:{seed}:{infinite}", many_epochs, n, layout, bs, seed, infinite)
    for bs in (0, -1, -5):
        ctx.run(f"reject:{bs}", rejected, bs)
    ops = ["nA", "nB", "iA", "iB", "e0", "e2", "draw", "other", "split", "len"]
    core = ["nA", "nB", "iA", "e2", "draw", "other"]
    for (n, layout, bs), infinite, shuffle in itertools.product(
            ((5, (2, 3), 2), (3, (3,), 3), (4, (4,), 2)), (False, True), (True, False)):
        o = ops + (["index"] if not (infinite or shuffle) else [])
        for m in (1, 2, 3):
            for h in itertools.product(o, repeat=m):
                ctx.run(f"h:{n}:{layout}:{bs}:{infinite}:{shuffle}:{','.join(h)}", history, n, layout, bs, infinite,
                        shuffle, h)
        for m in (4, 5) + ((6,) if T else ()):
            if m >= 5 and not shuffle:
                continue
            for h in itertools.product(core, repeat=m):
                ctx.run(f"h:{n}:{layout}:{bs}:{infinite}:{shuffle}:{','.join(h)}", history, n, layout, bs, infinite,
                        shuffle, h)
    # larger data sets
    for n in (13, 16, 31, 32, 33, 64, 65, 100, 128, 129, 256, 257, 1000) + ((513, 4097) if T else ()):
        third = n // 3
        for layout in ((n,), (third, third + 1, n - 2 * third - 1), (1,) * 9 + (n - 9,)):
            for bs in (None, 7, 16, 32, 33, 64, 100, n // 2, n - 1, n, n + 1):
                for drop in (False, True):
                    for shuffle in (False, True):
                        z = ("flat", "col", "two")[(n + len(layout) + (bs or 0)) % 3]
                        ctx.run(f"size:{n}:{len(layout)}:{z}:{bs}:{drop}:{shuffle}", epoch, n, layout, z, bs, drop, shuffle, False)
            for bs in (third, n // 2, n):
                for drop in (False, True):
                    ctx.run(f"isize:{n}:{len(layout)}:{bs}:{drop}", indexing, n, layout, bs, drop)
            for bs in (b for b in (5, 16, 33) if b < n):
                ctx.run(f"osize:{n}:{len(layout)}:{bs}", orders, n, layout, bs)
