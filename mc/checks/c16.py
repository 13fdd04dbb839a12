"""C16 - mini-batch criteria aggregate exactly the batches they should.

The criterion records which rows it was given; all histories of evaluation
calls up to a depth are run for every small loader geometry and every number of
batches per evaluation, against a cyclic-walk model.
"""

import itertools

import numpy as np

from mc.checks.c13 import compositions, dataset, ids, sizes_of
from mc.ctx import to_np

PTS = {"a": np.array([0.2, -0.4]), "b": np.array([-0.9, 0.7])}


def crit_value(p, rows):
    """Per-batch criterion (not additive over rows)."""
    i = np.asarray(rows, float)
    return np.exp(0.1 * p[0] * i.mean()) + p[1] * np.sum(i * i) + p[0] * p[1] * len(rows)


def aggregate(p, batches, reduction):
    n = sum(len(b) for b in batches)
    tot = sum(crit_value(p, b) * len(b) for b in batches)
    return tot / n if reduction == "mean" else tot


def build(gnp, visited, ctx, n):
    def crit(p, xb, zb):
        k = ids(ctx, (xb, zb), n)
        visited.append(k)
        i = xb[:, 0] - 0.25
        return gnp.exp(0.1 * p[0] * gnp.mean(i)) + p[1] * gnp.sum(i * i) + p[0] * p[1] * xb.shape[0]
    return crit


def grad(p, batches, reduction):
    tot = np.zeros(2)
    for b in batches:
        i = np.asarray(b, float)
        m = i.mean()
        tot += len(b) * np.array([0.1 * m * np.exp(0.1 * p[0] * m) + p[1] * len(b), np.sum(i * i) + p[0] * len(b)])
    return tot / sum(len(b) for b in batches) if reduction == "mean" else tot


def history(ctx, n, layout, bs, drop, bpe, reduction, infinite, api, hist):
    import gpmp
    import gpmp.num as gnp
    dl = gpmp.dataloader.DataLoader(dataset(n, layout), batch_size=bs, shuffle=False, drop_last=drop, infinite=infinite)
    visited = []
    c = build(gnp, visited, ctx, n)
    if api == "class":
        obj = gnp.BatchDifferentiableSelectionCriterion(c, dl, reduction=reduction, batches_per_eval=bpe)
        ev, pre, nog, gr = obj.evaluate, obj.evaluate_pre_grad, obj.evaluate_no_grad, obj.gradient
    else:
        ev, pre, nog, gr = gpmp.kernel.make_selection_criterion_with_gradient(
            None, lambda m, p, x, z: c(p, x, z), dataloader=dl, batches_per_eval=bpe)
    sizes = sizes_of(n, bs, drop)
    cuts = np.cumsum([0] + sizes)
    loader = [tuple(range(a, b)) for a, b in zip(cuts[:-1], cuts[1:])]
    pos = 0
    for k, op in enumerate(hist):
        ctx.step()
        kind, pt = op.split(":")
        p = PTS[pt]
        if kind == "other":
            # somebody else iterates the same loader between evaluations
            it = iter(dl)
            next(it)
            continue
        if bpe == 0:
            want = loader
        else:
            want = [loader[(pos + j) % len(loader)] for j in range(bpe)]
            pos += bpe
        del visited[:]
        msg = f"{op} after {','.join(hist[:k])}"
        gp = gnp.asarray(p.copy())
        got = {"ev": ev, "pre": pre, "nog": nog}[kind](gp)
        ctx.equal(visited, list(want), f"{msg}: batches visited")
        ctx.close(float(got), aggregate(p, want, reduction), f"{msg}: value", rtol=1e-12, atol=1e-12)
        if kind == "pre" and gr is not None:
            g = gr(gp)
            ctx.equal(len(visited), len(want), f"{msg}: batches visited by the gradient")
            ctx.close(g, grad(p, want, reduction), f"{msg}: gradient", rtol=1e-9, atol=1e-9)
        ctx.ok(np.array_equal(to_np(gp), p) and not getattr(gp, "requires_grad", False), f"{msg}: argument changed")
        ctx.state(n, bs, drop, bpe, reduction, pos % max(1, len(loader)), op)


def average(ctx, n, layout, bs, drop, shuffle, kind):
    """Averaging a batch function over the loader."""
    import gpmp
    import gpmp.num as gnp
    dl = gpmp.dataloader.DataLoader(dataset(n, layout), batch_size=bs, shuffle=shuffle, drop_last=drop, seed=3)
    sizes = sizes_of(n, bs, drop)
    used = sum(sizes)
    x = np.stack([np.arange(n) + 0.25, 100.0 - np.arange(n)], axis=1)
    for _ in range(2):
        seen = []

        def f(xb, zb):
            seen.extend(ids(ctx, (xb, zb), n))
            v = gnp.mean(xb, axis=0)
            if kind == "vector":
                return v
            if kind == "matrix":
                return gnp.matmul(xb.T, xb) / xb.shape[0]
            return v[0] * 1.0
        got = dl.reduce_mean(f)
        ctx.equal(len(seen), used, "rows used")
        ctx.equal(len(set(seen)), used, "a row used twice")
        xs = x[sorted(seen)]
        want = {"vector": xs.mean(0), "matrix": xs.T @ xs / used, "scalar": xs[:, 0].mean()}[kind]
        ctx.close(got, want, f"average of a {kind} over the loader", rtol=1e-12, atol=1e-12, shape=kind != "scalar")
        ctx.state("avg", n, bs, drop, kind)


def rejected(ctx, what):
    import gpmp
    import gpmp.num as gnp
    from gpmp.dataloader import DataLoader
    ds = dataset(3, (3,))
    dl = DataLoader(ds, batch_size=2, shuffle=False)
    empty = DataLoader(ds, batch_size=5, shuffle=False, drop_last=True)
    c = build(gnp, [], ctx, 3)
    p = gnp.asarray(PTS["a"])
    C = gnp.BatchDifferentiableSelectionCriterion

    x, z = ds.x_list[0], ds.z_list[0]
    make = gpmp.kernel.make_selection_criterion_with_gradient
    cr = lambda m, q, a, b: c(q, a, b)  # noqa: E731
    bad = {
        "reduction": lambda: C(c, dl, reduction="median"),
        "batches": lambda: C(c, dl, batches_per_eval=-1),
        "empty value": lambda: C(c, empty).evaluate(p),
        "empty no grad": lambda: C(c, empty).evaluate_no_grad(p),
        "empty grad": lambda: C(c, empty).evaluate_pre_grad(p),
        "empty cyclic": lambda: C(c, empty, batches_per_eval=1).evaluate(p),
        "no data": lambda: make(None, cr),
        "both data": lambda: make(None, cr, x, z, dl),
        "only inputs": lambda: make(None, cr, x),
    }
    ctx.raises(Exception, bad[what], what)


REJECTED = ["reduction", "batches", "empty value", "empty no grad", "empty grad", "empty cyclic", "no data", "both data",
            "only inputs"]


def explore(ctx):
    T = ctx.thorough
    ops = ["ev:a", "pre:a", "pre:b", "nog:b", "other:a"]
    for n, layout, bs in ((5, (5,), 2), (5, (2, 3), 3), (4, (1, 3), 4), (6, (6,), 2), (3, (1, 1, 1), 1), (7, (3, 4), 3)):
        nb = len(sizes_of(n, bs, False))
        for drop in (False, True):
            for bpe in range(0, nb + 3):
                for reduction in ("mean", "sum"):
                    for depth in (1, 2, 3) + ((4, 5) if T else ()):
                        for h in itertools.product(ops, repeat=depth):
                            if all(o.startswith("other") for o in h):
                                continue
                            api = "class" if (reduction == "sum" or depth % 2) else "maker"
                            ctx.run(f"h:{n}:{layout}:{bs}:{drop}:{bpe}:{reduction}:{api}:{','.join(h)}", history, n,
                                    layout, bs, drop, bpe, reduction, False, api, h)
                if bpe:
                    # long walks: the cycle closes several times
                    for o in ("ev:a", "pre:b", "nog:a"):
                        h = (o,) * (3 * nb + 1)
                        for inf in (False, True):
                            ctx.run(f"w:{n}:{layout}:{bs}:{drop}:{bpe}:{inf}:{o}", history, n, layout, bs, drop, bpe,
                                    "mean", inf, "class", h)
    for n in range(1, 6 + T):
        for layout in compositions(n):
            for bs in range(1, n + 1):
                for drop in (False, True):
                    for shuffle in (False, True):
                        for kind in ("scalar", "vector", "matrix"):
                            ctx.run(f"avg:{n}:{layout}:{bs}:{drop}:{shuffle}:{kind}", average, n, layout, bs, drop, shuffle, kind)
    for w in REJECTED:
        ctx.run(f"reject:{w}", rejected, w)
    # larger loaders
    for n, layout, bs in ((100, (100,), 16), (100, (37, 63), 33), (257, (257,), 32), (130, (64, 66), 64), (1000, (1000,), 100), (1000, (1000,), 600), (2500, (1200, 1300), 1100)):
        nb = len(sizes_of(n, bs, False))
        for drop in (False, True):
            for bpe in (0, 1, 2, 3, nb - 1, nb, nb + 1):
                for o in (("ev:a", "pre:b"), ("pre:a",), ("nog:b", "other:a", "ev:b")):
                    h = (o * (2 * nb))[:2 * nb + 1]
                    ctx.run(f"size:{n}:{layout}:{bs}:{drop}:{bpe}:{o}", history, n, layout, bs, drop, bpe, "mean", False, "class", h)
            for shuffle in (False, True):
                for kind in ("scalar", "vector", "matrix"):
                    ctx.run(f"size:avg:{n}:{layout}:{drop}:{shuffle}:{kind}", average, n, layout, bs, drop, shuffle, kind)
