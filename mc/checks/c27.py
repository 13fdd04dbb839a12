"""C27 - experimental designs.

Designs are generated for every small dimension, size and box; those drawn at
random are driven through scripted candidate sequences, so that every order in
which better and worse candidates can turn up is seen.
"""

import contextlib
import itertools
import math

import numpy as np

BOXES = {1: [[[0.0], [1.0]], [[-2.0], [3.0]]],
         2: [[[0.0, 0.0], [1.0, 1.0]], [[-1.0, 5.0], [1.0, 5.5]]],
         3: [[[0.0] * 3, [1.0] * 3], [[-3.0, 0.0, 10.0], [-1.0, 0.1, 20.0]]],
         4: [[[-1.0] * 4, [1.0] * 4], [[0.0, 1.0, 2.0, 3.0], [1.0, 3.0, 5.0, 7.0]]],
         9: [[[0.0] * 9, [1.0] * 9]], 60: [[[0.0] * 60, [2.0] * 60]]}


def D():
    import gpmp.misc.designs as d
    return d


def forms(box):
    return (box, np.array(box), tuple(tuple(b) for b in box))


def inside(ctx, x, box, n, d, msg):
    ctx.equal(tuple(x.shape), (n, d), f"{msg}: shape")
    lo, hi = np.array(box[0]), np.array(box[1])
    pad = 1e-12 * (1 + np.abs(lo) + np.abs(hi))
    ctx.ok(bool(np.all(x >= lo - pad) and np.all(x <= hi + pad)), f"{msg}: points outside the box")
    ctx.ok(bool(np.all(np.isfinite(x))), f"{msg}: not finite")


def affine(u, box):
    lo, hi = np.array(box[0]), np.array(box[1])
    return lo + np.asarray(u) * (hi - lo)


# -- grids ---------------------------------------------------------------------------
def grid(ctx, d, n, box):
    levels = [n] * d if isinstance(n, int) else list(n)
    keep = list(levels)
    for b in forms(box):
        x = D().regulargrid(d, n, b)
        ctx.step()
        total = int(np.prod(levels))
        inside(ctx, x, box, total, d, f"grid {n}")
        axes = [[box[0][i] + (box[1][i] - box[0][i]) * k / max(1, m - 1) for k in range(m)] for i, m in enumerate(levels)]
        want = np.array(list(itertools.product(*axes)))
        order = np.lexsort(np.round(x, 9).T[::-1])
        ref = np.lexsort(np.round(want, 9).T[::-1])
        ctx.close(x[order], want[ref], f"grid {n}: nodes", rtol=1e-12, atol=1e-12)
        for corner in itertools.product((0, 1), repeat=d):
            if all(m > 1 or c == 0 for m, c in zip(levels, corner)):
                p = [box[c][i] for i, c in enumerate(corner)]
                ctx.ok(bool(np.any(np.all(x == p, axis=1))), f"grid {n}: corner {p} missing")
    ctx.equal(levels, keep, "level list changed")
    ctx.state("grid", d, n, box)


# -- scaling ---------------------------------------------------------------------------
def scaling(ctx, d, box):
    u = np.array(list(itertools.product((0.0, 0.125, 0.5, 1.0), repeat=d))) if d < 5 else np.full((3, d), 0.25)
    for b in forms(box):
        keep = u.copy()
        x = D().scale(u, b)
        ctx.step()
        ctx.close(x, affine(u, box), "affine map", rtol=1e-12, atol=1e-12)
        ctx.ok(np.array_equal(u, keep), "unit sample changed")
    ctx.state("scale", d, box)


# -- criteria ---------------------------------------------------------------------------
def pair(x):
    return [math.sqrt(sum((a - b) ** 2 for a, b in zip(p, q))) for p, q in itertools.combinations(x.tolist(), 2)]


def centred(x):
    """centred L2 discrepancy, squared (Hickernell)"""
    n, d = x.shape
    a = np.abs(x - 0.5)
    first = (13 / 12) ** d
    second = 2 / n * sum(math.prod(1 + 0.5 * v - 0.5 * v * v for v in r) for r in a.tolist())
    third = sum(math.prod(1 + 0.5 * a[i, k] + 0.5 * a[j, k] - 0.5 * abs(x[i, k] - x[j, k]) for k in range(d))
                for i in range(n) for j in range(n)) / n ** 2
    return first - second + third


def criteria(ctx, d, m, n, part):
    nodes = list(itertools.product(*[[k / (m - 1) for k in range(m)]] * d))
    box = BOXES[d][1]
    probe = affine(np.array(list(itertools.product((0.0, 0.3, 0.75, 1.0), repeat=d))), box)
    for sel in itertools.islice(itertools.combinations_with_replacement(range(len(nodes)), n), part, None, 4):
        x = np.array([nodes[i] for i in sel])
        ctx.step()
        if n > 1:
            ctx.close(D().maxdist(x), max(pair(x)), "largest distance", rtol=1e-12, atol=1e-12)
            ctx.close(D().mindist(x), min(pair(x)), "smallest distance", rtol=1e-12, atol=1e-12)
        ctx.close(D().discrepancy(x), centred(x), "discrepancy", rtol=1e-9, atol=1e-11)
        y = affine(x, box)
        want = max(min(math.dist(p, q) for q in y.tolist()) for p in probe.tolist())
        ctx.close(D().filldist_approx(y, box, x=probe), want, "fill distance", rtol=1e-12, atol=1e-12)
        ctx.state(d, sel)


def sized(ctx, d, n):
    """Larger designs."""
    k = np.arange(n)[:, None]
    x = (0.5 + k * np.sqrt(np.array([2.0, 3.0, 5.0, 7.0, 11.0, 13.0, 17.0, 19.0])[:d])) % 1.0
    box = [[-1.0 + j for j in range(d)], [2.0 + 3 * j for j in range(d)]]
    dist = np.sqrt(((x[:, None] - x[None]) ** 2).sum(-1))
    off = dist[~np.eye(n, dtype=bool)]
    ctx.step()
    ctx.close(D().maxdist(x), off.max(), "largest distance", rtol=1e-10)
    ctx.close(D().mindist(x), off.min(), "smallest distance", rtol=1e-9)
    a = np.abs(x - 0.5)
    want = (13 / 12) ** d - 2 / n * np.prod(1 + 0.5 * a - 0.5 * a * a, axis=1).sum() + np.prod(
        1 + 0.5 * a[:, None] + 0.5 * a[None] - 0.5 * np.abs(x[:, None] - x[None]), axis=2).sum() / n ** 2
    ctx.close(D().discrepancy(x), want, "discrepancy", rtol=1e-8, atol=1e-11)
    y = affine(x, box)
    probe = affine((0.25 + np.arange(max(300, n))[:, None] * np.sqrt(np.arange(2.0, 2.0 + d) + 0.3)) % 1.0, box)
    want = np.sqrt(((probe[:, None] - y[None]) ** 2).sum(-1)).min(1).max()
    ctx.close(D().filldist_approx(y, box, x=probe), want, "fill distance", rtol=1e-10)
    ctx.close(D().scale(x, box), y, "affine map", rtol=1e-12, atol=1e-12)
    ctx.state("sized", d, n)


def fill_random(ctx, d, n, k):
    """without given points: the box itself is probed with n uniform points"""
    box = BOXES[d][1]
    y = affine(np.array([[((3 * i + j) % 5) / 4 for j in range(d)] for i in range(k)]), box)
    with numbers(lambda i, shape: [((i * 7 + t * 3) % 11 + 0.5) / 11 for t in range(math.prod(shape))]) as seen:
        got = D().filldist_approx(y, box, n=n)
    if seen:
        ctx.equal([s for s, _ in seen], [(n, d)], "one probe sample")
        probe = affine(seen[0][1], box)
        ctx.close(got, max(min(math.dist(p, q) for q in y.tolist()) for p in probe.tolist()), "fill distance",
                  rtol=1e-12, atol=1e-12)
    longest = math.dist(box[0], box[1])
    ctx.ok(0 < got <= longest, "fill distance out of range")
    ctx.step()
    ctx.state("fill", d, n, k)


# -- designs drawn at random -----------------------------------------------------------------
@contextlib.contextmanager
def numbers(fn):
    """replaces np.random.rand; fn(call number, shape) lists the values"""
    seen = []
    real = np.random.rand

    def rand(*shape):
        v = np.array(fn(len(seen), shape), dtype=float).reshape(shape)
        seen.append((tuple(shape), v.copy()))
        return v
    np.random.rand = rand
    try:
        yield seen
    finally:
        np.random.rand = real


@contextlib.contextmanager
def squares(script=None):
    """records (and replaces by the script) what the Latin-hypercube engine delivers"""
    from scipy.stats import qmc
    seen = []
    real = qmc.LatinHypercube.random

    def random(self, n=1, **kw):
        v = real(self, n, **kw) if script is None else np.array(script[len(seen) % len(script)])
        seen.append(v.copy())
        return v
    qmc.LatinHypercube.random = random
    try:
        yield seen
    finally:
        qmc.LatinHypercube.random = real


def uniform(ctx, d, n, box):
    x = D().randunif(d, n, box)
    inside(ctx, x, box, n, d, "uniform")
    with numbers(lambda i, shape: [(t % 8) / 8 for t in range(math.prod(shape))]) as seen:
        x = D().randunif(d, n, box)
    if seen:
        ctx.equal(len(seen), 1, "one draw")
        ctx.close(x, affine(seen[0][1], box), "uniform draw mapped to the box", rtol=1e-12, atol=1e-12)
    if n * d > 1:
        np.random.seed(3)
        y = D().randunif(d, max(n, 2), box)
        ctx.ok(np.unique(y, axis=0).shape[0] == max(n, 2), "repeated points in a uniform sample")
    ctx.step()
    ctx.state("unif", d, n, box)


def low_discrepancy(ctx, d, n, box, perm, iters):
    """candidates in the order of `perm`: the one of smallest discrepancy is kept"""
    pool = [np.array([[((k + 2) * i * (j + 1) % 9 + 0.3 * k + 0.1) / 10 for j in range(d)] for i in range(n)]) for k in range(4)]
    with numbers(lambda i, shape: pool[perm[i % len(perm)]]) as seen:
        x = D().ldrandunif(d, n, box, max_iter=iters)
    inside(ctx, x, box, n, d, "low-discrepancy")
    if len(seen) == iters:
        vals = [centred(v) for _, v in seen]
        best = min(vals)
        ok = [affine(v, box) for (_, v), c in zip(seen, vals) if c <= best * (1 + 1e-9) + 1e-13]
        ctx.ok(any(np.allclose(x, y, rtol=1e-12, atol=1e-12) for y in ok), f"not the candidate of smallest discrepancy {vals}")
    ctx.step()
    ctx.state("ld", d, n, perm, iters)


def slices(ctx, x, box, n, d, msg):
    inside(ctx, x, box, n, d, msg)
    lo, hi = np.array(box[0]), np.array(box[1])
    k = np.floor((x - lo) / (hi - lo) * n).astype(int)
    for j in range(d):
        ctx.equal(sorted(k[:, j].tolist()), list(range(n)), f"{msg}: one point per slice of axis {j}")


def latin(ctx, which, d, n, box, repeats):
    for _ in range(repeats):
        with squares() as seen:
            x = D().maximinlhs(d, n, box, max_iter=7) if which == "maximin" else D().maximinldlhs(d, n, box)
        slices(ctx, x, box, n, d, which)
        if seen and n > 1 and all(v.shape == (n, d) for v in seen):
            vals = [min(pair(v)) for v in seen]
            ok = [affine(v, box) for v, c in zip(seen, vals) if c >= max(vals) * (1 - 1e-12)]
            ctx.ok(any(np.allclose(x, y, rtol=1e-12, atol=1e-12) for y in ok), f"{which}: not the candidate of largest separation")
        ctx.step()
    ctx.state(which, d, n, box)


def candidates(d, n):
    """Latin hypercubes of different separations"""
    out = []
    for k in range(4):
        x = np.empty((n, d))
        for j in range(d):
            p = [(i * (1 if k == 0 or j == 0 else (k + 1)) + j * k) % n for i in range(n)]
            if len(set(p)) < n:
                p = list(range(n)) if k % 2 else [(i + n // 2) % n for i in range(n)]
            x[:, j] = [(v + 0.2 + 0.15 * ((k + i + j) % 3)) / n for i, v in enumerate(p)]
        out.append(x)
    return out


def latin_script(ctx, which, d, n, box, script):
    pool = candidates(d, n)
    seq = [pool[k] for k in script]
    with squares(seq) as seen:
        x = (D().maximinlhs(d, n, box, max_iter=len(script)) if which == "maximin" else D().maximinldlhs(d, n, box))
    slices(ctx, x, box, n, d, which)
    if seen:
        if which == "maximin":
            ctx.equal(len(seen), len(script), "number of candidates")
        vals = [min(pair(v)) for v in seen]
        ok = [affine(v, box) for v, c in zip(seen, vals) if c >= max(vals) * (1 - 1e-12)]
        ctx.ok(any(np.allclose(x, y, rtol=1e-12, atol=1e-12) for y in ok), f"{which} {script}: not the candidate of largest separation {vals}")
    ctx.step()
    ctx.state(which, d, n, script)


def explore(ctx):
    T = ctx.thorough
    for d, boxes in BOXES.items():
        for bi, box in enumerate(boxes):
            ctx.run(f"scale:{d}:{bi}", scaling, d, box)
            for n in (1, 2, 3, 5, 8):
                ctx.run(f"uniform:{d}:{n}:{bi}", uniform, d, n, box)
            if d > 4:
                for n in (1, 2, 5):
                    for which in ("maximin", "ld"):
                        ctx.run(f"latin:{which}:{d}:{n}:{bi}", latin, which, d, n, box, 1)
                    ctx.run(f"ld:{d}:{n}:{bi}", low_discrepancy, d, n, box, (0, 1), 2)
                continue
            for n in range(1, 6):
                ctx.run(f"grid:{d}:{n}:{bi}", grid, d, n, box)
            for n in itertools.product(range(1, 5), repeat=d):
                if np.prod(n) <= 150:
                    ctx.run(f"grid:{d}:{n}:{bi}", grid, d, list(n), box)
            for n in range(1, 9 if T else 7):
                for which in ("maximin", "ld"):
                    ctx.run(f"latin:{which}:{d}:{n}:{bi}", latin, which, d, n, box, 6 if T else 3)
                for it in (1, 2, 3, 4):
                    for perm in itertools.permutations(range(4), it):
                        ctx.run(f"ld:{d}:{n}:{bi}:{perm}", low_discrepancy, d, n, box, perm, it)
            for n in (2, 3, 5):
                for L in (1, 2, 3, 4) + ((5,) if T else ()):
                    for script in itertools.product(range(4), repeat=L):
                        ctx.run(f"script:maximin:{d}:{n}:{bi}:{script}", latin_script, "maximin", d, n, box, script)
                for script in itertools.permutations(range(4)):
                    ctx.run(f"script:ld:{d}:{n}:{bi}:{script}", latin_script, "ld", d, n, box, script)
    for d, m, ns in ((1, 5, (1, 2, 3, 4)), (2, 3, (1, 2, 3)), (3, 2, (1, 2, 3)), (2, 4, (2,)), (4, 2, (1, 2))):
        for n in ns + ((4,) if T and d < 4 else ()):
            for part in range(4):
                ctx.run(f"criteria:{d}:{m}:{n}:{part}", criteria, d, m, n, part)
    for d in (1, 2, 3):
        for n in (1, 2, 9):
            for k in (1, 3, 5):
                ctx.run(f"fill:{d}:{n}:{k}", fill_random, d, n, k)
    for d in (1, 2, 5, 8):
        box = [[-1.0 + j for j in range(d)], [2.0 + 3 * j for j in range(d)]]
        for n in (10, 13, 32, 33, 64, 65, 100, 101, 128, 129, 257) + ((700, 1100) if d < 3 else ()):
            ctx.run(f"size:{d}:{n}", sized, d, n)
            ctx.run(f"size:unif:{d}:{n}", uniform, d, n, box)
            if n < 66:
                for which in ("maximin", "ld"):
                    ctx.run(f"size:{which}:{d}:{n}", latin, which, d, n, box, 1)
    for d, n in ((1, 50), (1, 257), (2, 33), (2, [65, 4]), (3, 11), (5, 3), (6, 2), (6, [1, 2, 3, 2, 1, 3]), (1, 1500), (2, 190), (8, 4)):
        ctx.run(f"size:grid:{d}:{n}", grid, d, n, [[-1.0 + j for j in range(d)], [2.0 + 3 * j for j in range(d)]])
