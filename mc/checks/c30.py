"""C30 - benchmark functions on lattices over their domains.

Each function is compared, row by row, with a scalar transcription of the
documented formula at every node of a lattice; batches are re-evaluated in
every small row selection to show that rows do not interact.
"""

import itertools
import math

import numpy as np


def _hart(x, dim):
    alpha = [1.0, 1.2, 3.0, 3.2]
    rate = ["10 3 17 3.5 1.7 8", "0.05 10 17 0.1 8 14", "3 3.5 1.7 10 17 8", "17 8 0.05 10 0.1 14"]
    centre = ["1312 1696 5569 124 8283 5886", "2329 4135 8307 3736 1004 9991",
              "2348 1451 3522 2883 3047 6650", "4047 8828 8732 5743 1091 381"]
    total = 0.0
    for a, r, c in zip(alpha, rate, centre):
        r = [float(v) for v in r.split()]
        c = [float(v) / 10000 for v in c.split()]
        total += a * math.exp(-sum(r[j] * (x[j] - c[j]) ** 2 for j in range(dim)))
    return total


def _bore(x):
    rw, r, Tu, Hu, Tl, Hl, L, Kw = x
    ln = math.log(r / rw)
    return 2 * math.pi * Tu * (Hu - Hl) / (ln * (1 + Tu / Tl) + 2 * L * Tu / (rw * rw * Kw))


def _detpep(x):
    s = 4 * (x[0] - 2 + 8 * x[1] - 8 * x[1] ** 2) ** 2 + (3 - 4 * x[1]) ** 2
    s += 16 * math.sqrt(x[2] + 1) * (2 * x[2] - 1) ** 2
    return s + sum(i * math.log(1 + sum(x[2:i])) for i in range(4, 9))


PI = math.pi
F = {
    "twobumps": (1, [(-1.0, 1.0)], lambda x: -(0.7 * x[0] + math.sin(5 * x[0] + 1) + 0.1 * math.sin(10 * x[0]))),
    "wave": (2, [(-1.0, 1.0)] * 2, lambda x: math.exp(1.8 * (x[0] + x[1])) + 3 * x[0] + 6 * x[1] ** 2
             + 3 * math.sin(4 * PI * x[0])),
    "braninhoo": (2, [(-5.0, 10.0), (0.0, 15.0)],
                  lambda x: (x[1] - 5.1 * x[0] ** 2 / (4 * PI * PI) + 5 * x[0] / PI - 6) ** 2
                  + (10 - 10 / (8 * PI)) * math.cos(x[0]) + 10),
    "hartmann4": (4, [(0.0, 1.0)] * 4, lambda x: (1.1 - _hart(x, 4)) / 0.839),
    "hartmann6": (6, [(0.0, 1.0)] * 6, lambda x: -_hart(x, 6)),
    "borehole": (8, [(0.05, 0.15), (100.0, 50000.0), (63070.0, 115600.0), (990.0, 1110.0), (63.1, 116.0),
                     (700.0, 820.0), (1120.0, 1680.0), (9855.0, 12045.0)], _bore),
    "detpep8d": (8, [(0.0, 1.0)] * 8, _detpep),
    "ishigami": (3, [(-PI, PI)] * 3, lambda x: math.sin(x[0]) + 5 * math.sin(x[1]) ** 2
                 + 0.1 * x[2] ** 4 * math.sin(x[0])),
}
LEVELS = {1: (401, 4001), 2: (41, 161), 3: (15, 35), 4: (8, 13), 6: (4, 5), 8: (3, 4)}
MINIMA = {
    "braninhoo": [((-PI, 12.275), 0.397887), ((PI, 2.275), 0.397887), ((9.42478, 2.475), 0.397887)],
    "hartmann6": [((0.20169, 0.150011, 0.476874, 0.275332, 0.311652, 0.6573), -3.32237)],
    "hartmann4": [((0.187395, 0.194152, 0.557918, 0.264780), -3.134494)],
}


def call(name, x):
    import gpmp.misc.testfunctions as T
    return getattr(T, name)(x)


def lattice(name, m, off):
    dim, box, _ = F[name]
    levels = [[lo + (hi - lo) * min(1.0, (k + off * (k < m - 1)) / (m - 1)) for k in range(m)] for lo, hi in box]
    return np.array(list(itertools.product(*levels)))


def values(ctx, name, m, off, part, parts):
    """every node of the lattice, in one batch"""
    x = lattice(name, m, off)[part::parts]
    keep = x.copy()
    y = call(name, x)
    ctx.step(len(x))
    ctx.equal(tuple(np.shape(y)), (len(x),), "one value per row")
    ctx.close(y, [F[name][2](r.tolist()) for r in x], f"{name} on the lattice", rtol=1e-11, atol=1e-11)
    ctx.ok(np.array_equal(x, keep), "input rows changed")
    ctx.state(name, m, off, part)


def rows(ctx, name, n):
    """all selections (with repetition) of n rows among five: rows do not interact"""
    dim, box, f = F[name]
    pool = [[lo + (hi - lo) * (((3 * i + 2 * j) % 7) + 0.5) / 7 for j, (lo, hi) in enumerate(box)] for i in range(5)]
    want = [f(r) for r in pool]
    for pick in itertools.product(range(5), repeat=n):
        x = np.array([pool[i] for i in pick]).reshape(n, dim)
        w = np.array([want[i] for i in pick])
        for form in ("c", "f", "wide", "rev"):
            if form == "f":
                v = np.asfortranarray(x)
            elif form == "wide":           # a strided view
                big = np.full((2 * n, dim), 0.3)
                big[::2] = x
                v = big[::2]
            elif form == "rev":
                v = x[::-1].copy()[::-1]
            else:
                v = x
            y = call(name, v)
            ctx.equal(tuple(np.shape(y)), (n,), "one value per row")
            ctx.close(y, w, f"{name} rows {pick} ({form})", rtol=1e-11, atol=1e-11)
            ctx.step()
        if dim == 1 and n:
            ctx.close(call(name, x.reshape(-1)), w, f"{name} as a vector", rtol=1e-11, atol=1e-11)
        ctx.state(name, pick)


def many(ctx, name, n):
    """larger batches, including repeated rows"""
    dim, box, f = F[name]
    lo, hi = np.array(box, float).T
    k = np.arange(n)[:, None]
    x = lo + (hi - lo) * ((0.5 + k * np.sqrt(np.arange(2.0, 2.0 + dim) + 0.3)) % 1.0)
    x[n // 2] = x[0]
    y = call(name, x)
    ctx.step()
    ctx.equal(tuple(np.shape(y)), (n,), "one value per row")
    ctx.close(y, [f(r.tolist()) for r in x], f"{name} of {n} rows", rtol=1e-10, atol=1e-10)
    ctx.state("many", name, n)


def minima(ctx, name):
    dim, box, f = F[name]
    pts = MINIMA[name]
    x = np.array([p for p, _ in pts])
    y = call(name, x)
    for (p, v), got in zip(pts, y):
        ctx.close(got, v, f"{name} minimum", rtol=0, atol=2e-5)
        for j in range(dim):                # a local minimum of the function
            for h in (-0.05, 0.05):
                q = np.array([p])
                q[0, j] += h * (box[j][1] - box[j][0])
                ctx.ok(float(call(name, q)[0]) > got, f"{name} smaller next to its minimum")
                ctx.step()
    low = call(name, lattice(name, LEVELS[dim][0], 0.0)).min()
    ctx.ok(low > min(v for _, v in pts) - 2e-5, f"{name} below its published minimum")
    ctx.state("min", name)


def explore(ctx):
    for name, (dim, _, _) in F.items():
        m = LEVELS[dim][ctx.thorough]
        parts = 4 if m ** dim > 4000 else 1
        for off in (0.0, 0.37):
            for p in range(parts):
                ctx.run(f"lattice:{name}:{off}:{p}", values, name, m, off, p, parts)
        for n in range(0, 5 if ctx.thorough else 4):
            ctx.run(f"rows:{name}:{n}", rows, name, n)
    for name in MINIMA:
        ctx.run(f"minimum:{name}", minima, name)
    for name in F:
        for n in (13, 32, 33, 64, 65, 100, 101, 128, 129, 256, 257, 1000, 1025):
            ctx.run(f"size:{name}:{n}", many, name, n)
