"""C20 - seeding makes every random facility of the numerical layer reproducible.

Explored: all sequences of random calls up to a length, for several seeds,
replayed after the same seed with the global generators of NumPy, Python and
PyTorch in another state; supports and shapes for all small sizes; the linear
structure of multivariate normal draws.
"""

import itertools
import random

import numpy as np

from mc.ctx import to_np

SEEDS = (0, 1, 20240, 2**31 - 1)
P5 = [0.0, 0.5, 0.0, 0.25, 0.25]
COV = np.array([[2.0, 0.6], [0.6, 0.5]])


def scramble(k):
    """Put every generator the library does not own in another state."""
    np.random.seed(1000 + k)
    random.seed(2000 + k)
    np.random.rand(k + 1)
    try:
        import torch
        torch.manual_seed(3000 + k)
        torch.rand(k + 1)
    except ImportError:
        pass


def small_model():
    import gpmp.num as gnp
    from gpmp import core, kernel
    cov = lambda x, y, th, pairwise=False: kernel.maternp_covariance(x, y, 1, th, pairwise)
    return core.Model(None, cov, None, gnp.asarray(np.array([0.1, -0.3])), "zero")


def paths(method):
    def call():
        import gpmp.num as gnp
        xt = gnp.asarray(np.linspace(0, 1, 3).reshape(-1, 1))
        return small_model().sample_paths(xt, 2, method=method)
    return call


def metropolis():
    import gpmp.num as gnp
    from gpmp.mcmc import mh
    opt = mh.MHOptions(dim=2, n_chains=2)
    for flag in ("init_msg", "show_global_progress", "show_burnin_progress"):
        if hasattr(opt, flag):
            setattr(opt, flag, False)
    opt.adaptation_interval = 3
    opt.discard_burnin = False
    sampler = mh.MetropolisHastings(log_target=lambda x: -0.5 * (gnp.asarray(x) ** 2).sum(), options=opt)
    return sampler.scheduler(gnp.asarray(np.zeros((2, 2))), n_steps_total=8, burnin_period=4)


def ops():
    import gpmp.num as gnp
    arr = np.arange(8.0).reshape(4, 2)
    mvn = gnp.multivariate_normal
    return [
        ("rand()", lambda: gnp.rand()),
        ("rand(3)", lambda: gnp.rand(3)),
        ("rand(2,2)", lambda: gnp.rand(2, 2)),
        ("randn()", lambda: gnp.randn()),
        ("randn(3)", lambda: gnp.randn(3)),
        ("randn(2,3)", lambda: gnp.randn(2, 3)),
        ("permutation(6)", lambda: gnp.permutation(6)),
        ("choice(9)", lambda: gnp.choice(9, size=4)),
        ("choice(9) without", lambda: gnp.choice(9, size=6, replace=False)),
        ("choice(5) weighted", lambda: gnp.choice(5, size=7, p=P5)),
        ("normal scalar", lambda: mvn.rvs(1.0, 4.0, n=3)),
        ("normal matrix", lambda: mvn.rvs(gnp.asarray(np.array([1.0, -1.0])), gnp.asarray(COV), n=2)),
        ("rand(1,5)", lambda: gnp.rand(1, 5)),
        # longer operations, used at length <= 2
        ("permutation(rows)", lambda: gnp.permutation(gnp.asarray(arr.copy()))),
        ("choice(5) weighted without", lambda: gnp.choice(5, size=3, replace=False, p=P5)),
        ("normal 1x1", lambda: mvn.rvs(0.0, gnp.asarray(np.array([[2.0]])), n=4)),
        ("normal matrix 5", lambda: mvn.rvs(0.0, gnp.asarray(COV), n=5)),
        ("paths chol", paths("chol")),
        ("paths svd", paths("svd")),
        ("metropolis", metropolis),
    ]


N_BASE = 13


def play(seq, table):
    return [np.array(to_np(table[i][1]()), dtype=float).copy() for i in seq]


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b))


def history(ctx, seq, seed):
    import gpmp.num as gnp
    table = ops()
    names = [table[i][0] for i in seq]
    gnp.set_seed(seed)
    scramble(0)
    first = play(seq, table)
    gnp.set_seed(seed)
    scramble(1)
    again = []
    for k, i in enumerate(seq):
        again += play([i], table)
        scramble(k + 2)
        ctx.step()
    ctx.ok(same(first, again), f"{names} after seed {seed}: {[v.tolist() for v in first]} then {[v.tolist() for v in again]}")
    # a seed set in the middle starts again from the beginning
    gnp.set_seed(seed)
    tail = play(seq[-1:], table)
    gnp.set_seed(seed)
    alone = play(seq[-1:], table)
    ctx.ok(same(tail, alone), f"{names[-1]} after reseeding")
    ctx.state("h", seq, seed)
    # distinct seeds give distinct draws
    gnp.set_seed(seed + 1)
    other = play(seq, table)
    if sum(v.size for v, k in zip(first, names) if "choice" not in k and "rows" not in k) >= 6:
        ctx.ok(not same(first, other), f"{names}: seeds {seed} and {seed + 1} give the same draws {[v.tolist() for v in first]}")
    # repeated calls advance the generator
    for a, b in itertools.combinations(range(len(seq)), 2):
        if seq[a] == seq[b] and first[a].size >= 3 and "choice(5)" not in names[a] and "rows" not in names[a]:
            ctx.ok(not np.array_equal(first[a], first[b]), f"{names}: two successive draws are equal: {first[a].tolist()}")


def supports(ctx, seed):
    import gpmp.num as gnp
    gnp.set_seed(seed)
    for shape in ((1,), (4,), (0,), (3, 2), (1, 1), (2, 0), (2, 3, 2)):
        u = to_np(gnp.rand(*shape))
        ctx.equal(u.shape, shape, "shape of uniform draws")
        ctx.ok(((u >= 0) & (u < 1)).all(), f"uniform draw outside [0,1): {u.tolist()}")
        ctx.equal(u.dtype, np.dtype(float), "type of uniform draws")
        z = to_np(gnp.randn(*shape))
        ctx.equal(z.shape, shape, "shape of normal draws")
        ctx.equal(z.dtype, np.dtype(float), "type of normal draws")
        ctx.ok(np.isfinite(z).all(), "normal draw not finite")
        if z.size > 1:
            ctx.equal(len(np.unique(z)), z.size, "normal draws repeat")
            ctx.equal(len(np.unique(u)), u.size, "uniform draws repeat")
    for z in (gnp.rand(), gnp.randn()):
        ctx.equal(np.size(to_np(z)), 1, "size of a single draw")
    for n in range(1, 8):
        ctx.step()
        p = to_np(gnp.permutation(n))
        ctx.equal(sorted(p.tolist()), list(range(n)), f"permutation of {n}")
        rows = np.arange(2.0 * n).reshape(n, 2) + 10
        g = gnp.asarray(rows.copy())
        r = to_np(gnp.permutation(g))
        ctx.equal(sorted(map(tuple, r.tolist())), sorted(map(tuple, rows.tolist())), "permuted rows")
        ctx.ok(np.array_equal(to_np(g), rows), "permutation changed its argument")
        for size in range(0, 8):
            c = to_np(gnp.choice(n, size=size))
            ctx.equal(c.shape, (size,), "number of choices")
            ctx.ok(((c >= 0) & (c < n)).all(), f"choice outside the population: {c}")
            vals = np.array([0.5, 7.0, -3.0, 2.0, 11.0, 6.0, 4.0])[:n]
            v = to_np(gnp.choice(gnp.asarray(vals), size=size))
            ctx.ok(set(v.tolist()) <= set(vals.tolist()), f"choice {v} from {vals}")
            if size <= n:
                w = to_np(gnp.choice(n, size=size, replace=False))
                ctx.equal(w.shape, (size,), "number of choices without replacement")
                ctx.equal(len(set(w.tolist())), size, f"repeated choices {w.tolist()}")
            else:
                ctx.raises((ValueError, RuntimeError), lambda: gnp.choice(n, size=size, replace=False),
                           f"{size} choices without replacement among {n}")
    ctx.state("supports", seed)


def large(ctx, seed):
    """Supports, shapes and gross moments of long draws."""
    import gpmp.num as gnp
    gnp.set_seed(seed)
    for n in (9, 10, 16, 33, 64, 100, 128, 129, 500, 1000, 1025):
        ctx.step()
        p = to_np(gnp.permutation(n))
        ctx.equal(sorted(p.tolist()), list(range(n)), f"permutation of {n}")
        ctx.ok(p.tolist() != list(range(n)), f"permutation of {n} leaves everything in place")
        rows = np.arange(3.0 * n).reshape(n, 3)
        r = to_np(gnp.permutation(gnp.asarray(rows.copy())))
        ctx.equal(sorted(map(tuple, r.tolist())), list(map(tuple, rows.tolist())), "permuted rows")
        for size in (1, n // 2, n - 1, n):
            w = to_np(gnp.choice(n, size=size, replace=False))
            ctx.equal((w.shape, len(set(w.tolist()))), ((size,), size), f"{size} choices without replacement among {n}")
            ctx.ok(((w >= 0) & (w < n)).all(), "choice outside the population")
        c = to_np(gnp.choice(n, size=3 * n))
        ctx.ok(((c >= 0) & (c < n)).all() and len(set(c.tolist())) < 3 * n, "choices with replacement")
        q = np.where(np.arange(n) % 3 == 0, 0.0, 1.0 + np.arange(n))
        w = to_np(gnp.choice(n, size=n, p=(q / q.sum()).tolist()))
        ctx.ok((q[w] > 0).all(), "value of probability zero chosen")
        for shape in ((n,), (n, 4), (2, n)):
            u, z = to_np(gnp.rand(*shape)), to_np(gnp.randn(*shape))
            ctx.equal((u.shape, z.shape), (shape, shape), "shape of draws")
            ctx.ok(((u >= 0) & (u < 1)).all(), "uniform draw outside [0,1)")
            ctx.equal((len(np.unique(u)), len(np.unique(z))), (u.size, z.size), "draws repeat")
            if z.size >= 500:       # six standard deviations or more
                e = 6.0 / np.sqrt(z.size)
                ctx.ok(abs(z.mean()) < e and abs(z.var() - 1) < 1.5 * e, f"normal draws: mean {z.mean()}, variance {z.var()}")
                ctx.ok(abs(u.mean() - 0.5) < 0.3 * e and abs(u.var() - 1 / 12) < 0.08 * e, f"uniform draws: mean {u.mean()}, variance {u.var()}")
    ctx.state("large", seed)


def weighted(ctx, mask, seed):
    """Values of probability zero are never chosen; all positive ones can be drawn without replacement."""
    import gpmp.num as gnp
    k = sum(mask)
    p = np.array([m * (1 + i) for i, m in enumerate(mask)], float)
    p /= p.sum()
    gnp.set_seed(seed)
    allowed = {i for i, m in enumerate(mask) if m}
    ctx.state("w", mask, seed)
    for size in (1, 5, 40):
        c = to_np(gnp.choice(len(mask), size=size, p=p.tolist()))
        ctx.ok(set(c.tolist()) <= allowed, f"chosen {set(c.tolist())} with probabilities {p.tolist()}")
    c = to_np(gnp.choice(len(mask), size=400, p=p.tolist()))
    ctx.equal(set(c.tolist()), allowed, "values never chosen in 400 draws")
    w = to_np(gnp.choice(len(mask), size=k, replace=False, p=p.tolist()))
    ctx.equal(set(w.tolist()), allowed, "choices without replacement of all positive values")


def linear(ctx, d, name, seed):
    """Draws with covariance C are a linear image A z of those with covariance I, with A A' = C."""
    import gpmp.num as gnp
    mvn = gnp.multivariate_normal
    B = {"spd": lambda: np.eye(d) * 0.5 + 0.3, "diag": lambda: np.diag(np.arange(1.0, d + 1)),
         "scaled": lambda: 1e-4 * (np.eye(d) + 0.2), "toeplitz": lambda: 0.7 ** np.abs(np.subtract.outer(np.arange(d), np.arange(d)))}[name]()
    n = d + 3

    def draw(mean, cov):
        gnp.set_seed(seed)
        return np.asarray(to_np(mvn.rvs(mean, cov, n=n)), float).reshape(n, -1)
    z = draw(0.0, gnp.asarray(np.eye(d)))
    ctx.equal(z.shape, (n, d), "shape of draws")
    y = draw(0.0, gnp.asarray(B))
    A, res, rk, _ = np.linalg.lstsq(z, y, rcond=None)
    ctx.equal(rk, d, "independent draws")
    ctx.close(z @ A, y, "draws are linear in standard draws", atol=1e-8 * np.sqrt(B.max()))
    ctx.close(A.T @ A, B, "covariance of the draws", rtol=1e-7, atol=1e-9 * B.max())
    m = np.arange(1.0, d + 1)
    ctx.close(draw(gnp.asarray(m), gnp.asarray(B)), y + m, "draws with a mean")
    ctx.close(draw(2.5, gnp.asarray(B)), y + 2.5, "draws with a common mean")
    gnp.set_seed(seed)
    ctx.close(np.asarray(to_np(mvn.rvs(cov=gnp.asarray(B), n=n)), float).reshape(n, -1), y, "draws with the default mean")
    gnp.set_seed(seed)
    one = np.asarray(to_np(mvn.rvs(gnp.asarray(m), gnp.asarray(B))), float).reshape(-1)
    ctx.equal(one.shape, (d,), "shape of a single draw")
    ctx.equal(np.asarray(to_np(mvn.rvs()), float).size, 1, "size of a draw of the default law")
    ctx.step()
    if d == 1:
        gnp.set_seed(seed)
        ctx.close(np.asarray(to_np(mvn.rvs(n=n)), float).reshape(n, -1), draw(0.0, 1.0), "draws of the default law")
        for cov in (4.0, gnp.asarray(np.array(4.0)), gnp.asarray(np.array([[4.0]]))):
            ctx.close(draw(3.0, cov), 3.0 + 2.0 * draw(0.0, 1.0), "scalar variance")
    ctx.state("lin", d, name, seed)


def nuts(ctx, seed, before):
    import gpmp.num as gnp
    from gpmp.mcmc import nuts as N
    lp = lambda x: -0.5 * (x ** 2).sum()

    def go(s, k):
        gnp.set_seed(77 + k)
        gnp.rand(before + k)
        scramble(k)
        q = gnp.asarray(np.array([[0.3, -0.2], [1.0, 0.4]]))
        smp, info = N.nuts_sample(lp, q, num_samples=5, num_warmup=6, max_depth=3, seed=s, progress=False)
        ctx.step()
        return to_np(smp).copy()
    a, b, c = go(seed, 0), go(seed, 3), go(seed + 1, 0)
    ctx.ok(np.array_equal(a, b), "the same seed gives different samples")
    ctx.ok(not np.array_equal(a, c), "different seeds give the same samples")
    gnp.set_seed(seed)
    u = to_np(gnp.rand(3))
    go(None, 1), go(None, 1)
    d, e = go(None, 5), go(None, 5)
    ctx.ok(np.array_equal(d, e), "the seed of the layer does not determine the samples")
    ctx.state("nuts", seed, before)


def explore(ctx):
    n = len(ops())
    for seed in SEEDS:
        ctx.run(f"supports/{seed}", supports, seed)
        ctx.run(f"large/{seed}", large, seed)
        for seq in itertools.product(range(n), repeat=1):
            ctx.run(f"h/{seed}/{seq}", history, seq, seed)
        for seq in itertools.product(range(n), repeat=2):
            if seed in (1, 20240) or ctx.thorough:
                ctx.run(f"h/{seed}/{seq}", history, seq, seed)
    for seq in itertools.product(range(N_BASE), repeat=3):
        for seed in SEEDS[1:3] if ctx.thorough else SEEDS[1:2]:
            ctx.run(f"h/{seed}/{seq}", history, seq, seed)
    if ctx.thorough:
        for seq in itertools.product((0, 1, 4, 6, 7, 8, 9, 11), repeat=4):
            ctx.run(f"h/1/{seq}", history, seq, 1)
    for k in range(1, 6 if ctx.thorough else 5):
        for mask in itertools.product((0, 1), repeat=k):
            if any(mask):
                for seed in (1, 5):
                    ctx.run(f"w/{mask}/{seed}", weighted, mask, seed)
    for d in (1, 2, 3, 4, 6, 9, 16, 33):
        for name in ("spd", "diag", "scaled", "toeplitz"):
            for seed in SEEDS:
                ctx.run(f"lin/{d}/{name}/{seed}", linear, d, name, seed)
    for seed in (1, 3):
        for before in (0, 4):
            ctx.run(f"nuts/{seed}/{before}", nuts, seed, before)
