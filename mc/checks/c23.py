"""C23 - Sequential Monte Carlo keeps weights, particles and targets consistent.

Particle sets run on a scripted generator: every multinomial outcome, every
pattern of acceptance draws and every choice of target from tables with zero
densities is enumerated.  A plain model of the population follows each history.
The driver runs on whole families of targets with a deterministic generator; the
populations handed to each stage are recorded and judged by their definitions.
"""

import contextlib
import itertools
import math
import warnings

import numpy as np

from mc.ctx import to_np

INF = float("inf")


class TooMany(Exception):
    pass


class Rng(np.random.Generator):
    """Generator with scripted answers (and a seeded one behind it)."""

    def __init__(self, seed=0, uniforms=None, normals=None, multinomial=None):
        super().__init__(np.random.PCG64(seed))
        self.u = uniforms
        self.z = normals
        self.m = multinomial
        self.asked = []

    def random(self, size=None, *a, **k):
        if self.u is not None:
            n = 1 if size is None else int(np.prod(size))
            out = np.array([self.u.pop(0) if self.u else 0.5 for _ in range(n)])
            return float(out[0]) if size is None else out.reshape(size)
        return super().random(size, *a, **k)

    def uniform(self, low=0.0, high=1.0, size=None):
        if self.u is not None:
            return low + (np.asarray(high) - low) * self.random(size)
        return super().uniform(low, high, size)

    def standard_normal(self, size=None, *a, **k):
        if self.z is not None:
            self.asked.append(("normal", size))
            return np.asarray(self.z, float).reshape(size)
        return super().standard_normal(size, *a, **k)

    def multinomial(self, n, pvals, size=None, **k):
        if self.m is not None:
            self.asked.append(("multinomial", int(n), np.array(pvals, float)))
            return np.asarray(self.m(int(n), np.array(pvals, float)), dtype=np.int64)
        return super().multinomial(n, pvals, size, **k)


@contextlib.contextmanager
def no_debugger():
    import pdb

    def stop(*a, **k):
        raise RuntimeError("the debugger was entered")

    old = pdb.set_trace, pdb.post_mortem
    pdb.set_trace = pdb.post_mortem = stop
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                yield
    finally:
        pdb.set_trace, pdb.post_mortem = old


def vec(v):
    import gpmp.num as gnp
    return gnp.asarray(np.asarray(v, float))


def make(n, dim, rng, positions=None, **config):
    from gpmp.mcmc.smc import ParticlesSet, ParticlesSetConfig
    box = [[-1.0] * dim, [2.0] * dim]
    ps = ParticlesSet(box, n, config=ParticlesSetConfig(**config), rng=rng)
    if positions is not None:
        ps.x = vec(positions)
    return ps


def positions(n, dim):
    """Distinct, affinely independent where possible."""
    base = [[0.0, 0.3], [1.0, -0.4], [0.25, 1.5], [-0.5, 0.8], [1.75, 0.1]]
    if n > 5 or dim > 2:
        return np.array([[math.sin(1.0 + 2.3 * i + 1.1 * j + i * j) * (1 + j) for j in range(dim)] for i in range(n)])
    return np.array([b[:dim] for b in base[:n]])


def table(values):
    """Log-density given by a value per starting particle."""
    def f(x):
        return vec(values)
    return f


def np_ess(w):
    s2 = float(np.sum(w ** 2))
    return float(np.sum(w)) ** 2 / s2 if s2 > 0 else 0.0


def share(w):
    """Weights matter up to a common factor."""
    s = float(np.sum(w))
    return w / s if s > 0 else w


def compositions(total, cells):
    if cells == 1:
        yield (total,)
        return
    for k in range(total + 1):
        for rest in compositions(total - k, cells - 1):
            yield (k,) + rest


# ---------------------------------------------------------------- population

def initial(ctx, n, dim, seed):
    rng = Rng(seed)
    ps = make(n, dim, rng)
    ctx.step()
    x = to_np(ps.x)
    ctx.equal(x.shape, (n, dim), "shape of the initial particles")
    ctx.ok(bool(np.all(x >= -1.0) and np.all(x <= 2.0)), "initial particles inside the box")
    ctx.close(ps.w, np.full(n, 1.0 / n), "initial weights")
    ctx.close(ps.ess(), np.array(float(n)), "initial effective sample size", shape=False)
    ctx.state("init", x)


def weights(ctx, n, targets):
    """Reweighting through a sequence of targets, with look-ahead calls."""
    with no_debugger():
        x0 = positions(n, 1)
        ps = make(n, 1, Rng(1), x0)
        w = np.full(n, 1.0 / n)
        cur = np.zeros(n)
        for k, (vals, update) in enumerate(targets):
            new = np.array(vals, float)
            ps.set_logpdf(table(new))
            ps.reweight(update)
            ctx.step()
            d = np.where(new == -INF, -INF, new - np.where(cur == -INF, 0.0, cur))
            top = np.max(d[w > 0]) if np.any(w > 0) else 0.0
            tmp = w * np.exp(d - (top if math.isfinite(top) and top > 0 else 0.0))
            ctx.close(ps.ess(), np.array(np_ess(tmp)), f"effective sample size after call {k}",
                      shape=False)
            if update:
                w, cur = tmp, new
                ctx.close(ps.logpx, cur, f"stored log-densities after call {k}")
            ctx.close(share(to_np(ps.w)), share(w), f"weights after call {k}", atol=1e-12)
            ctx.close(ps.x, x0, "positions are not touched by reweighting")
        ctx.state("w", n, np.round(w, 9))


def resampling(ctx, n, dim, scheme, vals, pick, debug):
    """One outcome of the random part of a resampling."""
    with no_debugger():
        drawn = {}

        def multinomial(k, p):
            drawn["n"], drawn["p"] = k, p
            outs = _outcomes(k, p, pick)
            drawn["total"] = len(outs)
            return outs[pick % len(outs)]

        x0 = positions(n, dim)
        new = np.array(vals, float)
        ps = make(n, dim, Rng(3, multinomial=multinomial), x0, resample_scheme=scheme)
        ps.set_logpdf(table(new))
        ps.reweight()
        w = np.exp(new) / n
        dead = float(w.sum()) == 0.0
        p = np.full(n, 1.0 / n) if dead else w / w.sum()
        ps.resample(debug)
        ctx.step(2)
        x = to_np(ps.x)
        lp = to_np(ps.logpx)
        ctx.equal(x.shape, (n, dim), "shape after resampling")
        counts = np.zeros(n, int)
        for r, l in zip(x, lp):
            hit = [i for i in range(n) if np.allclose(r, x0[i], rtol=0, atol=1e-12)]
            ctx.ok(len(hit) == 1, f"resampled particle {r} is not one of the population")
            counts[hit[0]] += 1
            ctx.ok(l == new[hit[0]], "a resampled particle carries its log-density")
        ctx.ok(all(c == 0 or q > 0 for c, q in zip(counts, p)), "particles of zero weight are dropped")
        if scheme == "residual":
            ctx.ok(all(c >= math.floor(n * q - 1e-9) for c, q in zip(counts, p)),
                   f"counts {counts} reach the whole part of the expected {n * p}")
        if drawn:
            fixed = counts - np.array([c for c in _outcome(drawn, pick)])
            ctx.ok(bool(np.all(fixed >= 0)), "every drawn copy is kept")
            ctx.close(fixed + drawn["n"] * drawn["p"], n * p, "expected counts", atol=1e-9)
            ctx.state(scheme, n, np.round(p, 9), counts)
        ctx.close(ps.w, np.full(n, 1.0 / n), "weights after resampling")
        ctx.close(ps.ess(), np.array(float(n)), "effective sample size after resampling",
                  shape=False)


def _outcomes(k, p, pick):
    if len(p) > 8:          # a few structured outcomes
        alive = [i for i, q in enumerate(p) if q > 1e-12]
        ways = ([alive[pick % len(alive)]] * k, [alive[(i * (pick + 1)) % len(alive)] for i in range(k)])
        return [tuple(w.count(i) for i in range(len(p))) for w in ways]
    return [c for c in compositions(k, len(p)) if all(q > 1e-12 or not m for m, q in zip(c, p))]


def _outcome(drawn, pick):
    outs = _outcomes(drawn["n"], drawn["p"], pick)
    return outs[pick % len(outs)]


def moving(ctx, n, dim, answers, uses):
    """Acceptance of proposed points with given densities under given draws."""
    with no_debugger():
        x0 = positions(n, dim)
        z = np.arange(n * dim, dtype=float).reshape(n, dim) * 0.1 + 0.05
        rng = Rng(5, normals=z)
        ps = make(n, dim, rng, x0)
        cur = np.array([a for a, _ in answers], float)
        prop = np.array([b for _, b in answers], float)
        seen = []

        def logpdf(x):
            seen.append(np.array(to_np(x)))
            return vec(cur if len(seen) == 1 else prop)

        ps.set_logpdf(logpdf)
        ps.reweight()
        rng.u = list(uses)
        rate = ps.move()
        ctx.step(2)
        ctx.equal(len(seen), 2, "number of density evaluations of one move")
        y = seen[1]
        ctx.equal(y.shape, (n, dim), "shape of the proposed points")
        acc = np.array([not math.isnan(b - a) and math.log(u) < b - a
                        for (a, b), u in zip(answers, uses)])
        ctx.close(ps.x, np.where(acc[:, None], y, x0), "positions after the move")
        ctx.close(ps.logpx, np.where(acc, prop, cur), "stored log-densities after the move")
        ctx.close(rate, np.array(acc.mean()), "acceptance rate", shape=False)
        ctx.state("move", acc.tolist(), answers)


def proposals(ctx, n, dim, scale, method):
    """The law of the proposals is the scaled covariance of the population."""
    with no_debugger():
        x0 = positions(n, dim)
        cov = np.cov(x0.T).reshape(dim, dim) * scale
        rows = []
        shift = None
        for k in range(dim + 1):
            z = np.zeros((n, dim))
            if k:
                z[:, k - 1] = 1.0
            rng = Rng(7, normals=z)
            ps = make(n, dim, rng, x0, param_s_initial_value=scale, covariance_method=method)
            ps.set_logpdf(lambda x: vec(np.zeros(n)))
            y = to_np(ps.perturb())
            ctx.step()
            ctx.equal(y.shape, (n, dim), "shape of the proposals")
            ctx.close(ps.x, x0, "proposing does not move the population")
            if not rng.asked:
                ctx.count("unobserved_proposal_draws")
                return
            if k == 0:
                ctx.close(y, x0, "proposals are centred at the particles", atol=1e-12)
            else:
                d = y - x0
                ctx.close(d, np.tile(d[0], (n, 1)), "equal draws give equal displacements", atol=1e-12)
                rows.append(d[0])
        a = np.array(rows)
        ctx.close(a.T @ a, cov, "covariance of the proposals", atol=1e-9)
        ctx.state("prop", n, dim, scale, method)


@contextlib.contextmanager
def neighbour_index():
    """An exact index stands for the optional nearest-neighbour library."""
    import importlib
    import sys
    import types

    class Index:
        used = 0

        def __init__(self, space, dim):
            if space != "l2":
                raise ValueError(f"distance {space}")
            self.dim = dim

        def init_index(self, max_elements, **k):
            self.limit = max_elements

        def add_items(self, data, *a, **k):
            self.data = np.array(to_np(data), np.float32).reshape(-1, self.dim)
            if len(self.data) > self.limit:
                raise RuntimeError("the number of elements exceeds the specified limit")

        def set_ef(self, ef):
            pass

        def knn_query(self, data, k=1, **kw):
            Index.used += 1
            q = np.array(to_np(data), np.float32).reshape(-1, self.dim)
            if k > len(self.data):
                raise RuntimeError("Cannot return the results in a contiguous 2D array")
            d = ((q[:, None] - self.data[None]) ** 2).sum(-1)
            o = np.argsort(d, axis=1, kind="stable")[:, :k]
            return o.astype(np.uint64), np.take_along_axis(d, o, 1)

    from gpmp.mcmc import knn_cov
    old = sys.modules.get("hnswlib")
    fake = types.ModuleType("hnswlib")
    fake.Index = Index
    sys.modules["hnswlib"] = fake
    importlib.reload(knn_cov)
    try:
        yield Index
    finally:
        if old is None:
            del sys.modules["hnswlib"]
        else:
            sys.modules["hnswlib"] = old
        importlib.reload(knn_cov)


def neighbours(ctx, n, dim, n_random, k, scale):
    """With an index, the covariance is an average over groups of neighbours."""
    x0 = positions(n, dim)
    local = []
    for c in x0:
        near = np.argsort(((x0 - c) ** 2).sum(1), kind="stable")[:min(k, n)]
        local.append(np.cov(x0[near].T).reshape(dim, dim))
    wanted = [np.mean([local[i] for i in ids], axis=0) * scale
              for ids in itertools.combinations(range(n), min(n_random, n))]
    with no_debugger(), neighbour_index() as index:
        rows = []
        for axis in range(dim + 1):
            import gpmp.num as gnp
            gnp.set_seed(3)
            z = np.zeros((n, dim))
            if axis:
                z[:, axis - 1] = 1.0
            ps = make(n, dim, Rng(7, normals=z), x0, param_s_initial_value=scale,
                      covariance_method="knn", covariance_knn_n_random=n_random,
                      covariance_knn_n_neighbors=k)
            ps.set_logpdf(lambda x: vec(np.zeros(n)))
            y = to_np(ps.perturb())
            ctx.step()
            if not index.used:
                ctx.count("unobserved_neighbour_index")
                return
            if axis:
                rows.append((y - x0)[0])
        got = np.array(rows).T @ np.array(rows)
        ctx.ok(any(np.allclose(got, w, rtol=1e-7, atol=1e-9) for w in wanted),
               f"covariance of the proposals {got.tolist()} is no average over {n_random} groups of {k}")
        ctx.state("neighbours", n, dim, n_random, k, scale)


def rejected(ctx, n, dim, failures, limit):
    """The first draws fail: the diagonal is increased until one succeeds."""
    with no_debugger():
        x0 = positions(n, dim)
        seen = []

        class Failing(Rng):
            def standard_normal(self, size=None, *a, **k):
                seen.append(size)
                if len(seen) <= failures:
                    raise ValueError("the input matrix must be symmetric positive semidefinite")
                return np.zeros(size)

        ps = make(n, dim, Failing(9), x0, jitter_max_iterations=limit)
        ctx.step()
        if failures > limit:
            ctx.raises(RuntimeError, ps.perturb, "no draw succeeds")
            ctx.equal(len(seen), limit + 1, "number of attempts")
        else:
            ctx.close(ps.perturb(), x0, "proposals after failed attempts", atol=1e-12)
            ctx.equal(len(seen), failures + 1, "number of attempts")
        ctx.state("rejected", n, dim, failures, limit)


def out_of_range(ctx, scale, low, high):
    from gpmp.mcmc.smc import ParticlesSetError
    with no_debugger():
        ps = make(3, 1, Rng(2), positions(3, 1), param_s_initial_value=scale,
                  param_s_lower_bound=low, param_s_upper_bound=high)
        ctx.step()
        bad = not low <= scale <= high
        try:
            ps.perturb()
            got = False
        except ParticlesSetError:
            got = True
        ctx.equal(got, bad, "a scale outside its limits is refused")
        ctx.state("range", scale, low, high)


def invalid(ctx, what):
    from gpmp.mcmc import smc as m
    with no_debugger():
        ctx.step()
        if what == "scheme":
            ps = make(2, 1, Rng(0), positions(2, 1), resample_scheme="other")
            ctx.raises(ValueError, ps.resample, "unknown resampling scheme")
        elif what == "initial":
            ctx.raises(NotImplementedError,
                       lambda: make(2, 1, Rng(0), initial_distribution_type="other"),
                       "unknown initial distribution")
        elif what == "method":
            ctx.raises(ValueError,
                       lambda: m.SMC([[0.0], [1.0]], 3,
                                     smc_config=m.SMCConfig(compute_next_logpdf_param_method="x")),
                       "unknown selection of targets")
        elif what == "tail":
            ctx.raises(ValueError,
                       lambda: m.run_subset_simulation(lambda x: x, [0.0, 1.0], [[0.0], [1.0]],
                                                       lambda x: x, tail="both"),
                       "unknown tail")


POP_OPS = ("rw0", "rw1", "rw2", "look", "res", "mv0", "mv1")


def history(ctx, n, scheme, ops):
    """All short histories of one population against a plain model."""
    funcs = {
        "rw0": lambda x: -x[:, 0] ** 2,
        "rw1": lambda x: np.where(x[:, 0] > 0.1, -3.0 * x[:, 0], -INF),
        "rw2": lambda x: 2.0 * np.sin(3.0 * x[:, 0]),
    }
    funcs["look"] = funcs["rw2"]
    with no_debugger():
        x = positions(n, 1)
        rng = Rng(11)
        ps = make(n, 1, rng, x, resample_scheme=scheme)
        w = np.full(n, 1.0 / n)
        lp = np.zeros(n)
        density = None
        calls = []

        def wrap(f):
            def g(p):
                p = np.array(to_np(p))
                calls.append(p)
                return vec(f(p))
            return g

        tmp = w
        for k, op in enumerate(ops):
            ctx.step()
            if op in funcs:
                density = funcs[op]
                ps.set_logpdf(wrap(density))
                ps.reweight(op != "look")
                new = density(x)
                tmp = w * np.where(new == -INF, 0.0, np.exp(new - np.where(lp == -INF, 0.0, lp)))
                if op != "look":
                    w, lp = tmp, new
            elif op == "res":
                before = x.copy(), lp.copy(), tmp.copy()
                ps.resample()
                x = np.array(to_np(ps.x))
                lp = np.array(to_np(ps.logpx))
                alive = before[2].sum() > 0
                for r, l in zip(x, lp):
                    hit = [i for i in range(n) if r[0] == before[0][i, 0] and
                           (l == before[1][i]) and (before[2][i] > 0 or not alive)]
                    ctx.ok(bool(hit), f"call {k}: resampled particle not in the population")
                w = tmp = np.full(n, 1.0 / n)
            else:
                if density is None:
                    density = funcs["rw0"]
                    ps.set_logpdf(wrap(density))
                us = [0.05, 0.6, 0.99, 0.3, 0.8][:n] if op == "mv0" else [0.9, 0.01, 0.4, 0.7, 0.2][:n]
                rng.u = list(us)
                rng.z = np.linspace(-1.0, 1.5, n).reshape(n, 1)
                calls.clear()
                ps.move()
                rng.u = rng.z = None
                y = calls[-1]
                ly = density(y)
                d = ly - lp
                acc = np.array([not math.isnan(v) and math.log(u) < v for u, v in zip(us, d)])
                x = np.where(acc[:, None], y, x)
                lp = np.where(acc, ly, lp)
            ctx.close(ps.x, x, f"positions after call {k} ({op})")
            ctx.close(ps.logpx, lp, f"stored log-densities after call {k} ({op})")
            ctx.close(share(to_np(ps.w)), share(w), f"weights after call {k} ({op})")
            ctx.close(ps.ess(), np.array(np_ess(tmp)), f"effective sample size after call {k} ({op})",
                      shape=False, rtol=1e-6)
        ctx.state("hist", scheme, np.round(x, 9), np.round(w, 9))


# -------------------------------------------------------------------- driver

def families():
    """Targets indexed by a parameter, from easy (0) to difficult."""
    def temper(x, t):
        return -t * 4.0 * (x[:, 0] - 0.4) ** 2

    def sharp(x, t):
        return -t * 60.0 * np.sum((x - 0.4) ** 2, axis=1)

    def level(x, t):
        return np.where(x[:, 0] >= t, 0.0, -INF)

    def steps(x, t):
        return np.where(np.floor(4 * x[:, 0]) / 4 >= t, 0.0, -INF)

    def holes(x, t):
        return np.where(np.abs(x[:, 0] - 1.0) > 0.3, -t * 3.0 * x[:, 0] ** 2, -INF)

    def big(x, t):
        return np.where(x[:, 0] >= t, 0.0, -1e100)

    return {"temper": (temper, 0.0, 1.0), "sharp": (sharp, 0.0, 1.0), "level": (level, -1.0, 1.6),
            "steps": (steps, -1.0, 1.25), "holes": (holes, 0.0, 2.0), "big": (big, -1.0, 1.7),
            "down": (lambda x, t: -3.0 * x[:, 0] ** 2 / t, 1e3, 0.5),
            "narrow": (lambda x, t: -t * 300.0 * x[:, 0] ** 2, 0.0, 0.04)}


def counted(f, limit=60000):
    """The target as the code sees it, with a bound on the number of calls."""
    calls = [0]

    def g(x, t):
        calls[0] += 1
        if calls[0] > limit:
            raise TooMany("the run does not end")
        return vec(f(np.array(to_np(x)), float(t)))
    return g


def survival(f, x, new, cur):
    a, b = f(x, new), f(x, cur)
    return float(np.mean(np.where(a == -INF, 0.0, np.exp(a - np.where(b == -INF, 0.0, b)))))


def ess_ratio(f, x, w, lp, new):
    a = f(x, new)
    return np_ess(w * np.where(a == -INF, 0.0, np.exp(a - np.where(lp == -INF, 0.0, lp)))) / len(w)


def judge(ctx, measure, requested, cur, target, got, strict, msg):
    """A selected target: the final one when it is good enough, otherwise one
    whose measure is close to the requested value or just past a jump."""
    end = measure(target)
    good = end > requested if strict else end >= requested
    lo, hi = min(cur, target), max(cur, target)
    ctx.ok(lo <= got <= hi, f"{msg}: selected {got} outside [{lo}, {hi}]")
    if good:
        ctx.equal(got, target, f"{msg}: the final target is good enough ({end:.3f})")
        return
    ctx.ok(got != cur or cur == target, f"{msg}: no progress from {cur}")
    m = measure(got)
    if abs(m - requested) < 0.05 + 1e-9:
        return
    width = 1e-9 * max(1.0, abs(cur), abs(target))
    back = got - width if target > cur else got + width
    jump = measure(back if lo <= back <= hi else cur)
    soon = measure(cur + width if target > cur else cur - width)
    ctx.ok(m < requested <= jump or got == target and min(measure(cur), soon) <= requested,
           f"{msg}: at {got} the measure is {m:.4f} (just before {jump:.4f}), requested {requested}")


def selection(ctx, family, method, n, requested, cur_k, seed):
    """One choice of the next target from a fixed population."""
    from gpmp.mcmc import smc as m
    f, a, b = families()[family]
    with no_debugger():
        smc = m.SMC([[-1.0], [2.0]], n, smc_config=m.SMCConfig(compute_next_logpdf_param_method=method),
                    rng=Rng(seed))
        x = np.array(to_np(smc.particles.x))
        cur = a + (b - a) * cur_k / 4.0
        g = counted(f)
        # a population which already lives on the current target
        keep = np.isfinite(f(x, cur)) & (f(x, cur) > -1e90)
        if not keep.any():
            x[:] = 1.9
            keep[:] = f(x, cur) > -1e90
        x = x[np.array([np.flatnonzero(keep)[i % keep.sum()] for i in range(n)])]
        smc.particles.x = vec(x)
        smc.particles.set_logpdf_with_parameter(g, cur)
        smc.particles.reweight()
        smc.particles.w = vec(np.full(n, 1.0 / n))
        w, lp = np.full(n, 1.0 / n), f(x, cur)
        ctx.step()
        got = float(to_np(smc.compute_next_logpdf_param(g, cur, b, requested)))
        if method == "p0":
            v = to_np(smc.compute_p_value(g, (cur + b) / 2, cur))
            ctx.close(v, np.array(survival(f, x, (cur + b) / 2, cur)), "survival fraction", shape=False)
            judge(ctx, lambda t: survival(f, x, t, cur), requested, cur, b, got, False, "by survival")
        else:
            judge(ctx, lambda t: ess_ratio(f, x, w, lp, t), requested, cur, b, got, True, "by sample size")
        ctx.close(smc.particles.x, x, "choosing a target does not move the population")
        ctx.close(smc.particles.w, w, "choosing a target does not change the weights")
        ctx.state("sel", family, method, np.round(got, 9))


def p_value(ctx, n, olds, news):
    from gpmp.mcmc import smc as m
    with no_debugger():
        smc = m.SMC([[-1.0], [2.0]], n, rng=Rng(0))
        ctx.step()
        got = smc.compute_p_value(lambda x, t: vec(news if t else olds), 1.0, 0.0)
        want = np.mean([0.0 if b == -INF else math.exp(b - a) for a, b in zip(olds, news)])
        ctx.close(got, np.array(want), "survival fraction", shape=False)
        ctx.state("p", olds, news)


def controlled(ctx, rates, limits, factor, max_iter):
    """Adaptation of the scale to scripted acceptance rates."""
    from gpmp.mcmc import smc as m
    with no_debugger():
        lo, hi = limits
        smc = m.SMC([[-1.0], [2.0]], 3, smc_config=m.SMCConfig(
            mh_acceptation_rate_min=lo, mh_acceptation_rate_max=hi, mh_adjustment_factor=factor,
            mh_adjustment_max_iterations=max_iter), rng=Rng(0))
        s = float(smc.particles.param_s)
        used = [0]

        def move():
            used[0] += 1
            return rates[(used[0] - 1) % len(rates)]

        smc.particles.move = move
        smc.move_with_controlled_acceptation_rate()
        ctx.step()
        want, k = s, 0
        while k < max_iter:
            r = rates[k % len(rates)]
            k += 1
            if r < lo:
                want /= factor
            elif r > hi:
                want *= factor
            else:
                break
        ctx.equal(used[0], k, "number of moves")
        ctx.close(float(smc.particles.param_s), np.array(want), "scale", shape=False)
        smc.log_snapshot()
        ctx.equal(list(smc.log[-1]["acceptation_rate_sequence"]), [rates[i % len(rates)] for i in range(k)],
                  "recorded acceptance rates")
        ctx.state("ctl", rates, limits)


def watched(ctx, smc, f, method, requested, target):
    """Record every stage of a run and judge it when it happens."""
    stages = []
    orig = smc.step
    first = [True]

    def step(g, param, *a, **k):
        p = smc.particles
        x, w, lp = np.array(to_np(p.x)), np.array(to_np(p.w)), np.array(to_np(p.logpx))
        param = float(to_np(param))
        stages.append((param, x, w, lp))
        ctx.close(w, np.full(len(w), 1.0 / len(w)), "weights at the start of a stage")
        out = orig(g, param, *a, **k)
        ctx.step()
        xs = np.array(to_np(p.x))
        ctx.close(p.logpx, f(xs, param), "stored log-densities are those of the stage's target",
                  rtol=1e-9)
        new = f(x, param)
        if np.any(new > -1e90) and np.all(lp > -1e90):
            ctx.ok(bool(np.all(f(xs, param) > -1e90)), "particles stay in the support of the target")
            ws = w * np.where(new == -INF, 0.0, np.exp(new - np.where(lp == -INF, 0.0, lp)))
            ctx.close(smc.log[-1]["ess"], np.array(np_ess(ws)), "recorded effective sample size",
                      shape=False, rtol=1e-6)
        ctx.equal(float(to_np(smc.log[-1]["current_logpdf_param"])), param, "recorded target")
        return out

    smc.step = step
    return stages


def run(ctx, family, method, n, requested, scheme, mh, seed):
    """A whole run, started far from the target."""
    from gpmp.mcmc import smc as m
    f, a, b = families()[family]
    with no_debugger():
        smc = m.SMC([[-1.0], [2.0]], n,
                    particles_config=m.ParticlesSetConfig(resample_scheme=scheme, param_s_lower_bound=0.0,
                                                          param_s_upper_bound=1e300),
                    smc_config=m.SMCConfig(compute_next_logpdf_param_method=method, mh_steps=mh,
                                           mh_adjustment_max_iterations=4, mh_adjustment_factor=1.05),
                    rng=Rng(seed))
        stages = watched(ctx, smc, f, method, requested, b)
        x = np.array(to_np(smc.particles.x))
        direct = ess_ratio(f, x, np.full(n, 1.0 / n), np.zeros(n), b) >= requested
        smc.step_with_possible_restart(counted(f), a, b, requested, requested)
        ctx.ok(bool(stages), "at least one stage")
        params = [s[0] for s in stages]
        ctx.equal(params[-1], b, "the run ends at the final target")
        ctx.equal(params.index(b), len(params) - 1, "the final target is the last stage")
        if direct:
            ctx.equal(len(params), 1, "a good population goes to the final target at once")
        cur = a
        base = None
        for k, (p, x, w, lp) in enumerate(stages):
            if direct:
                break
            if k == 0:
                ctx.ok(bool(np.all(x >= -1.0) and np.all(x <= 2.0)), "a restart draws in the box")
                ctx.close(lp, np.zeros(n), "no density is stored before the first target")
                if method == "ess":
                    base = min(requested, ess_ratio(f, x, w, lp, a))
            if method == "p0":
                judge(ctx, lambda t: survival(f, x, t, cur), requested, cur, b, p, False, f"stage {k}")
            else:
                judge(ctx, lambda t: ess_ratio(f, x, w, lp, t), base, cur, b, p, True, f"stage {k}")
            cur = p
        x = np.array(to_np(smc.particles.x))
        ctx.close(smc.particles.logpx, f(x, b), "final log-densities", rtol=1e-9)
        ctx.state("run", family, method, np.round(params, 6))


def sequence(ctx, family, method, n, levels, requested, seed):
    """Successive targets on one population, as in sequential use."""
    from gpmp.mcmc import smc as m
    f, a, b = families()[family]
    with no_debugger():
        smc = m.SMC([[-1.0], [2.0]], n,
                    particles_config=m.ParticlesSetConfig(resample_scheme="residual", param_s_lower_bound=0.0,
                                                          param_s_upper_bound=1e300),
                    smc_config=m.SMCConfig(compute_next_logpdf_param_method=method, mh_steps=2,
                                           mh_adjustment_max_iterations=3),
                    rng=Rng(seed))
        stages = watched(ctx, smc, f, method, requested, b)
        g = counted(f)
        for lv in levels:
            t = a + (b - a) * lv
            before = len(stages)
            p = smc.particles
            x, w, lp = (np.array(to_np(v)) for v in (p.x, p.w, p.logpx))
            r = ess_ratio(f, x, w, lp, t)
            smc.step_with_possible_restart(g, a, t, requested, requested)
            new = stages[before:]
            ctx.ok(bool(new), "a step reaches its target through stages")
            ctx.equal(new[-1][0], t, "the step ends at its target")
            ctx.close(p.logpx, f(np.array(to_np(p.x)), t), "stored log-densities", rtol=1e-9)
            if abs(r - requested) > 1e-9:
                restarted = not np.array_equal(new[0][1], x)
                ctx.equal(restarted, bool(r < requested), f"restart when the ratio is {r:.3f}")
            ctx.equal(smc.log_data["target_logpdf_param"], t, "recorded final target")
        ctx.state("seq", family, method, levels)


def entry(ctx, family, method, n, config, mh):
    """The one-call entry point."""
    from gpmp.mcmc import smc as m
    f, a, b = families()[family]
    with no_debugger():
        seen = []
        orig = m.SMC

        class Spy(orig):
            def __init__(self, *args, **kw):
                kw["rng"] = Rng(21)
                super().__init__(*args, **kw)
                seen.append(self)

        m.SMC = Spy
        try:
            kw = {}
            if config:
                kw["smc_config"] = m.SMCConfig(compute_next_logpdf_param_method=method, mh_steps=3,
                                               mh_adjustment_max_iterations=4)
                kw["particles_config"] = m.ParticlesSetConfig(
                    resample_scheme="multinomial", param_s_lower_bound=0.0, param_s_upper_bound=1e300)
            else:
                kw["particles_config"] = m.ParticlesSetConfig(
                    resample_scheme="residual", param_s_lower_bound=0.0, param_s_upper_bound=1e300)
            x, smc = m.run_smc_sampling(counted(f, 40000), a, b, method, 0.5, p0=0.3, init_box=[[-1.0], [2.0]],
                                        n_particles=n, mh_steps=mh, **kw)
        finally:
            m.SMC = orig
        ctx.step()
        xs = np.array(to_np(x))
        ctx.equal(xs.shape, (n, 1), "shape of the particles")
        ctx.close(smc.particles.x, xs, "the particles returned are the final ones")
        ctx.close(smc.particles.logpx, f(xs, b), "final log-densities", rtol=1e-9)
        want = 3 if config else mh
        ctx.equal(len(smc.log[-1]["acceptation_rate_sequence"]), want - 1, "moves after the adjustment")
        ctx.equal(smc.smc_config.compute_next_logpdf_param_method, method, "method in use")
        ctx.state("entry", family, method, config, mh)


# --------------------------------------------------------- subset simulation

def subset(ctx, tail, dim, box, density, thresholds, n, scheme, seed):
    from gpmp.mcmc import smc as m
    lower, upper = box
    lo = np.array([lower] * dim)
    hi = np.array([upper] * dim)

    def log_px(x):
        x = np.array(to_np(x))
        inside = np.all((x >= lo) & (x <= hi), axis=1)
        body = (np.full(len(x), -dim * math.log(upper - lower)) if density == "uniform"
                else np.full(len(x), 0.0) if density == "unscaled"
                else -0.5 * np.sum(x ** 2, axis=1))
        return np.where(inside, body, -INF if density == "cut" else -1e100)

    sign = 1.0 if tail == "upper" else -1.0

    def f(x):
        return sign * np.array(to_np(x))[:, 0]

    us = [-sign * INF] + [sign * (lower + (upper - lower) * t) for t in thresholds]

    with no_debugger():
        orig = m.SMC
        pops = []

        class Spy(orig):
            def __init__(self, *args, **kw):
                kw["rng"] = Rng(seed)
                kw["particles_config"].param_s_lower_bound = 0.0
                kw["particles_config"].param_s_upper_bound = 1e300
                kw["smc_config"].mh_adjustment_max_iterations = 3
                super().__init__(*args, **kw)
                rs = self.particles.resample

                def resample(*a, **k):
                    pops.append(np.array(to_np(self.particles.x)))
                    out = rs(*a, **k)
                    return out

                self.particles.resample = resample

        m.SMC = Spy
        try:
            p, probs, smc = m.run_subset_simulation(
                lambda x: vec(f(x)), us, [lo.tolist(), hi.tolist()], lambda x: vec(log_px(x)), tail=tail,
                n_particles=n, mh_steps=2, resample_scheme=scheme)
        finally:
            m.SMC = orig
        ctx.step()
        probs = to_np(probs)
        ctx.equal(probs.shape, (len(us) - 1,), "one probability per threshold")
        ctx.close(p, np.array(np.prod(probs)), "the estimate is the product of the stages", shape=False)
        if len(pops) == len(us) - 1:
            for k, x in enumerate(pops):
                v = f(x)
                hit = v > us[k + 1] if tail == "upper" else v < us[k + 1]
                wt = np.exp(log_px(x)) if k == 0 else np.ones(len(x))
                ctx.close(probs[k], np.array((wt * hit).sum() / wt.sum()), f"probability of stage {k + 1}",
                          shape=False, rtol=1e-6)
                if k:
                    prev = v > us[k] if tail == "upper" else v < us[k]
                    ctx.ok(bool(prev.all()) or probs[:k].prod() == 0, f"population of stage {k} respects its threshold")
        x = np.array(to_np(smc.particles.x))
        if p > 0:
            v = f(x)
            ctx.ok(bool(np.all(v > us[-1] if tail == "upper" else v < us[-1])), "final population")
            ctx.ok(bool(np.all(log_px(x) > -1e90)), "final population inside the support")
        ctx.ok(0.0 <= float(to_np(p)) <= 1.0 + 1e-12, "a probability")
        ctx.state("subset", tail, dim, density, np.round(probs, 6))


def explore(ctx):
    t = ctx.thorough
    for n in (1, 2, 5, 16):
        for dim in (1, 2, 3):
            for seed in (1, 2):
                ctx.run(f"init:{n}:{dim}:{seed}", initial, n, dim, seed)

    vals = (0.0, 1.5, -2.0, -INF)
    # reweighting: all pairs of two-particle targets, triples of looks
    pairs = list(itertools.product(vals, repeat=2))
    for a in pairs:
        for b in pairs:
            for ua, ub in itertools.product((True, False), repeat=2):
                if any(p == -INF and q != -INF for p, q in zip(a, b)) and ua:
                    continue
                ctx.run(f"w2:{a}:{b}:{ua}:{ub}", weights, 2, [(a, ua), (b, ub)])
    for a in itertools.product((0.0, -1.0, -INF), repeat=3):
        for b in itertools.product((0.0, 2.0, -INF), repeat=3):
            if any(p == -INF and q != -INF for p, q in zip(a, b)):
                continue
            ctx.run(f"w3:{a}:{b}", weights, 3, [(a, True), (b, False), (b, True), (b, True)])
    for a in itertools.product((700.0, 0.0, -700.0), repeat=2):
        ctx.run(f"wbig:{a}", weights, 2, [(a, True), (tuple(v + 1 for v in a), True)])

    # resampling: all outcomes
    wv = (0.0, math.log(2.0), math.log(3.5), -INF)
    for n in (1, 2, 3):
        for v in itertools.product(wv, repeat=n):
            total = math.comb(2 * n - 1, n)
            for scheme in ("multinomial", "residual"):
                for pick in range(total):
                    ctx.run(f"res:{n}:{scheme}:{np.round(v, 3).tolist()}:{pick}", resampling, n, 1 + (n > 1),
                            scheme, v, pick, pick == 0)
    n4 = 5 if t else 4
    for v in itertools.product((0.0, math.log(2.0), -INF), repeat=n4):
        for scheme in ("multinomial", "residual"):
            for pick in range(0, math.comb(2 * n4 - 1, n4), 1 if not t else 3):
                ctx.run(f"res:{n4}:{scheme}:{np.round(v, 3).tolist()}:{pick}", resampling, n4, 2, scheme, v,
                        pick, False)

    # larger populations
    for n in (10, 17, 40, 101):
        a = tuple((0.0, 1.5, -2.0, 0.7, -INF)[(3 * i * i + i) % 5] for i in range(n))
        b = tuple(-INF if v == -INF else (0.5, -1.0, 2.0, -INF)[(i * i + 2 * i) % 4] for i, v in enumerate(a))
        for us in itertools.product((True, False), repeat=2):
            ctx.run(f"wn:{n}:{us}", weights, n, [(a, us[0]), (b, us[1]), (b, True)] if us[0] else [(b, us[1]), (b, True)])
        for scheme in ("multinomial", "residual"):
            for pick in range(6):
                ctx.run(f"resn:{n}:{scheme}:{pick}", resampling, n, 3, scheme, a, pick, False)
                ctx.run(f"resn:{n}:{scheme}:{pick}:b", resampling, n, 1, scheme, b, pick, False)
        for dim in (1, 3, 5):
            ans = [(v, (0.0, 1.0, -0.7, -3.0, -INF)[(i * i + dim) % 5]) for i, v in enumerate(a)]
            ctx.run(f"moven:{n}:{dim}", moving, n, dim, ans, [(0.02, 0.45, 0.97)[(i * i + i) % 3] for i in range(n)])
            for s in (0.25, 1.0):
                ctx.run(f"propn:{n}:{dim}:{s}", proposals, n, dim, s, "normal")
    # moves: all density pairs and draws
    pairs = [(c, p) for c in (0.0, -1.0) for p in (0.0, 1.0, -0.7, -3.0, -INF)] + [(-INF, 0.0), (-INF, -INF)]
    us = (0.02, 0.45, 0.97)
    for n in (2,):
        for ans in itertools.product(pairs, repeat=n):
            for u in itertools.product(us, repeat=n):
                ctx.run(f"move:{n}:{ans}:{u}", moving, n, 1, ans, u)
    few = [(0.0, -0.7), (0.0, -INF), (-1.0, 1.0)]
    for ans in itertools.product(few, repeat=3):
        for u in itertools.product(us, repeat=3):
            ctx.run(f"move:3:{ans}:{u}", moving, 3, 2, ans, u)

    for n in (2, 3, 4, 5):
        for dim in (1, 2):
            for s in (0.25, 1.0, 3.0):
                for meth in ("normal", "knn"):
                    ctx.run(f"prop:{n}:{dim}:{s}:{meth}", proposals, n, dim, s, meth)
    for n in (3, 4, 5):
        for dim in (1, 2):
            for r in range(1, n + 2):
                for k in range(2, n + 2):
                    for s in (0.25, 1.0):
                        ctx.run(f"knn:{n}:{dim}:{r}:{k}:{s}", neighbours, n, dim, r, k, s)
    for dim in (1, 2):
        for limit in (1, 2, 3):
            for k in range(0, limit + 2):
                ctx.run(f"rej:{dim}:{limit}:{k}", rejected, 4, dim, k, limit)
    for s in (0.1, 0.5, 1.0, 2.0):
        for low, high in ((0.1, 1.0), (0.5, 0.5), (0.2, 2.0), (1e-3, 1e5)):
            ctx.run(f"range:{s}:{low}:{high}", out_of_range, s, low, high)
    for what in ("scheme", "initial", "method", "tail"):
        ctx.run(f"invalid:{what}", invalid, what)

    depth = 5 if t else 4
    for n in (3,):
        for scheme in ("multinomial", "residual"):
            for k in range(1, depth + 1):
                for ops in itertools.product(POP_OPS, repeat=k):
                    if _grows(ops):
                        continue
                    ctx.run(f"hist:{n}:{scheme}:{'.'.join(ops)}", history, n, scheme, ops)

    rates = (0.0, 0.15, 0.2, 0.3, 0.31, 1.0)
    for k in (1, 2, 3):
        for r in itertools.product(rates, repeat=k):
            for limits in ((0.15, 0.3), (0.0, 1.0)):
                for factor, mi in ((1.4, 4), (2.0, 1), (1.4, 7)):
                    ctx.run(f"ctl:{r}:{limits}:{factor}:{mi}", controlled, list(r), limits, factor, mi)

    lv = (0.0, -1.0, -INF)
    for n in (1, 2, 3):
        for a in itertools.product(lv, repeat=n):
            for b in itertools.product((0.5, -2.0, -INF), repeat=n):
                if any(p == -INF and q != -INF for p, q in zip(a, b)):
                    continue
                ctx.run(f"pv:{a}:{b}", p_value, n, list(a), list(b))

    seeds = (1, 2, 3, 4) if t else (1, 2)
    for fam in families():
        for method in ("p0", "ess"):
            for n in (2, 3, 8, 30):
                for req in (0.113, 0.313, 0.513, 0.913):
                    for k in range(4):
                        for seed in seeds:
                            ctx.run(f"sel:{fam}:{method}:{n}:{req}:{k}:{seed}", selection, fam, method, n, req,
                                    k, seed)
            for n in (2, 3, 10, 25):
                for req in (0.213, 0.513, 0.813):
                    for scheme in ("multinomial", "residual"):
                        for mh in (1, 3):
                            for seed in seeds:
                                ctx.run(f"run:{fam}:{method}:{n}:{req}:{scheme}:{mh}:{seed}", run, fam, method,
                                        n, req, scheme, mh, seed)
            for levels in itertools.product((0.0, 0.05, 0.3, 1.0), repeat=3):
                if list(levels) != sorted(levels):
                    continue
                for req in (0.313, 0.713):
                    ctx.run(f"seq:{fam}:{method}:{levels}:{req}", sequence, fam, method, 12, levels, req, 5)
            for config in (False, True):
                for mh in (1, 2, 4):
                    ctx.run(f"entry:{fam}:{method}:{config}:{mh}", entry, fam, method, 15, config, mh)

    for tail in ("upper", "lower"):
        for dim in (1, 2):
            for box in ((0.0, 1.0), (-1.0, 2.0), (0.0, 0.25)):
                for density in ("uniform", "unscaled", "normal", "cut"):
                    for th in ((0.5,), (0.5, 0.9), (0.3, 0.6, 0.8), (0.0, 0.5), (0.5, 2.0)):
                        for scheme in ("residual", "multinomial"):
                            for seed in seeds[:2]:
                                ctx.run(f"subset:{tail}:{dim}:{box}:{density}:{th}:{scheme}:{seed}", subset, tail,
                                        dim, box, density, th, 12, scheme, seed)


def _grows(ops):
    """Histories in which the support grows again (weights are then undefined)."""
    cut = False
    for op in ops:
        if op == "rw1":
            cut = True
        elif op in ("rw0", "rw2", "look") and cut:
            return True
    return False
