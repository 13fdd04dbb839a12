"""C21 - Metropolis-Hastings moves exactly by the acceptance rule and keeps a true record.

The sampler runs on scripted proposals, uniform draws and target answers.  All
scripts up to a length are enumerated and a plain transition model predicts the
trajectory, the record, the number of target evaluations and the statistics.
"""

import contextlib
import io
import itertools
import math

import numpy as np

from mc.ctx import to_np
from mc import scripted

INF = float("inf")
NAN = float("nan")
RAISE = "raise"
ANSWERS = (0.0, 1.0, -1.0, -INF, NAN, RAISE)
USES = (0.2, 0.5, 0.95)


class TargetError(Exception):
    pass


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def scalar(v):
    """A number of the numerical layer."""
    import gpmp.num as gnp
    return gnp.asarray(np.array(float(v)))


def accepts(u, log_a):
    if math.isnan(log_a):
        return False
    return (math.log(u) if u > 0 else -1e300) < log_a


class Script:
    """Proposals, draws and target answers fixed in advance.

    Every proposal is a new point; its target answer is the next one of the
    script of its chain.
    """

    def __init__(self, initial, answers0, plan, dim):
        self.dim = dim
        self.initial = np.asarray(initial, float)
        self.plan = plan                      # plan[c] = [(answer, u, point)]
        self.k = [0] * len(plan)
        self.queue = []
        self.value = {}
        for p, a in zip(self.initial, answers0):
            self.value[tuple(p.tolist())] = a
        for seq in plan:
            for a, u, p in seq:
                self.value[tuple(np.asarray(p, float).tolist())] = a
        self.evals = {}
        self.seen_from = []

    def prop(self, x, c):
        import gpmp.num as gnp
        a, u, p = self.plan[c][self.k[c]]
        self.k[c] += 1
        self.queue.append(u)
        self.seen_from.append((c, to_np(x).copy()))
        return gnp.asarray(np.asarray(p, float))

    def target(self, x):
        key = tuple(to_np(x).reshape(-1).tolist())
        self.evals[key] = self.evals.get(key, 0) + 1
        a = self.value[key]
        if a is RAISE:
            raise TargetError("no value here")
        return scalar(a)

    def rand(self, *shape):
        u = self.queue.pop(0)
        return scalar(u)


def model(initial, answers0, plan, n):
    """Trajectory predicted by the Metropolis rule (symmetric proposals)."""
    C = len(plan)
    num = lambda a: -INF if a is RAISE else a
    x = np.zeros((C, n + 1, initial.shape[1]))
    lt = np.zeros((C, n + 1))
    acc = np.zeros((C, n + 1))
    for c in range(C):
        x[c, 0], lt[c, 0], acc[c, 0] = initial[c], num(answers0[c]), 1
        for t in range(n):
            a, u, p = plan[c][t]
            ok = accepts(u, num(a) - lt[c, t] if not (math.isinf(num(a)) and num(a) == lt[c, t]) else NAN)
            x[c, t + 1] = p if ok else x[c, t]
            lt[c, t + 1] = num(a) if ok else lt[c, t]
            acc[c, t + 1] = ok
    return x, lt, acc


def sliding(acc, w):
    n = acc.shape[1]
    w = max(1, w)
    return np.array([[a[max(0, t - w + 1):t + 1].mean() for t in range(n)] for a in acc]).reshape(acc.shape)


def sampler(script, dim, chains, **kw):
    from gpmp.mcmc import mh
    opt = mh.MHOptions(dim=dim, n_chains=chains, init_msg=None, **kw)
    return mh.MetropolisHastings(script.target, script.prop, opt)


def record(ctx, s, script, initial, answers0, plan, n, w, out, burn, discard):
    """Everything recorded describes the predicted trajectory."""
    x, lt, acc = model(initial, answers0, plan, n)
    gx, gl, ga = to_np(s.x), to_np(s.log_target_values), to_np(s.accept)
    tag = str([[(a, u) for a, u, _ in seq] for seq in plan])
    ctx.equal(gx.shape, x.shape, "shape of the recorded states")
    ctx.ok(np.array_equal(gx, x), f"states {gx.tolist()} instead of {x.tolist()} for {tag}")
    ctx.ok(np.array_equal(ga.astype(float), acc), f"acceptance flags {ga.tolist()} instead of {acc.tolist()} for {tag}")
    if n:
        ctx.ok(np.array_equal(gl, lt, equal_nan=True), f"target values {gl.tolist()} instead of {lt.tolist()} for {tag}")
    want = x[:, burn:n] if discard else x[:, :n]
    got = to_np(out)
    ctx.ok(got.shape == want.shape and np.array_equal(got, want), f"returned sample {got.tolist()} instead of {want.tolist()}")
    ctx.close(to_np(s.rates), sliding(acc[:, :n], w), "sliding acceptance rates")
    # the target: once per proposal, once at the start unless its value is unknown
    for c, seq in enumerate(plan):
        for t in range(n):
            k = tuple(np.asarray(seq[t][2], float).tolist())
            ctx.equal(script.evals.get(k, 0), 1, f"evaluations at the proposal {k}")
        if n:
            k = tuple(initial[c].tolist())
            if not (isinstance(answers0[c], float) and math.isnan(answers0[c])):
                same = sum(tuple(i.tolist()) == k for i in initial)
                ctx.equal(script.evals.get(k, 0), same, f"evaluations at the initial state {k}")
    # proposals start from the current state of their own chain
    seen = {}
    for c, p in script.seen_from:
        t = seen.get(c, 0)
        seen[c] = t + 1
        ctx.ok(np.array_equal(p, x[c, t]), f"chain {c}: proposal made from {p} instead of {x[c, t]}")
    ctx.equal(script.queue, [], "uniform draws used")


def points(c, n, dim):
    return [[300.0 * (c + 1) + t + 0.25 * d for d in range(dim)] for t in range(n)]


def trace(ctx, dim, answers0, picks, burn, kw):
    C = len(picks)
    n = len(picks[0])
    initial = np.array([[-1.0 - c - 0.5 * d for d in range(dim)] for c in range(C)])
    plan = [[(a, u, p) for (a, u), p in zip(picks[c], points(c, n, dim))] for c in range(C)]
    script = Script(initial, answers0, plan, dim)
    kw = dict(kw)
    shape = kw.pop("init_shape", "2d")
    import gpmp.num as gnp
    s = sampler(script, dim, C, **kw)
    x0 = initial[0] if shape == "1d" else initial
    g0 = gnp.asarray(np.array(x0))
    with quiet(), scripted.patched(rand=script.rand):
        out = s.scheduler(g0, n_steps_total=n, burnin_period=burn)
    ctx.step()
    ctx.state(answers0, picks, burn)
    record(ctx, s, script, initial, answers0, plan, n, kw.get("sliding_rate_width", 200), out, burn, kw.get("discard_burnin", False))
    ctx.ok(np.array_equal(to_np(g0), x0), "the initial state was modified")


def single(ctx, cur, ans, u, form):
    """One transition for every combination of known or unknown current value, answer and draw."""
    import gpmp.num as gnp
    from gpmp.mcmc import mh
    calls = {"x": 0, "y": 0}

    def target(v):
        k = "x" if to_np(v).reshape(-1)[0] == 0.0 else "y"
        calls[k] += 1
        a = cur if k == "x" else ans
        if a is RAISE:
            raise TargetError()
        return scalar(a)
    x = gnp.asarray(np.zeros(1))
    y = gnp.asarray(np.ones(1))
    s = mh.MetropolisHastings(target, lambda p, c: y, mh.MHOptions(dim=1, init_msg=None))
    given = {"none": None, "nan": NAN, "float": cur, "tensor": None if cur is RAISE else scalar(cur), "nan tensor": scalar(NAN)}[form]
    if form == "float" and cur is RAISE:
        given = None
    with scripted.patched(rand=lambda *sh: scalar(u)):
        new, acc, lt_new, lt_old = s.mhstep(x, 0, given)
    num = lambda a: -INF if a is RAISE else a
    a, b = num(ans), num(cur)
    want = accepts(u, a - b if not (math.isinf(a) and a == b) else NAN)
    ctx.ok(bool(acc) == want, f"current {cur}, proposal {ans}, draw {u}: accepted={acc}")
    ctx.close(to_np(new), [1.0 if want else 0.0], "new state")
    ctx.ok(np.array_equal(float(lt_new), a if want else b, equal_nan=True), f"new value {lt_new}, current {cur}, proposal {ans}")
    ctx.ok(np.array_equal(float(lt_old), b, equal_nan=True), f"old value {lt_old} instead of {cur}")
    ctx.equal(calls["y"], 1, "evaluations at the proposal")
    if form in ("float", "tensor") and given is not None and not math.isnan(b):
        ctx.equal(calls["x"], 0, "evaluations at a state of known value")
    ctx.state(cur, ans, u, form)


def asymmetric(ctx, dim, cov, lt_x, lt_y, side, use_matrix):
    """Without symmetry the ratio of proposal densities enters (equal for these proposals)."""
    import gpmp.num as gnp
    from gpmp.mcmc import mh
    x = np.zeros(dim)
    y = np.arange(1.0, dim + 1)
    opt = mh.MHOptions(dim=dim, symmetric=False, init_msg=None,
                       proposal_distribution_param_init=gnp.asarray(cov * np.eye(dim) if use_matrix else cov * np.ones(dim)))
    s = mh.MetropolisHastings(lambda v: scalar(lt_x if to_np(v).reshape(-1)[0] == 0 else lt_y),
                              lambda v, c: gnp.asarray(y), opt)
    r = min(1.0, math.exp(lt_y - lt_x))
    u = r * (1 - 1e-6) if side else min(1.0, r * (1 + 1e-6))
    if not side and r >= 1:
        ctx.ok(True, "always accepted")
        return
    with quiet(), scripted.patched(rand=lambda *sh: scalar(u)):
        s.scheduler(gnp.asarray(x.reshape(1, -1)), n_steps_total=1, burnin_period=0)
    ctx.ok(bool(to_np(s.accept)[0, 1]) == bool(side), f"draw {u} against ratio {r}")
    ctx.state("asym", dim, cov, lt_x, lt_y, side, use_matrix)


def biased(ctx, lq_fwd, lq_rev, lt_y, side):
    """Proposals whose density is not symmetric, through an overridden log-density."""
    import gpmp.num as gnp
    from gpmp.mcmc import mh
    if not hasattr(mh.MetropolisHastings, "_log_prop"):
        ctx.ok(True, "no such hook")
        return

    class S(mh.MetropolisHastings):
        def _log_prop(self, x, x_new, chain_idx):
            return scalar(lq_fwd if to_np(x).reshape(-1)[0] == 0.0 else lq_rev)
    s = S(lambda v: scalar(0.0 if to_np(v).reshape(-1)[0] == 0 else lt_y), lambda v, c: gnp.asarray(np.ones(1)),
          mh.MHOptions(dim=1, symmetric=False, init_msg=None))
    r = math.exp(lt_y + lq_rev - lq_fwd)
    u = r * (1 - 1e-9) if side else r * (1 + 1e-9)
    ctx.state("biased", lq_fwd, lq_rev, lt_y, side)
    if u >= 1:
        u = 1 - 1e-12
        side = True
    with scripted.patched(rand=lambda *sh: scalar(u)):
        _, acc, _, _ = s.mhstep(gnp.asarray(np.zeros(1)), 0, 0.0)
    ctx.ok(bool(acc) == bool(side), f"draw {u} against ratio {r}")


def threshold(ctx, diff, side):
    """The draw is compared with the density ratio itself."""
    import gpmp.num as gnp
    from gpmp.mcmc import mh
    r = math.exp(diff)
    u = r * (1 - 1e-9 if side else 1 + 1e-9)
    ctx.state("thr", diff, side)
    if u >= 1:
        u, side = 1 - 1e-12, True
    s = mh.MetropolisHastings(lambda v: scalar(3.0 if to_np(v).reshape(-1)[0] == 0 else 3.0 + diff),
                              lambda v, c: gnp.asarray(np.ones(1)), mh.MHOptions(dim=1, init_msg=None))
    with scripted.patched(rand=lambda *sh: scalar(u)):
        _, acc, _, _ = s.mhstep(gnp.asarray(np.zeros(1)), 0, 3.0)
    ctx.ok(bool(acc) == bool(side), f"draw {u} against ratio {r}")


def forced(values, accepted, dim):
    """Plan whose acceptance decisions and proposals are given."""
    return [[(0.0 if ok else -INF, 0.5, v) for v, ok in zip(vs, oks)] for vs, oks in zip(values, accepted)]


def rates(ctx, pattern, w):
    import gpmp.num as gnp
    n = len(pattern[0])
    C = len(pattern)
    initial = np.array([[-1.0 - c] for c in range(C)])
    plan = forced([points(c, n, 1) for c in range(C)], pattern, 1)
    script = Script(initial, [0.0] * C, plan, 1)
    s = sampler(script, 1, C, sliding_rate_width=w)
    with quiet(), scripted.patched(rand=script.rand):
        s.scheduler(gnp.asarray(initial), n_steps_total=n, burnin_period=0)
    acc = np.hstack([np.ones((C, 1)), np.array(pattern, float)])
    for k in sorted({w, 1, 2, n, n + 3}):
        ctx.close(to_np(s.compute_sliding_rates(k)), sliding(acc[:, :n], k), f"sliding rates of width {k} for {pattern}")
    ctx.close(to_np(s.rates), sliding(acc[:, :n], w), f"sliding rates for {pattern}, width {w}")
    if n >= 2:
        other = sliding(acc[:, :n], 1) * 0.5
        with quiet():
            r = s.check_acceptance_rates(rates=gnp.asarray(other), burnin_period=1) if n >= 3 else s.check_acceptance_rates(rates=gnp.asarray(other))
        part = other[:, 1:] if n >= 3 else other
        ctx.close([float(r["min_ar"]), float(r["max_ar"])], [part.min(), part.max()], "extremes of the rates given")
    if n >= 2:
        want = sliding(acc[:, :n], w)
        for lo, hi in ((0.15, 0.4), (0.0, 1.0), (0.5, 1.0)):
            with quiet():
                r = s.check_acceptance_rates(low_threshold=lo, high_threshold=hi)
            ctx.close([float(r["min_ar"]), float(r["max_ar"])], [want.min(), want.max()], "extreme acceptance rates")
            ctx.equal(bool(r["ok"]), bool(want.min() >= lo and want.max() <= hi), "acceptance verdict")
        for last in (2, n - 1, n):
            if last >= 2:
                with quiet():
                    r = s.check_acceptance_rates(last_n_samples=last)
                ctx.close(float(r["min_ar"]), want[:, n - last:].min(), "lowest rate of the last samples")
    ctx.state(pattern, w)


def ref_rhat(b):
    n = b.shape[1]
    W = b.var(axis=1, ddof=1).mean(axis=0)
    B = n * b.mean(axis=1).var(axis=0, ddof=1)
    with np.errstate(all="ignore"):
        return np.sqrt(((n - 1) / n * W + B / n) / W)


def all_accepted(chains, dim, **kw):
    """Sampler whose recorded states are exactly the given ones."""
    import gpmp.num as gnp
    x = np.asarray(chains, float).reshape(len(chains), -1, dim)
    C, m, _ = x.shape

    class Fixed:
        k = [0] * C

        def prop(self, p, c):
            self.k[c] += 1
            return gnp.asarray(x[c, self.k[c]])
    f = Fixed()
    f.k = [0] * C
    from gpmp.mcmc import mh
    s = mh.MetropolisHastings(lambda v: scalar(0.0), f.prop, mh.MHOptions(dim=dim, n_chains=C, init_msg=None, **kw))
    return s, x


def diagnostics(ctx, chains, dim, burn):
    import gpmp.num as gnp
    s, x = all_accepted(chains, dim)
    C, m, _ = x.shape
    with quiet(), scripted.patched(rand=lambda *sh: scalar(0.5)):
        s.scheduler(gnp.asarray(x[:, 0]), n_steps_total=m - 1, burnin_period=burn)
    ctx.ok(np.array_equal(to_np(s.x), x), "recorded states")
    n = m - 1
    with np.errstate(all="ignore"):
        for kw, block in ((dict(), x[:, burn:n]), (dict(burnin_period=0), x[:, :n]), (dict(burnin_period=1), x[:, 1:n]),
                          (dict(last_n_samples=2), x[:, n - 2:n]), (dict(last_n_samples=3), x[:, max(0, n - 3):n]),
                          (dict(last_n_samples=50), x[:, max(0, n - 50):n])):
            if block.shape[1] < 2:
                if C >= 2:
                    ctx.raises(ValueError, lambda: s.compute_gelman_rubin_rhat(**kw), "too few samples")
                continue
            if C < 2:
                ctx.raises(ValueError, lambda: s.compute_gelman_rubin_rhat(**kw), "a single chain")
                continue
            want = ref_rhat(block)
            ctx.close(to_np(s.compute_gelman_rubin_rhat(**kw)), want, f"R-hat of {block.tolist()}", rtol=1e-9)
            for thr in (1.1, 1.5):
                with quiet():
                    r = s.check_convergence_gelman_rubin(threshold=thr, **dict(dict(burnin_period=burn), **kw))
                ctx.equal(bool(r["ok"]), bool((want < thr).all()), f"convergence verdict for R-hat {want}")
        for b in {burn, 0, 1}:
            for g in range(1, C + 1):
                if C % g:
                    ctx.raises(ValueError, lambda: s.compute_empirical_covariance_whole_chain(burnin=b, n_pool=g), "groups that do not divide the chains")
                    continue
                covs = s.compute_empirical_covariance_whole_chain(burnin=b, n_pool=g)
                ctx.equal(len(covs), C // g, "number of groups")
                for i, cv in enumerate(covs):
                    blk = x[i * g:(i + 1) * g, b:].reshape(-1, dim)
                    if len(blk) > 1:
                        ctx.close(np.atleast_2d(to_np(cv)), np.atleast_2d(np.cov(blk.T, ddof=1)), "covariance of a group", atol=1e-12)
            if m - b > 1:
                for kw, scale, eps in (({}, 2.38 ** 2 / dim, 1e-6), (dict(scaling=0.5), 0.5, 1e-6), (dict(scaling=2.0, epsilon=0.25), 2.0, 0.25)):
                    s.recompute_all_chains_full_covariance(burnin=b, **kw)
                    for c in range(C):
                        want = scale * np.atleast_2d(np.cov(x[c, b:].T, ddof=1)) + eps * np.eye(dim)
                        ctx.close(np.atleast_2d(to_np(s.proposal_distribution_params[c])), want, f"proposal covariance recomputed with {kw}", rtol=1e-9, atol=1e-12)
            if C * (m - b) > 1:
                ctx.close(np.atleast_2d(to_np(s.compute_empirical_covariance_whole_chain(burnin=b, pooled=True))),
                          np.atleast_2d(np.cov(x[:, b:].reshape(-1, dim).T, ddof=1)), "pooled covariance", atol=1e-12)
    ctx.state(chains, dim, burn)


def kolmogorov(ctx, chains, nb, size, thr):
    import gpmp.num as gnp
    from scipy.stats import ks_2samp
    s, x = all_accepted(chains, 1)
    C, m, _ = x.shape
    with quiet(), scripted.patched(rand=lambda *sh: scalar(0.5)):
        s.scheduler(gnp.asarray(x[:, 0]), n_steps_total=m - 1, burnin_period=0)
    ctx.state("ks", chains, nb, size, thr)

    def ref(nb, size):
        blocks = [x[c, m - nb * size + b * size: m - nb * size + (b + 1) * size, 0] for c in range(C) for b in range(nb)]
        B = len(blocks)
        st, pv = np.zeros((1, B, B)), np.zeros((1, B, B))
        for i in range(B):
            for j in range(B):
                if i != j:
                    a, b = blocks[min(i, j)], blocks[max(i, j)]
                    grid = np.concatenate([a, b])
                    st[0, i, j] = max(abs(np.mean(a <= g) - np.mean(b <= g)) for g in grid)
                    pv[0, i, j] = ks_2samp(a, b).pvalue
        return st, pv, B
    if nb * size > m:
        ctx.raises(ValueError, lambda: s.ks_statistics(nb, size), "more samples than available")
        return
    st, pv, B = ref(nb, size)
    for alpha in (0.01, 0.5):
        k, p, sig = s.ks_statistics(nb, size, alpha=alpha, return_statistic=True)
        ctx.close(to_np(k), st, "Kolmogorov-Smirnov distances")
        ctx.close(to_np(p), pv, "p-values")
        off = ~np.eye(B, dtype=bool)
        ctx.ok(np.array_equal(to_np(sig)[:, off], (pv < alpha)[:, off]), "significant pairs")
        if alpha == 0.5 and thr > 0.5:
            for rs, rt in ((None, None), (False, True), (False, None)):
                kw = {k: v for k, v in (("return_significance", rs), ("return_statistic", rt)) if v is not None}
                out = s.ks_statistics(nb, size, alpha=alpha, **kw)
                out = list(out) if isinstance(out, tuple) else [out]
                want = ([st] if rt else []) + [pv] + ([pv < alpha] if rs is None or rs else [])
                ctx.equal(len(out), len(want), f"parts returned for {kw}")
                for o, w in zip(out, want):
                    ctx.close(to_np(o).astype(float)[:, off], w.astype(float)[:, off], f"part returned for {kw}")
        with quiet():
            r = s.check_convergence_ks(multi_block_n_blocks=nb, multi_block_size=size, alpha=alpha, fraction_threshold=thr)
        f = (pv[0] < alpha)[off].mean() if B > 1 else 0.0
        st1, pv1, B1 = ref(1, nb * size)
        off1 = ~np.eye(B1, dtype=bool)
        f1 = (pv1[0] < alpha)[off1].mean() if B1 > 1 else 0.0
        ctx.close(r["multi_block"]["frac_significant"], f, "fraction of significant pairs of blocks")
        ctx.close(r["single_block"]["frac_significant"], f1, "fraction of significant pairs of chains")
        ctx.equal(bool(r["ok"]), bool(f < thr and f1 < thr), "verdict")


def adaptation(ctx, method, pattern, interval, burn, n, chains, pool, dim, freeze, diminishing, init):
    """Proposal scales after a run follow the documented updates, block by block."""
    import gpmp.num as gnp
    initial = np.array([[-1.0 - c - 0.3 * d for d in range(dim)] for c in range(chains)])
    pts = [[[math.sin(1.3 * t + c + 0.7 * d) * (1 + d) for d in range(dim)] for t in range(1, n + 1)] for c in range(chains)]
    acc = [[pattern[(t + c) % len(pattern)] for t in range(n)] for c in range(chains)]
    plan = forced(pts, acc, dim)
    script = Script(initial, [0.0] * chains, plan, dim)
    p0 = {"ones": None, "vector": np.arange(1.0, dim + 1), "matrix": np.eye(dim) + 0.1,
          "chains": np.array([np.eye(dim) * (1 + c) for c in range(chains)])}[init]
    g = None if p0 is None else gnp.asarray(p0.copy())
    s = sampler(script, dim, chains, adaptation_method=method, adaptation_interval=interval, n_pool=pool,
                freeze_adaptation=freeze, RM_diminishing=diminishing, RM_adapt_factor=0.8, target_acceptance=0.3,
                haario_adapt_factor_burnin_phase=0.9, haario_adapt_factor_sampling_phase=0.4,
                proposal_distribution_param_init=g)
    with quiet(), scripted.patched(rand=script.rand):
        s.scheduler(gnp.asarray(initial), n_steps_total=n, burnin_period=burn)
    x, lt, a = model(initial, [0.0] * chains, plan, n)
    ctx.ok(np.array_equal(to_np(s.x), x), "trajectory under adaptation")
    if p0 is None:
        par = [np.ones(dim) for _ in range(chains)]
    else:
        par = [np.array(p0[c] if p0.ndim == 3 else p0) for c in range(chains)]
    scale = [1.0] * chains
    blocks = [(k * interval, (k + 1) * interval, True) for k in range(burn // interval)]
    if not freeze:
        blocks += [(burn + k * interval, burn + (k + 1) * interval, False) for k in range((n - burn) // interval)]
    for lo, hi, burning in blocks:
        for c in range(chains):
            r = a[c, lo + 1:hi + 1].mean()
            if method.lower() == "rm":
                gam = 0.8
                if burning and diminishing:
                    gam = 0.8 * (0.1 + 0.9 * 0.5 * (1 + math.cos(math.pi * hi / burn)))
                par[c] = par[c] * math.exp(gam * (r - 0.3))
            else:
                scale[c] *= math.exp((0.9 if burning else 0.4) * (r - 0.3))
                grp = c // pool
                blk = x[grp * pool:(grp + 1) * pool, lo + 1:hi + 1].reshape(-1, dim)
                par[c] = scale[c] * np.atleast_2d(np.cov(blk.T, ddof=1)) + 1e-6 * np.eye(dim)
    for c in range(chains):
        got = to_np(s.proposal_distribution_params[c])
        ctx.close(got, par[c], f"proposal parameters of chain {c} after {len(blocks)} blocks", rtol=1e-8, atol=1e-12)
    if g is not None:
        ctx.ok(np.array_equal(to_np(g), p0), "the initial proposal parameters of the caller were modified")
    ctx.state(method, pattern, interval, burn, n, chains, pool, dim, freeze, diminishing, init)
    ctx.step(len(blocks) + 1)


def proposals(ctx, dim, init):
    """Default proposals: x plus a linear image of standard draws with the stated covariance."""
    import gpmp.num as gnp
    from gpmp.mcmc import mh
    C = {"scalar": 0.49 * np.eye(dim), "vector": np.diag(np.arange(1.0, dim + 1)), "matrix": np.eye(dim) * 0.6 + 0.4,
         "small": 1e-6 * (np.eye(dim) + 0.3)}[init]
    p0 = {"scalar": 0.49 * np.ones(dim), "vector": np.arange(1.0, dim + 1)}.get(init, C)

    def draws(p, x):
        seen = []
        opt = mh.MHOptions(dim=dim, init_msg=None, proposal_distribution_param_init=gnp.asarray(p))

        def target(v):
            seen.append(to_np(v).copy())
            return scalar(0.0)
        out = []
        for seed in range(dim + 3):
            s = mh.MetropolisHastings(target, None, opt)
            gnp.set_seed(100 + seed)
            del seen[:]
            with quiet():
                s.scheduler(gnp.asarray(np.array([x])), n_steps_total=1, burnin_period=0)
            out.append(seen[-1])
            ctx.step()
        return np.array(out) - x
    x = np.arange(dim) - 3.0
    z = draws(np.eye(dim), np.zeros(dim))
    y = draws(p0, x)
    A, _, rk, _ = np.linalg.lstsq(z, y, rcond=None)
    ctx.equal(rk, dim, "independent perturbations")
    tol = np.sqrt(C.max())
    ctx.close(z @ A, y, "perturbations are linear in the standard ones", atol=1e-7 * tol, rtol=1e-7)
    ctx.close(A.T @ A, C, "covariance of the proposals", rtol=1e-6, atol=1e-7 * C.max())
    ctx.state("prop", dim, init)


def singular(ctx, dim):
    """A covariance that is not positive definite is repaired, or refused, never silently wrong."""
    import gpmp.num as gnp
    from gpmp.mcmc import mh
    v = np.ones((dim, dim))
    gnp.set_seed(1)
    d = to_np(mh.sample_multivariate_normal_with_jitter(gnp.zeros(dim), gnp.asarray(v)))
    ctx.equal(d.shape, (dim,), "shape of the perturbation")
    ctx.ok(np.abs(d - d.mean()).max() < 0.05, f"perturbation {d} with perfectly correlated coordinates")
    bad = -np.eye(dim)
    ctx.raises((RuntimeError, ValueError, np.linalg.LinAlgError), lambda: mh.sample_multivariate_normal_with_jitter(gnp.zeros(dim), gnp.asarray(bad)),
               "negative definite covariance")
    ctx.state("sing", dim)


def early(ctx, interval, factor, extra, chains, discard, method, late):
    """Burn-in ending early: the record holds exactly the steps that were run."""
    import gpmp.num as gnp
    stop = 20 * interval
    burn = stop * factor
    n = burn + extra
    initial = np.array([[0.5] for c in range(chains)])
    # chains start apart for the first "late" blocks
    pts = [[[float((t * 7 + 3 * c) % 5) + 1e-3 * t + (6.0 * c if t <= late * interval else 0.0)] for t in range(1, n + 1)] for c in range(chains)]
    acc = [[True] * n for c in range(chains)]
    plan = forced(pts, acc, 1)
    script = Script(initial, [0.0] * chains, plan, 1)
    s = sampler(script, 1, chains, adaptation_method=method, adaptation_interval=interval, acceptance_tol=2.0,
                discard_burnin=discard)
    with quiet(), scripted.patched(rand=script.rand):
        out = s.scheduler(gnp.asarray(initial), n_steps_total=n, burnin_period=burn)
    x, lt, a = model(initial, [0.0] * chains, plan, n)
    steps = script.k[0]
    ctx.ok(all(k == steps for k in script.k), f"steps per chain {script.k}")
    ctx.ok(steps == n or chains > 1, "early end without a convergence statistic")
    b = steps - extra
    ctx.ok(b % interval == 0 and b <= burn, f"burn-in of {b} steps")
    if chains > 1 and b < burn:
        # the end of burn-in agrees with the statistic on the last twenty blocks
        ctx.ok((ref_rhat(x[:, b - stop:b]) < 1.1).all(), "burn-in ended before convergence")
    for k in range(stop, b, interval):
        ctx.ok(chains == 1 or not (ref_rhat(x[:, k - stop:k]) < 1.1).all(), f"convergence at {k} was not noticed")
    if chains > 1 and b == burn and factor > 1:
        ctx.ok(not (ref_rhat(x[:, b - interval - stop:b - interval]) < 1.1).all(), "convergence was not noticed")
    ctx.ok(np.array_equal(to_np(s.x), x[:, :steps + 1]), f"states after an early end: {to_np(s.x).shape}")
    ctx.ok(np.array_equal(to_np(s.accept), a[:, :steps + 1]), "acceptance flags after an early end")
    ctx.ok(np.array_equal(to_np(s.log_target_values), lt[:, :steps + 1]), "target values after an early end")
    want = x[:, b:steps] if discard else x[:, :steps]
    ctx.ok(to_np(out).shape == want.shape and np.array_equal(to_np(out), want), f"returned sample of shape {to_np(out).shape}, {want.shape} expected")
    ctx.state("early", interval, factor, extra, chains, discard, method, late)


def again(ctx, picks, dim):
    """A second run of the same sampler starts afresh."""
    import gpmp.num as gnp
    n = len(picks)
    initial = np.array([[-1.0 - 0.5 * d for d in range(dim)]])
    plan = [[(a, u, p) for (a, u), p in zip(picks, points(0, n, dim))]]
    first = Script(initial, [0.0], plan, dim)
    s = sampler(first, dim, 1, adaptation_method="RM", adaptation_interval=1)
    with quiet(), scripted.patched(rand=first.rand):
        s.scheduler(gnp.asarray(initial), n_steps_total=n, burnin_period=n // 2)
    par = to_np(s.proposal_distribution_params[0]).copy()
    second = Script(initial, [0.0], plan, dim)
    s.log_target, s.prop_rnd = second.target, second.prop
    with quiet(), scripted.patched(rand=second.rand):
        out = s.scheduler(gnp.asarray(initial), n_steps_total=n, burnin_period=n // 2)
    record(ctx, s, second, initial, [0.0], plan, n, 200, out, n // 2, False)
    ctx.close(to_np(s.proposal_distribution_params[0]), par, "proposal scale of a second run")
    ctx.state("again", picks, dim)


def invalid(ctx):
    import gpmp.num as gnp
    from gpmp.mcmc import mh
    t = lambda v: scalar(0.0)
    z = lambda *sh: gnp.asarray(np.zeros(sh))

    def make(**kw):
        return mh.MetropolisHastings(t, lambda x, c: x + 1.0, mh.MHOptions(init_msg=None, **kw))
    with quiet():
        ctx.raises(ValueError, lambda: make(dim=2).scheduler(z(3), 2, 1), "initial state of the wrong dimension")
        ctx.raises(ValueError, lambda: make(dim=2, n_chains=2).scheduler(z(3, 2), 2, 1), "wrong number of initial states")
        ctx.raises(ValueError, lambda: make(dim=2, n_chains=2).scheduler(z(2), 2, 1, replicate_initial_state=False), "one state for two chains without replication")
        ctx.raises(ValueError, lambda: make(dim=1).scheduler(z(1), 2, 3), "burn-in longer than the run")
        ctx.raises(ValueError, lambda: make(dim=1, adaptation_method="other", adaptation_interval=1).scheduler(z(1), 2, 2), "unknown adaptation")
        ctx.raises(ValueError, lambda: make(dim=2, proposal_distribution_param_init=z(3)).scheduler(z(2), 2, 1), "proposal scales of the wrong length")
        ctx.raises(ValueError, lambda: make(dim=1, n_chains=3, n_pool=2, adaptation_interval=2).scheduler(z(1), 4, 2), "groups that do not divide the chains")
        ctx.raises(ValueError, lambda: make(dim=1).compute_sliding_rates(3), "rates before a run")
        ctx.raises(ValueError, lambda: make(dim=1, n_chains=2).compute_gelman_rubin_rhat(), "statistic before a run")
        ctx.equal(make(dim=1).check_acceptance_rates(burnin_period=0), {}, "no verdict without rates")
        ctx.raises(ValueError, lambda: make(dim=1).recompute_all_chains_full_covariance(burnin=0), "covariance before a run")
        for d in (1, 2, 5):
            ctx.close(np.array(make(dim=d, n_chains=2, haario_initial_scaling_factor=None).haario_scaling_factors, float), [2.38 ** 2 / d] * 2, "default scale of the covariance")
            ctx.close(np.array(make(dim=d, n_chains=2, haario_initial_scaling_factor=0.7).haario_scaling_factors, float), [0.7] * 2, "scale of the covariance given")
        s = make(dim=2, n_chains=3)
        out = s.scheduler(z(2), 2, 1)
        ctx.equal(to_np(out).shape, (3, 2, 2), "one initial state is replicated")
        s = make(dim=1)
        cov = s.update_proposal_covariance_from_samples(x_chain=gnp.asarray(np.array([[0.0], [1.0], [5.0]])))
        ctx.close(np.atleast_2d(to_np(cov)), [[2.38 ** 2 * 7.0 + 1e-6]], "covariance from samples")
        ctx.raises(ValueError, lambda: s.update_proposal_covariance_from_samples(), "neither samples nor covariance")
    ctx.state("invalid")


def explore(ctx):
    th = ctx.thorough
    for cur in ANSWERS + (INF,):
        for ans in ANSWERS + (INF, 800.0, -800.0):
            for u in USES + (0.0, 1 - 1e-12):
                if u == 0.0 and isinstance(ans, float) and ans == -800.0:
                    continue
                for form in ("none", "nan", "float", "tensor", "nan tensor"):
                    ctx.run(f"step/{cur}/{ans}/{u}/{form}", single, cur, ans, u, form)
    for diff in (-5.0, -1.0, -0.1, -1e-3, 0.0, 1e-3, 2.0):
        for side in (0, 1):
            ctx.run(f"thr/{diff}/{side}", threshold, diff, side)
            for f in (-2.0, 0.0, 1.5):
                for r in (-1.0, 0.0, 2.0):
                    ctx.run(f"biased/{diff}/{side}/{f}/{r}", biased, f, r, diff, side)
            for dim in (1, 2, 3):
                for cov in (0.5, 2.0):
                    for m in (0, 1):
                        ctx.run(f"asym/{dim}/{cov}/{diff}/{side}/{m}", asymmetric, dim, cov, 0.0, diff, side, m)
    # traces: one chain, three steps (four thorough), all answers and draws
    outcomes = list(itertools.product(ANSWERS, (0.2, 0.5)))
    for a0 in ANSWERS:
        for n in (0, 1, 2):
            for seq in itertools.product(itertools.product(ANSWERS, USES), repeat=n):
                for burn in range(n + 1):
                    ctx.run(f"trace/{a0}/{seq}/{burn}", trace, 1 + n % 2, (a0,), (seq,), burn, {})
        if th or a0 in (0.0, -INF):
            for seq in itertools.product(outcomes, repeat=3):
                ctx.run(f"trace3/{a0}/{seq}", trace, 1, (a0,), (seq,), 1, {"discard_burnin": True, "sliding_rate_width": 2})
    short = list(itertools.product((0.0, -1.0, -INF), (0.2, 0.5)))
    for a0 in itertools.product((0.0, -1.0, NAN), repeat=2):
        for s1 in itertools.product(short, repeat=2):
            for s2 in itertools.product(short, repeat=2):
                if th or a0 == (0.0, -1.0) or (s1[0] == s2[1]):
                    ctx.run(f"trace22/{a0}/{s1}/{s2}", trace, 2, a0, (s1, s2), 1, {"adaptation_interval": 50})
    if th:
        for seq in itertools.product(itertools.product((0.0, -1.0, -INF, NAN), (0.2, 0.5)), repeat=4):
            ctx.run(f"trace4/{seq}", trace, 1, (0.0,), (seq,), 2, {"sliding_rate_width": 3})
    # longer runs, more chains, more dimensions
    for dim in (3, 5, 8):
        for C in (1, 3, 6):
            for n in (7, 20, 64):
                for burn in (0, n // 3, n):
                    seqs = tuple(tuple(outcomes[(5 * t * t + 3 * c + 7 * t) % len(outcomes)] for t in range(n)) for c in range(C))
                    for kw in ({"adaptation_interval": 500}, {"adaptation_interval": 500, "discard_burnin": True, "sliding_rate_width": 6}):
                        ctx.run(f"long/{dim}/{C}/{n}/{burn}/{sorted(kw)}", trace, dim, (0.0, -1.0, -INF, NAN, 0.0, -1.0)[:C], seqs, burn, kw)
    for n in (20, 50, 201, 260):
        pat = tuple(int((7 * t * t + 3 * t) % 5 < 2) for t in range(n))
        for w in (1, 10, 49, 50, 200):
            ctx.run(f"rateslong/{n}/{w}", rates, (pat, pat[::-1], pat[3:] + pat[:3]), w)
    for C, dim, n in ((2, 5, 40), (5, 2, 60), (3, 8, 101)):
        for burn in (0, 10):
            ch = tuple(tuple(round(math.sin(3.1 * t * t + 2 * c + d), 3) for t in range(n) for d in range(dim)) for c in range(C))
            ctx.run(f"diaglong/{C}/{dim}/{burn}", diagnostics, ch, dim, burn)
    for method in ("RM", "Haario"):
        for dim, chains, pool, burn, n, interval in ((3, 3, 3, 40, 60, 10), (5, 2, 1, 60, 60, 20), (4, 4, 2, 30, 90, 15), (6, 1, 1, 50, 101, 25)):
            for pattern in ((1,), (1, 0, 0), (0, 1, 1, 1)):
                for freeze in (True, False):
                    ctx.run(f"adaptlong/{method}/{dim}/{chains}/{pool}/{burn}/{n}/{pattern}/{freeze}", adaptation, method, pattern, interval,
                            burn, n, chains, pool, dim, freeze, True, "ones")
    for dim in (6, 10):
        for init in ("vector", "matrix"):
            ctx.run(f"proplong/{dim}/{init}", proposals, dim, init)
    for s in itertools.product(short, repeat=3):
        for dim in (1, 2):
            ctx.run(f"again/{s}/{dim}", again, s, dim)
    top = 8 if th else 6
    for n in range(1, top + 1):
        for pat in itertools.product((0, 1), repeat=n):
            for w in (1, 2, 3, 5, 200):
                ctx.run(f"rates/{pat}/{w}", rates, (pat,), w)
                if n <= 4:
                    ctx.run(f"rates2/{pat}/{w}", rates, (pat, pat[::-1]), w)
    vals = (0.0, 1.0, 4.0)
    for m in (3, 4):
        for a in itertools.product(vals, repeat=m):
            for b in itertools.product(vals, repeat=m) if (m == 3 or th) else [a[::-1], (1.0, 0.0, 2.0, 5.0)]:
                for burn in (0, 1):
                    ctx.run(f"diag/{a}/{b}/{burn}", diagnostics, (a, b), 1, burn)
    for C in (1, 2, 3, 4):
        for dim in (1, 2, 3):
            for burn in (0, 2):
                ch = tuple(tuple(round(math.sin(3.1 * t + 2 * c + d), 3) for t in range(6) for d in range(dim)) for c in range(C))
                ctx.run(f"diagN/{C}/{dim}/{burn}", diagnostics, ch, dim, burn)
    for a in itertools.product((0.0, 1.0, 2.0), repeat=4):
        for b in ((0.0, 1.0, 2.0, 3.0), (2.0, 2.0, 0.0, 0.0), (5.0, 6.0, 7.0, 8.0)):
            for nb, size in ((1, 4), (2, 2), (4, 1), (1, 2), (3, 2)):
                ctx.run(f"ks/{a}/{b}/{nb}/{size}", kolmogorov, (a, b), nb, size, 0.5)
    far = tuple(tuple(float(100 * c + t) for t in range(12)) for c in range(3))
    for nb, size in ((1, 6), (2, 6), (1, 12), (3, 4)):
        for thr in (0.5, 0.99, 1.1):
            ctx.run(f"ksfar/{nb}/{size}/{thr}", kolmogorov, far, nb, size, thr)
            ctx.run(f"ksone/{nb}/{size}/{thr}", kolmogorov, far[:1], nb, size, thr)
    for method in ("RM", "Haario", "haario", "rm"):
        for pattern in ((1,), (0,), (1, 0), (1, 0, 0), (0, 1, 1, 1)):
            for interval in (2, 3, 5):
                for burn, n in ((0, 4), (6, 6), (6, 11), (7, 12), (4, 4)):
                    for chains, pool in ((1, 1), (2, 1), (2, 2), (4, 2)):
                        for dim in (1, 2):
                            if method in ("haario", "rm") and (dim == 2 or chains > 2):
                                continue
                            for freeze in (True, False):
                                for dim_, init in ((dim, "ones"), (dim, "vector"), (dim, "matrix"), (dim, "chains")):
                                    if init != "ones" and (interval != 3 or len(pattern) == 1):
                                        continue
                                    k = (len(pattern) + interval + burn + chains) % 2 == 0
                                    for dimn in ((True, False) if method.lower() == "rm" and init == "ones" else (k,)):
                                        if not th and (dim == 2 and chains == 4 and not freeze):
                                            continue
                                        ctx.run(f"adapt/{method}/{pattern}/{interval}/{burn}/{n}/{chains}/{pool}/{dim}/{freeze}/{dimn}/{init}",
                                                adaptation, method, pattern, interval, burn, n, chains, pool, dim, freeze, dimn, init)
    for dim in (1, 2, 3, 4):
        for init in ("scalar", "vector", "matrix", "small"):
            ctx.run(f"prop/{dim}/{init}", proposals, dim, init)
        if dim > 1:
            ctx.run(f"sing/{dim}", singular, dim)
    for interval in (2, 3):
        for factor in (1, 2, 3):
            for extra in (0, 1, 5):
                for chains in (1, 2, 3):
                    for discard in (False, True):
                        for method in ("RM", "Haario"):
                            for late in (0, 12, 25, 90):
                                ctx.run(f"early/{interval}/{factor}/{extra}/{chains}/{discard}/{method}/{late}", early,
                                        interval, factor, extra, chains, discard, method, late)
    ctx.run("invalid", invalid)
