"""C22 - the No-U-Turn transition leaves the target distribution invariant.

The orbit of a starting point under the integrator is computed independently.
For a fixed slice, every direction and selection decision of a transition is
enumerated with its exact probability, from every point of a stretch of the
orbit.  The resulting transition matrix must be symmetric and equal to that of
a plain model of the algorithm.
"""

import contextlib
import io
import itertools
import math

import numpy as np

from mc.ctx import to_np
from mc import scripted, zoo


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


# --- targets: (log density for the code, U and gradient for the model) -------

def _sum(x):
    return x.sum()


def wall_lp(q):
    import gpmp.num as gnp
    v = -0.5 * (q * q).sum()
    if float(to_np(q)[0]) > 1.6:
        return v - gnp.asarray(np.array(np.inf))
    return v


TARGETS = {
    "normal": (lambda q: -0.5 * (q * q).sum(), lambda q: 0.5 * (q * q).sum(), lambda q: q),
    "scaled": (lambda q: -0.5 * (4.0 * q[0] * q[0] + 0.25 * (q[1:] * q[1:]).sum()),
               lambda q: 0.5 * (4.0 * q[0] ** 2 + 0.25 * (q[1:] ** 2).sum()),
               lambda q: np.concatenate([[4.0 * q[0]], 0.25 * q[1:]])),
    "quartic": (lambda q: -((q * q) * (q * q)).sum() / 4.0, lambda q: (q ** 4).sum() / 4.0, lambda q: q ** 3),
    "wells": (lambda q: -((q * q - 1.0) * (q * q - 1.0)).sum(), lambda q: ((q * q - 1) ** 2).sum(), lambda q: 4 * q * (q * q - 1)),
    "wall": (wall_lp, lambda q: 0.5 * (q * q).sum() if q[0] <= 1.6 else np.inf, lambda q: q),
}


class Orbit:
    """Points of the leapfrog orbit through (q, p)."""

    def __init__(self, target, q, p, eps, inv_mass, lo, hi):
        self.lp, self.U, self.g = TARGETS[target]
        self.eps, self.im = eps, inv_mass
        self.z = {0: (q.copy(), p.copy())}
        for k in range(hi):
            self.z[k + 1] = self.step(*self.z[k], +1)
        for k in range(-lo):
            self.z[-k - 1] = self.step(*self.z[-k], -1)
        self.H = {k: self.energy(*z) for k, z in self.z.items()}

    def step(self, q, p, v):
        e = v * self.eps
        ph = p - 0.5 * e * self.g(q)
        qn = q + e * ph * self.im
        return qn, ph - 0.5 * e * self.g(qn)

    def energy(self, q, p):
        return float(self.U(q) + 0.5 * (p * p * self.im).sum())

    def uturn(self, a, b):
        (qa, pa), (qb, pb) = self.z[a], self.z[b]
        d = qb - qa
        s1, s2 = float((d * self.im * pa).sum()), float((d * self.im * pb).sum())
        self.margin = min(getattr(self, "margin", 1.0), abs(s1), abs(s2))
        return s1 < 0 or s2 < 0


def kernel_model(o, i, level, depth_max, delta):
    """Outcome distribution {(selected index, doublings, steps, divergent): probability} and mean acceptance."""
    out = {}

    def leaf(k):
        """(valid points, continue, steps, alphas, divergent) of one new point."""
        H = o.H[k]
        if not math.isfinite(H):
            return [], False, [k], None, True
        return ([k] if level <= -H else []), level < delta - H, [k], min(1.0, math.exp(min(0.0, o.H[i] - H))), H - o.H[i] > delta

    def tree(start, v, depth):
        """Points start, start+v, ... (2**depth of them)."""
        if depth == 0:
            val, s, steps, al, dv = leaf(start)
            return dict(valid=val, go=s, n=1, alphas=[al], div=dv, end=start)
        a = tree(start, v, depth - 1)
        if not a["go"]:
            return a
        b = tree(a["end"] + v, v, depth - 1)
        lo, hi = sorted((start, b["end"]))
        go = b["go"] and not o.uturn(lo, hi) if b["go"] else False
        return dict(valid=a["valid"] + b["valid"], go=go, n=a["n"] + b["n"], alphas=a["alphas"] + b["alphas"],
                    div=a["div"] or b["div"], end=b["end"])

    def grow(lo, hi, valid, depth, n, alphas, div, prob):
        # valid: the points among which the selected one is uniformly distributed
        for v in (-1, 1):
            t = tree(lo - 1 if v < 0 else hi + 1, v, depth)
            val2 = valid + (t["valid"] if t["go"] else [])
            lo2, hi2 = (min(lo, t["end"]), hi) if v < 0 else (lo, max(hi, t["end"]))
            args = (depth + 1, n + t["n"], alphas + t["alphas"], div or t["div"])
            pr = prob / 2
            if t["go"] and depth + 1 < depth_max and not o.uturn(lo2, hi2):
                grow(lo2, hi2, val2, *args, pr)
            else:
                finish(val2, *args, pr)

    def finish(valid, depth, n, alphas, div, prob):
        al = None if any(a is None for a in alphas) else round(sum(alphas) / len(alphas), 6)
        for j in valid:
            key = (j, depth, n, bool(div), al)
            out[key] = out.get(key, 0.0) + prob / len(valid)
    if depth_max == 0:
        return {(i, 0, 0, False, 0.0): 1.0}
    grow(i, i, [i], 0, 0, [], False, 1.0)
    return out


# --- enumeration of the decisions of the real transition ---------------------

class Branch(float):
    """A uniform draw that is only compared with a threshold: both outcomes are explored."""

    def __new__(cls, run):
        self = float.__new__(cls, 0.5)
        self.run = run
        return self

    def below(self, thr):
        return self.run.decide(float(to_np(thr)))

    def __lt__(self, other):
        return self.below(other)

    def __le__(self, other):
        return self.below(other)

    def __gt__(self, other):
        return not self.below(other)

    def __ge__(self, other):
        return not self.below(other)


class Exact:
    """One execution with prescribed comparison outcomes."""

    def __init__(self, prefix, slice_draw):
        self.prefix, self.slice_draw = prefix, slice_draw
        self.path, self.probs, self.draws = [], [], 0

    def rand(self, *shape):
        self.draws += 1
        if self.draws == 1:
            import gpmp.num as gnp
            return gnp.asarray(np.array(self.slice_draw))
        return Branch(self)

    def decide(self, thr):
        thr = min(1.0, max(0.0, thr))
        k = len(self.path)
        if k < len(self.prefix):
            ch = self.prefix[k]
        else:
            ch = thr > 0
        self.path.append(ch)
        self.probs.append((thr if ch else 1 - thr, (1 - thr) if ch else thr))
        return ch

    @property
    def complete(self):
        return len(self.path) == self.draws - 1 or self.draws == 0

    def weight(self):
        return float(np.prod([p for p, _ in self.probs])) if self.probs else 1.0

    def alternatives(self):
        for k in range(len(self.prefix), len(self.path)):
            if self.path[k] and self.probs[k][1] > 0:
                yield self.path[:k] + [False]


GRID = ((1 / 6, 1 / 3), (5 / 12, 1 / 6), (7 / 12, 1 / 6), (5 / 6, 1 / 3))


class Gridded(Exact):
    """Draws taken from a grid that separates all thresholds of trees of depth <= 2."""

    def rand(self, *shape):
        import gpmp.num as gnp
        self.draws += 1
        if self.draws == 1:
            return gnp.asarray(np.array(self.slice_draw))
        k = len(self.path)
        ch = self.prefix[k] if k < len(self.prefix) else 0
        self.path.append(ch)
        return gnp.asarray(np.array(GRID[ch][0]))

    complete = True

    def weight(self):
        return float(np.prod([GRID[c][1] for c in self.path]))

    def alternatives(self):
        for k in range(len(self.prefix), len(self.path)):
            for c in range(1, len(GRID)):
                yield self.path[:k] + [c]


class Unresolved(Exception):
    pass


def kernel_code(ctx, o, i, level, depth_max, delta, cls):
    """Outcome distribution of the real transition started at orbit point i."""
    import gpmp.num as gnp
    from gpmp.mcmc import nuts as N
    q, p = o.z[i]
    normals = p * np.sqrt(o.im)
    slice_draw = math.exp(level + o.H[i])
    out = {}
    stack = [[]]
    original, memo = gnp.value_and_grad, {}

    def remembered(f, x, *a, **k):
        """The same gradient is asked for in every execution."""
        key = to_np(x).tobytes()
        if key not in memo:
            memo[key] = original(f, x, *a, **k)
        return memo[key]
    while stack:
        prefix = stack.pop()
        run = cls(prefix, slice_draw)
        q0 = gnp.asarray(q.copy())
        with scripted.patched(rand=run.rand, randn=scripted.Normals(normals), value_and_grad=remembered):
            new, acc, nlf, depth, div = N.nuts_transition(o.lp, q0, o.eps, gnp.asarray(o.im.copy()), depth_max, delta)
        ctx.step()
        if not run.complete:
            raise Unresolved()
        w = run.weight()
        stack.extend(run.alternatives())
        ctx.ok(np.array_equal(to_np(q0), q), "the starting point was modified")
        new = to_np(new).reshape(-1)
        # the point of the orbit that was selected
        j = min(o.z, key=lambda k: np.abs(o.z[k][0] - new).max())
        ctx.ok(np.abs(o.z[j][0] - new).max() < 1e-5, f"selected point {new} is not on the orbit of {q}, {p}")
        key = (j, int(depth), int(nlf), bool(div), round(float(acc), 4))
        out[key] = out.get(key, 0.0) + w
    return out


def merge(d, fields, digits=4):
    m = {}
    for k, w in d.items():
        kk = tuple(round(k[f], digits) if f == 4 and k[f] is not None else k[f] for f in fields)
        m[kk] = m.get(kk, 0.0) + w
    return m


def transition(ctx, target, q, p, eps, mass, depth, delta, which):
    q, p = np.array(q), np.array(p)
    im = 1.0 / np.array(mass)
    S = 2 ** depth
    reach = 2 ** depth
    with np.errstate(all="ignore"):
        o = Orbit(target, q, p, eps, im, -reach, S + reach)
    finite = sorted(-o.H[k] for k in range(S + 1) if math.isfinite(o.H[k]))
    levels = sorted({round(v, 12) for v in finite})
    gaps = [(a + b) / 2 for a, b in zip(levels, levels[1:]) if b - a > 1e-4] + [levels[0] - 0.7, levels[0] - 3.0]
    if which >= len(gaps):
        ctx.ok(True, "no such slice")
        return
    level = sorted(gaps)[which]
    # starts from which the slice is not out of reach of a uniform draw
    starts = [k for k in range(S + 1) if math.isfinite(o.H[k]) and o.H[k] < 40.0 and 0.0 <= -o.H[k] - level < 30.0]
    if not starts:
        ctx.ok(True, "slice out of reach")
        return
    near = min([abs(level + h) for h in o.H.values() if math.isfinite(h)] + [1.0])
    cuts = min([abs(level - (delta - h)) for h in o.H.values() if math.isfinite(h)] + [1.0])
    if near < 1e-6 or cuts < 1e-5:
        ctx.ok(True, "a tie in floating point")
        return
    with np.errstate(all="ignore"):
        model = {i: kernel_model(o, i, level, depth, delta) for i in starts}
    if getattr(o, "margin", 1.0) < 1e-6:
        ctx.ok(True, "a tie in floating point")
        return
    energies = [abs(abs(o.H[a] - o.H[b]) - delta) for a in o.H for b in o.H if math.isfinite(o.H[a]) and math.isfinite(o.H[b])]
    code = {}
    for i in starts:
        try:
            code[i] = kernel_code(ctx, o, i, level, depth, delta, Exact)
        except Unresolved:
            if depth > 2:
                ctx.ok(True, "draws are not compared directly: depth limited to two")
                return
            code[i] = kernel_code(ctx, o, i, level, depth, delta, Gridded)
    tag = f"slice {level}, energies {[round(o.H[k], 4) for k in range(S + 1)]}"
    P = {}
    for i in starts:
        ctx.close(sum(code[i].values()), 1.0, "total probability", rtol=1e-9)
        row = merge(code[i], (0,))
        for (j,), w in row.items():
            P[i, j] = w
            ctx.ok(level <= -o.H[j], f"point {j} outside the slice is selected from {i}: {tag}")
        # the selected point is uniform among the slice points of the trajectory
        want = merge(model[i], (0, 1, 2))
        got = merge(code[i], (0, 1, 2))
        for k in set(want) | set(got):
            ctx.ok(abs(want.get(k, 0) - got.get(k, 0)) < 1e-9,
                   f"from {i}: probability {got.get(k, 0)} of (point, doublings, steps) {k} instead of {want.get(k, 0)}; {tag}")
        if all(k[4] is not None for k in model[i]) and min(energies + [1.0]) > 1e-6:
            want, got = merge(model[i], (0, 3)), merge(code[i], (0, 3))
            for k in set(want) | set(got):
                ctx.ok(abs(want.get(k, 0) - got.get(k, 0)) < 1e-9, f"from {i}: divergence flag {k}: {got.get(k, 0)} instead of {want.get(k, 0)}")
            a1 = sum(k[4] * w for k, w in model[i].items())
            a2 = sum(k[4] * w for k, w in code[i].items())
            ctx.ok(abs(a1 - a2) < 2e-4, f"from {i}: mean acceptance {a2} instead of {a1}")
    for a, b in itertools.combinations(starts, 2):
        ctx.ok(abs(P.get((a, b), 0.0) - P.get((b, a), 0.0)) < 1e-9,
               f"{a} to {b} with probability {P.get((a, b), 0.0)}, back with {P.get((b, a), 0.0)}; {tag}")
    if depth:
        ctx.count("slices with more than one point" if len(starts) > 1 else "slices with one point")
    ctx.state(target, tuple(q), tuple(p), eps, tuple(mass), depth, delta, which)


def integrator(ctx, target, q, p, eps, mass):
    """One step: formula, reversibility, volume."""
    import gpmp.num as gnp
    from gpmp.mcmc import nuts as N
    lp, U, g = TARGETS[target]
    q, p, im = np.array(q), np.array(p), 1.0 / np.array(mass)

    def step(q, p, e):
        u, gr = N.potential_and_grad(lp, gnp.asarray(q.copy()))
        ctx.close(to_np(u), U(q), "potential energy", shape=False)
        ctx.close(to_np(gr), g(q), "gradient of the potential", rtol=1e-5, atol=1e-6)
        a, b, u1, g1 = N.leapfrog(lp, gnp.asarray(q.copy()), gnp.asarray(p.copy()), gnp.asarray(g(q)), e, gnp.asarray(im))
        return to_np(a).copy(), to_np(b).copy(), to_np(u1), to_np(g1)
    a, b, u1, g1 = step(q, p, eps)
    o = Orbit(target, q, p, eps, im, 0, 1)
    ctx.close(a, o.z[1][0], "position after one step", rtol=1e-6, atol=1e-7)
    ctx.close(b, o.z[1][1], "momentum after one step", rtol=1e-5, atol=1e-6)
    ctx.close(u1, U(a), "potential at the new point", shape=False)
    ctx.close(g1, g(a), "gradient at the new point", rtol=1e-5, atol=1e-6)
    c, d, _, _ = step(a, b, -eps)
    ctx.close(c, q, "position after a step back", rtol=1e-6, atol=1e-6)
    ctx.close(d, p, "momentum after a step back", rtol=1e-6, atol=1e-6)
    c, d, _, _ = step(a, -b, eps)
    ctx.close(c, q, "position after reversing the momentum", rtol=1e-6, atol=1e-6)
    n = len(q)
    J = np.zeros((2 * n, 2 * n))
    h = 1e-4
    for k in range(2 * n):
        s = np.zeros(2 * n)
        s[k] = h
        hi = step(q + s[:n], p + s[n:], eps)
        lo = step(q - s[:n], p - s[n:], eps)
        J[:, k] = (np.concatenate(hi[:2]) - np.concatenate(lo[:2])) / (2 * h)
    if np.abs(J).max() < 10.0:
        ctx.close(np.linalg.det(J), 1.0, "volume factor of one step", rtol=1e-4, atol=1e-4)
    ctx.close(to_np(N.kinetic(gnp.asarray(p), gnp.asarray(im))), 0.5 * (p * p * im).sum(), "kinetic energy", shape=False)
    ctx.state("int", target, tuple(q), tuple(p), eps, tuple(mass))


def nonfinite(ctx, kind, depth):
    """A start of zero density stays where it is; trajectories never end on such points."""
    import gpmp.num as gnp
    from gpmp.mcmc import nuts as N
    bad = {"inf": np.inf, "nan": np.nan}[kind]

    def lp(q):
        v = -0.5 * (q * q).sum()
        if float(to_np(q)[0]) > 0.5:
            return v - gnp.asarray(np.array(bad))
        return v
    for start in (0.9, 0.3, -0.2):
        for z in (-1.5, 0.4, 2.0):
            for draws in itertools.product((0.1, 0.6), repeat=4):
                it = iter(draws + (0.5,) * 40)
                with scripted.patched(rand=lambda *s: gnp.asarray(np.array(next(it))), randn=scripted.Normals([z])):
                    new, acc, nlf, dep, div = N.nuts_transition(lp, gnp.asarray(np.array([start])), 0.4, gnp.asarray(np.ones(1)), depth, 1000.0)
                ctx.step()
                new = float(to_np(new).reshape(-1)[0])
                ctx.ok(math.isfinite(new) and (new <= 0.5 or start > 0.5 and new == start), f"from {start}, momentum {z}: selected {new}")
                ctx.ok(math.isfinite(acc) and 0.0 <= acc <= 1.0, f"acceptance statistic {acc}")
                if start > 0.5:
                    ctx.ok(new == start and div, "a start of zero density")
    ctx.state("nonfinite", kind, depth)


# --- warm-up -----------------------------------------------------------------

def windows(ctx, n, kw):
    from gpmp.mcmc import nuts as N
    w = N.make_warmup_windows(n, **kw)
    lo_cut = kw.get("min_no_window", 20)
    ctx.state(n, kw)
    if n <= lo_cut:
        ctx.equal(list(w), [], f"windows of a warm-up of {n}")
        return
    if n >= kw.get("large_threshold", 150):
        init, term, base = kw.get("large_init_buffer", 75), kw.get("large_term_buffer", 50), kw.get("large_base_window", 25)
    else:
        init = max(1, int(kw.get("init_buffer_ratio", 0.15) * n))
        term = max(1, int(kw.get("term_buffer_ratio", 0.10) * n))
        base = max(1, int((n - init - term) / kw.get("base_window_divisor", 3.0)))
    if init >= n - term:
        ctx.equal(list(w), [], f"windows of a warm-up of {n} without a middle part")
        return
    ctx.ok(len(w) > 0, f"no windows for a warm-up of {n}")
    ctx.equal(w[0][0], init, f"start of the first window for {n}: {w}")
    ctx.equal(w[-1][1], n - term, f"end of the last window for {n}: {w}")
    for (a, b), (c, d) in zip(w, w[1:]):
        ctx.equal(b, c, f"windows are contiguous: {w}")
    for a, b in w:
        ctx.ok(a < b, f"empty window in {w}")
    sizes = [b - a for a, b in w]
    want = base
    for k, s in enumerate(sizes[:-1]):
        ctx.equal(s, want, f"sizes double from {base}: {w}")
        want *= 2
    ctx.ok(sizes[-1] <= want, f"last window of {w}")
    ctx.ok(isinstance(N.describe_windows(w), str), "description")


def running(ctx, rows):
    import gpmp.num as gnp
    from gpmp.mcmc import nuts as N
    x = np.array(rows, float)
    for cut in range(len(x) + 1):
        r = N.RunningDiagVar(x.shape[1])
        if cut:
            r.update_batch(gnp.asarray(x[:cut]))
        for k in range(cut, len(x)):
            r.update_one(gnp.asarray(x[k]))
        want = x.var(axis=0, ddof=1) if len(x) > 1 else np.ones(x.shape[1])
        ctx.close(to_np(r.var()), want, f"running variance of {rows}", atol=1e-12)
    ctx.state(rows)


def averaging(ctx, seq, kw):
    from gpmp.mcmc import nuts as N
    target, gamma, t0, kappa = kw.get("target", 0.8), kw.get("gamma", 0.05), kw.get("t0", 10.0), kw.get("kappa", 0.75)
    s = N.DualAveragingState(mu=math.log(3.0), log_eps=math.log(0.3), log_eps_bar=math.log(0.3), h_bar=0.0, t=0)
    mu, h, bar = math.log(3.0), 0.0, math.log(0.3)
    for t, a in enumerate(seq, 1):
        eps = s.update(a, **kw)
        h = (1 - 1 / (t + t0)) * h + (target - a) / (t + t0)
        le = mu - math.sqrt(t) / gamma * h
        bar = t ** -kappa * le + (1 - t ** -kappa) * bar
        ctx.close(eps, math.exp(le), f"step size after {seq[:t]}", rtol=1e-10)
        ctx.close(s.final(), math.exp(bar), f"averaged step size after {seq[:t]}", rtol=1e-10)
        ctx.step()
    ctx.state(seq, kw)


def reasonable(ctx, target, q, z, init, tgt, mass):
    """The first step size of the doubling sequence that crosses the wanted acceptance."""
    import gpmp.num as gnp
    from gpmp.mcmc import nuts as N
    lp, U, g = TARGETS[target]
    q, m = np.array(q), np.array(mass)
    p = np.array(z) * np.sqrt(m)
    with scripted.patched(randn=scripted.Normals(z)):
        eps = N.find_reasonable_step_size(lp, gnp.asarray(q), gnp.asarray(1 / m), init_eps=init, target_accept=tgt)
    ctx.state("eps", target, tuple(q), tuple(z), init, tgt, tuple(mass))

    def accept(e):
        with np.errstate(all="ignore"):
            o = Orbit(target, q, p, e, 1 / m, 0, 1)
            d = o.H[0] - o.H[1]
        return math.exp(min(0.0, d)) if not math.isnan(d) else float("nan")
    a0 = accept(init)
    if abs(a0 - tgt) < 1e-6:
        ctx.ok(True, "tie")
        return
    up = a0 > tgt
    e = init
    while True:
        e = e * 2 if up else e / 2
        a = accept(e)
        if abs(a - tgt) < 1e-6:
            ctx.ok(True, "tie")
            return
        if (a < tgt if up else a > tgt) or e < 1e-6 or e > 1e2:
            break
    ctx.close(eps, e, f"step size from {init} (acceptance {a0})", rtol=1e-12)


def driver(ctx, target, chains, dim, warm, n, seed, kw, via):
    """A whole run against its own record: adaptation follows the record, sampling does not adapt."""
    import gpmp.num as gnp
    from gpmp.mcmc import nuts as N
    base = TARGETS[target][0]
    seen = {}

    def lp(q):
        v = base(q)
        seen[float(to_np(v))] = to_np(q).reshape(-1).copy()
        return v
    q0 = np.array([[0.3 + 0.2 * c - 0.1 * d for d in range(dim)] for c in range(chains)])
    g0 = gnp.asarray(q0.copy())
    args = dict(num_warmup=warm, target_accept=0.7, max_depth=3, init_step_size=0.4, seed=seed, **kw)
    mass0 = np.ones(dim) if kw.get("init_mass_diag") is None else np.array(kw["init_mass_diag"], float)
    if "init_mass_diag" in args:
        args["init_mass_diag"] = gnp.asarray(mass0)

    def run(k):
        a = dict(args)
        with quiet():
            if via == "options":
                return N.nuts_sample(lp, g0, k, options=N.NUTSOptions(progress=False, verbose=0, **a))
            return N.nuts_sample(lp, g0, k, progress=False, verbose=0, **a)
    smp, info = run(n)
    ctx.ok(np.array_equal(to_np(g0), q0), "the initial states were modified")
    s = to_np(smp)
    ctx.equal(s.shape, (n, chains, dim), "shape of the samples")
    for name, rows in (("warmup_accept_stat", warm), ("warmup_divergent", warm), ("warmup_tree_depth", warm),
                       ("warmup_n_leapfrog", warm), ("warmup_log_prob_trace", warm), ("accept_stat", n),
                       ("divergent", n), ("tree_depth", n), ("n_leapfrog", n), ("log_prob_trace", n)):
        ctx.equal(to_np(info[name]).shape, (rows, chains), f"shape of {name}")
    ctx.equal(to_np(info["warmup_step_size"]).shape, (warm,), "shape of the step sizes")
    for t in range(n):
        for c in range(chains):
            ctx.close(to_np(info["log_prob_trace"])[t, c], -TARGETS[target][1](s[t, c]), "log density of a sample", rtol=1e-9, atol=1e-9)
    for a, b in ((to_np(info["tree_depth"]), to_np(info["n_leapfrog"])), (to_np(info["warmup_tree_depth"]), to_np(info["warmup_n_leapfrog"]))):
        ctx.ok((a <= 3).all() and (a >= 1).all() and (b <= 2 ** a - 1).all() and (b >= 1).all(), f"tree sizes {a.tolist()}, {b.tolist()}")
    # adaptation recomputed from the record
    acc = to_np(info["warmup_accept_stat"]).mean(axis=1) if warm else np.zeros(0)
    ctx.ok(((acc >= 0) & (acc <= 1)).all(), "acceptance statistics between 0 and 1")
    wins = N.make_warmup_windows(warm)
    ends = {b for _, b in wins}
    states = [[seen.get(float(v)) for v in row] for row in to_np(info["warmup_log_prob_trace"])]
    eps, mu, h, le, bar, t = 0.4, math.log(4.0), 0.0, math.log(0.4), math.log(0.4), 0
    mass = mass0.copy()
    steps = to_np(info["warmup_step_size"])
    start = None
    for k in range(warm):
        ctx.close(steps[k], eps, f"step size of warm-up iteration {k}", rtol=1e-9)
        t += 1
        h = (1 - 1 / (t + 10.0)) * h + (0.7 - acc[k]) / (t + 10.0)
        le = mu - math.sqrt(t) / 0.05 * h
        bar = t ** -0.75 * le + (1 - t ** -0.75) * bar
        eps = min(max(math.exp(min(le, 600)), 1e-6), 1e2)
        if k + 1 in ends:
            a, b = [w for w in wins if w[1] == k + 1][0]
            rows = np.array([p for r in states[a:b] for p in r])
            var = rows.var(axis=0, ddof=1) if len(rows) > 1 else np.ones(dim)
            mass = 1 / np.maximum(var, 1e-4)
            mu, h, le, bar, t = math.log(max(1e-6, 10 * eps)), 0.0, math.log(eps), math.log(eps), 0
    final = min(max(math.exp(min(bar, 600)), 1e-6), 1e2)
    ctx.close(to_np(info["step_size_final"]), final, "step size after warm-up", rtol=1e-9, shape=False)
    ctx.close(to_np(info["mass_diag_final"]), mass, "masses after warm-up", rtol=1e-7)
    # sampling: transitions with the final step size and masses, in order
    _, info0 = run(0)
    cur = [np.array(p) for p in states[-1]] if warm else list(q0)
    fm = gnp.asarray(to_np(info["mass_diag_final"]).copy())
    fs = float(to_np(info["step_size_final"]).reshape(-1)[0])
    for t in range(n):
        for c in range(chains):
            new, a, nlf, d, dv = N.nuts_transition(lp, gnp.asarray(cur[c].copy()), fs, 1.0 / fm, 3, 1000.0)
            cur[c] = to_np(new).copy()
            ctx.close(s[t, c], cur[c], f"sample {t} of chain {c}", rtol=1e-9, atol=1e-12)
            ctx.close(float(to_np(info["accept_stat"])[t, c]), a, "acceptance statistic", rtol=1e-9)
            ctx.step()
    ctx.state(target, chains, dim, warm, n, seed, kw, via)


def starts(ctx, target, kind, warm):
    """Whole-number starting points in every form a user may give them."""
    from gpmp.mcmc import nuts as N
    q0 = np.array([[0.0, 1.0], [-1.0, 0.0], [1.0, 1.0]])
    res = []
    for k in ("float", kind):
        with quiet():
            smp, info = N.nuts_sample(TARGETS[target][0], zoo.bk().asarray(q0) if k == "float" else [list(r) for r in q0.astype(int)] if k == "list" else zoo.given(q0, k), 4,
                                      num_warmup=warm, init_step_size=0.4, max_depth=3, seed=7, progress=False, verbose=0)
        res.append((to_np(smp), to_np(info["step_size_final"]), to_np(info["mass_diag_final"]), to_np(info["log_prob_trace"])))
        ctx.step(4)
    for a, b, msg in zip(*res[::-1], ("samples", "step size", "masses", "log densities")):
        ctx.close(a, b, f"{msg} from {kind} starting points", rtol=1e-9, atol=1e-12)
    ctx.ok(np.abs(res[1][0] - np.round(res[1][0])).max() > 1e-3, "samples stay on whole numbers")
    ctx.state("starts", target, kind, warm)


def precedence(ctx):
    """Keyword arguments win over the options object, which wins over defaults."""
    import gpmp.num as gnp
    from gpmp.mcmc import nuts as N
    lp = TARGETS["normal"][0]
    q = gnp.asarray(np.zeros((1, 1)) + 0.1)
    base = dict(progress=False, verbose=0)

    def go(opts, **kw):
        with quiet():
            return N.nuts_sample(lp, q, 2, options=None if opts is None else N.NUTSOptions(**dict(base, **opts)), **(kw if opts is not None else dict(base, **kw)))[1]
    for o, k, want in ((3, None, 3), (3, 5, 5), (None, 4, 4)):
        opts = None if o is None else dict(num_warmup=o, seed=1)
        kw = {} if k is None else dict(num_warmup=k)
        ctx.equal(to_np(go(opts, **kw)["warmup_step_size"]).shape, (want,), f"warm-up length from options {o} and keyword {k}")
    for o, k, want in ((0.25, None, 0.25), (0.25, 0.5, 0.5), (None, 0.5, 0.5)):
        opts = None if o is None else dict(num_warmup=2, init_step_size=o, seed=1)
        kw = {} if k is None else dict(init_step_size=k)
        if o is None:
            kw["num_warmup"] = 2
        ctx.close(to_np(go(opts, **kw)["warmup_step_size"])[0], want, f"step size from options {o} and keyword {k}")
    for o, k, want in ((2, None, 2), (2, 1, 1), (None, 1, 1)):
        opts = None if o is None else dict(num_warmup=2, init_step_size=1e-3, max_depth=o, seed=1)
        kw = {} if k is None else dict(max_depth=k)
        if o is None:
            kw.update(num_warmup=2, init_step_size=1e-3)
        ctx.equal(int(to_np(go(opts, **kw)["warmup_tree_depth"]).max()), want, f"tree depth from options {o} and keyword {k}")
    opts = N.NUTSOptions(num_warmup=2, seed=1, **base)
    with quiet():
        N.nuts_sample(lp, q, 1, num_warmup=4, options=opts)
    ctx.equal(opts.num_warmup, 2, "the options object of the caller was modified")
    with quiet():
        ctx.raises(ValueError, lambda: N.nuts_sample(lp, gnp.asarray(np.zeros(2)), 1, **base), "one-dimensional initial state")
        ctx.raises(ValueError, lambda: N.nuts_sample(lp, q, 1, init_mass_diag=gnp.asarray(np.ones(3)), **base), "masses of the wrong length")
    ctx.state("precedence")


def average(ctx, n, w):
    from gpmp.mcmc import nuts as N
    y = np.sin(np.arange(n) * 1.7)
    got = np.asarray(to_np(N.moving_average(y, w)))
    want = y if w <= 1 else np.array([y[k:k + w].mean() for k in range(n - w + 1)])
    ctx.close(got, want, f"moving average of {n} values over {w}")
    ctx.state("ma", n, w)


def explore(ctx):
    th = ctx.thorough
    one = [(0.4,), (-1.1,), (1.3,)]
    two = [(0.4, -0.7), (1.2, 0.3)]
    cases = []
    for target in TARGETS:
        for q in (one if target != "scaled" else []) + two:
            d = len(q)
            for p in ([(0.9,), (-0.35,), (1.8,)] if d == 1 else [(0.9, 0.5), (-0.3, 1.4)]):
                for eps in (0.15, 0.6, 1.3):
                    for mass in ([(1.0,) * d, tuple(0.5 + 1.5 * k for k in range(d))]):
                        cases.append((target, q, p, eps, mass))
    for k, (target, q, p, eps, mass) in enumerate(cases):
        for depth in (1, 2):
            for delta in (1000.0, 0.5, 0.05):
                if not th and delta == 0.05 and k % 2:
                    continue
                for which in range(5 if depth == 2 else 3):
                    if not th and (k + which) % 2 and delta == 1000.0:
                        continue
                    ctx.run(f"tr/{target}/{q}/{p}/{eps}/{mass}/{depth}/{delta}/{which}", transition, target, q, p, eps, mass, depth, delta, which)
        for which in (range(8) if th else (0, 3)):
            for delta in ((1000.0, 0.3) if th else (1000.0,) if k % 3 else (0.3,)):
                if th or k % 40 == 0:
                    ctx.run(f"tr3/{target}/{q}/{p}/{eps}/{mass}/3/{delta}/{which}", transition, target, q, p, eps, mass, 3, delta, which)
        if target != "wall":
            ctx.run(f"int/{target}/{q}/{p}/{eps}/{mass}", integrator, target, q, p, eps, mass)
    for kind in ("inf", "nan"):
        for depth in (0, 1, 2, 3):
            ctx.run(f"nonfinite/{kind}/{depth}", nonfinite, kind, depth)
    for n in range(0, 3000 if th else 1300):
        ctx.run(f"win/{n}", windows, n, {})
        if n < 200:
            ctx.run(f"winA/{n}", windows, n, dict(min_no_window=0, large_threshold=60, large_init_buffer=5, large_term_buffer=7, large_base_window=3))
            ctx.run(f"winB/{n}", windows, n, dict(init_buffer_ratio=0.4, term_buffer_ratio=0.5, base_window_divisor=2.0))
    vals = ((0.0, 1.0), (2.0, -1.0), (1e3, 1e-3))
    for n in (1, 2, 3, 4):
        for rows in itertools.product(vals, repeat=n):
            ctx.run(f"var/{rows}", running, rows)
    for n in range(1, 7 if th else 6):
        for seq in itertools.product((0.0, 0.6, 1.0), repeat=n):
            ctx.run(f"da/{seq}", averaging, seq, {})
            if n <= 3:
                ctx.run(f"daK/{seq}", averaging, seq, dict(target=0.6, gamma=0.1, t0=3.0, kappa=0.6))
    for target in ("normal", "scaled", "quartic", "wells"):
        for q in two:
            for z in ((0.5, -1.0), (1.5, 0.2)):
                for init in (0.01, 1.0, 8.0):
                    for tgt in (0.5, 0.8):
                        for mass in ((1.0, 1.0), (4.0, 0.3)):
                            ctx.run(f"eps/{target}/{q}/{z}/{init}/{tgt}/{mass}", reasonable, target, q, z, init, tgt, mass)
    for target in ("normal", "scaled", "wells"):
        for chains in (1, 2):
            for dim in ((2,) if target == "scaled" else (1, 2)):
                for warm in ((0, 1, 5, 22, 30, 60) if th else (0, 3, 22, 30)):
                    for kw in ({}, {"init_mass_diag": tuple(0.5 + d for d in range(dim))}):
                        for via in ("keywords", "options"):
                            if via == "options" and (warm in (0, 3) or kw):
                                continue
                            ctx.run(f"run/{target}/{chains}/{dim}/{warm}/{sorted(kw)}/{via}", driver, target, chains, dim, warm, 3, 11 + warm, kw, via)
    for target, dim, chains, warm in (("normal", 3, 3, 30), ("scaled", 5, 1, 40), ("quartic", 4, 2, 160), ("normal", 8, 4, 25)):
        for kw in ({}, {"init_mass_diag": tuple(0.5 + d for d in range(dim))}):
            ctx.run(f"runlong/{target}/{dim}/{chains}/{warm}/{sorted(kw)}", driver, target, chains, dim, warm, 12, 5, kw, "keywords")
    for target in ("normal", "scaled", "quartic", "wells"):
        for d in (3, 5):
            q, p = tuple(0.4 - 0.3 * k for k in range(d)), tuple(0.9 * math.cos(1.0 + 2 * k) for k in range(d))
            mass = tuple(0.5 + 0.5 * k for k in range(d))
            for eps in (0.15, 0.6):
                ctx.run(f"int/{target}/{q}/{p}/{eps}/{mass}", integrator, target, q, p, eps, mass)
                for which in (0, 2, 4):
                    ctx.run(f"tr/{target}/{q}/{p}/{eps}/{mass}/2/{which}", transition, target, q, p, eps, mass, 2, 1000.0, which)
    for target in ("normal", "scaled", "quartic"):
        for kind in ("list", "own", "int", "int32", "single", "reversed", "strided", "fortran", "locked"):
            for warm in (0, 25):
                ctx.run(f"starts/{target}/{kind}/{warm}", starts, target, kind, warm)
    ctx.run("precedence", precedence)
    for n in range(1, 9):
        for w in range(0, n + 1):
            ctx.run(f"ma/{n}/{w}", average, n, w)
