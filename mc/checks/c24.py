"""C24 - Stein variational steps follow the kernelised gradient formula.

Particle clouds are enumerated on small lattices (with repeated points), together
with targets that fail on chosen particles, temperatures, bandwidth rules,
preconditioners and boxes.  A direct double loop over particles is the reference;
sampling is compared with the same number of reference updates.
"""

import contextlib
import io
import itertools
import math

import numpy as np

from mc.ctx import to_np

INF = float("inf")
NAN = float("nan")


def vec(v):
    import gpmp.num as gnp
    return gnp.asarray(np.asarray(v, float))


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


# Targets: value and gradient in plain numbers, and the same thing written with
# the numerical layer (differentiable).

CENTRE = [0.3, -0.5, 0.8, -0.2, 0.6, 0.1, -0.4, 0.5, -0.1]
WEIGHT = [1.0, 2.5, 0.4, 1.5, 0.7, 2.0, 0.3, 1.2, 0.9]


def gauss(x):
    c = np.array(CENTRE)[:len(x)]
    a = np.array(WEIGHT)[:len(x)]
    return -0.5 * float(np.sum(a * (x - c) ** 2)), -a * (x - c)


def gauss_g(x):
    import gpmp.num as gnp
    c = vec(CENTRE[:x.shape[0]])
    a = vec(WEIGHT[:x.shape[0]])
    return -0.5 * gnp.sum(a * (x - c) ** 2)


def wavy(x):
    s = float(np.sum(x))
    return 1.5 * math.sin(s) - 0.2 * float(np.sum(x ** 4)), 1.5 * math.cos(s) - 0.8 * x ** 3


def wavy_g(x):
    import gpmp.num as gnp
    return 1.5 * gnp.sin(gnp.sum(x)) - 0.2 * gnp.sum(x ** 4)


def flat(x):
    return 2.0, np.zeros(len(x))


def flat_g(x):
    import gpmp.num as gnp
    return 2.0 + 0.0 * gnp.sum(x)


TARGETS = {"gauss": (gauss, gauss_g), "wavy": (wavy, wavy_g), "flat": (flat, flat_g)}


class Boom(Exception):
    pass


def with_faults(name, points, faults):
    """The target with an answer of a given kind around some particles."""
    ref, fun = TARGETS[name]
    bad = [(np.array(p), k) for p, k in zip(points, faults) if k != "ok"]

    def kind(x):
        for p, k in bad:
            if np.max(np.abs(x - p)) < 1e-2:
                return k
        return "ok"

    def r(x):
        k = kind(x)
        if k == "ok":
            return ref(x)
        if k == "grad":
            return ref(x)[0], np.zeros(len(x))
        if k == "raise":
            return -INF, np.zeros(len(x))
        return {"neginf": -INF, "nan": NAN, "posinf": INF}[k], np.zeros(len(x))

    def f(x):
        import gpmp.num as gnp
        k = kind(np.array(to_np(x)).reshape(-1))
        if k == "raise":
            raise Boom("no value here")
        if k == "grad":
            return fun(x) + gnp.sqrt(gnp.sum((x - x.detach()) ** 2))
        if k != "ok":
            return gnp.sum(x) * 0.0 + {"neginf": -INF, "nan": NAN, "posinf": INF}[k]
        return fun(x)

    return r, f


def ref_bandwidth(x, bandwidth, scale, low, jitter=1e-12):
    n = len(x)
    sq = np.array([[float(np.sum((a - b) ** 2)) for b in x] for a in x])
    if bandwidth is None:
        pos = sorted(v for v in sq.reshape(-1) if v > 0)
        if not pos:
            h = scale
        else:
            m = len(pos)
            med = pos[m // 2] if m % 2 else 0.5 * (pos[m // 2 - 1] + pos[m // 2])
            h = scale * med / math.log(n + 1.0)
    else:
        h = scale * bandwidth
    if not math.isfinite(h) or h <= jitter:
        h = max(scale, jitter)
    if low is not None:
        h = max(h, low)
    return h, sq


def box_of(box, dim):
    if box is None:
        return None
    lo, hi = box
    return (np.broadcast_to(np.asarray(lo, float).reshape(-1), (dim,)),
            np.broadcast_to(np.asarray(hi, float).reshape(-1), (dim,)))


def ref_step(r, x, o):
    n, dim = x.shape
    b = box_of(o.get("sampling_box"), dim)
    if b is not None:
        x = np.minimum(np.maximum(x, b[0]), b[1])
    temp = o.get("temperature", 1.0)
    vals, grads = [], []
    for p in x:
        v, g = r(p)
        vals.append(v / temp)
        grads.append(np.asarray(g, float) / temp)
    vals = np.array(vals)
    alive = np.isfinite(vals)
    h, sq = ref_bandwidth(x, o.get("bandwidth"), o.get("bandwidth_scale", 1.0), o.get("bandwidth_min"))
    count = max(int(alive.sum()), 1)
    pre = o.get("preconditioner_diag")
    pre = np.ones(dim) if pre is None else np.broadcast_to(np.asarray(pre, float).reshape(-1), (dim,))
    vel = np.zeros((n, dim))
    for i in range(n):
        if not alive[i]:
            continue
        for j in range(n):
            if not alive[j]:
                continue
            k = math.exp(-sq[i, j] / h)
            vel[i] += k * grads[j] + k * 2.0 / h * (x[i] - x[j])
        vel[i] *= pre / count
    y = x + o["step_size"] * vel
    if b is not None:
        y = np.minimum(np.maximum(y, b[0]), b[1])
    return y, dict(values=vals, alive=alive, h=h, sq=sq, velocity=vel, start=x)


def tolerance(ctx):
    return dict(rtol=1e-6, atol=1e-7) if ctx.backend == "numpy" else dict(rtol=1e-9, atol=1e-10)


def near_edge(x, box):
    b = box_of(box, x.shape[1])
    if b is None:
        return False
    y = np.minimum(np.maximum(x, b[0]), b[1])
    return bool(np.any(np.abs(y - b[0]) < 1e-3) or np.any(np.abs(y - b[1]) < 1e-3))


def update(ctx, name, cloud, faults, o):
    from gpmp.mcmc.svgd import svgd_step
    x = np.array(cloud, float)
    r, f = with_faults(name, x, faults)
    kw = dict(o)
    given = vec(x.copy())
    y, info = svgd_step(f, given, **kw)
    ctx.step()
    want, d = ref_step(r, x, o)
    tol = tolerance(ctx)
    ctx.close(given, x, "the particles given are not modified")
    ctx.equal(to_np(y).shape, x.shape, "shape of the updated cloud")
    ctx.close(info["bandwidth"], np.array(d["h"]), "bandwidth", shape=False, rtol=1e-9)
    ctx.close(info["log_prob_values"], d["values"], "log-densities of the particles", **tol)
    ctx.equal(int(info["alive_count"]), int(d["alive"].sum()), "number of particles with a density")
    b = box_of(o.get("sampling_box"), x.shape[1])
    if b is not None:
        yy = to_np(y)
        ctx.ok(bool(np.all(yy >= b[0]) and np.all(yy <= b[1])), "updated particles stay in the box")
    if ctx.backend == "numpy" and near_edge(x, o.get("sampling_box")):
        ctx.count("one_sided_differences_skipped")
        return
    ctx.close(info["velocity"], d["velocity"], "velocity", **tol)
    ctx.close(y, want, "updated particles", **tol)
    ctx.state(name, np.round(want, 8))


def kernel(ctx, cloud, bandwidth, scale, low):
    from gpmp.mcmc.svgd import rbf_kernel_matrix
    x = np.array(cloud, float)
    k, sq, h = rbf_kernel_matrix(vec(x), bandwidth=bandwidth, bandwidth_scale=scale, bandwidth_min=low)
    ctx.step()
    hw, sw = ref_bandwidth(x, bandwidth, scale, low)
    ctx.close(h, np.array(hw), "bandwidth", shape=False, rtol=1e-10)
    ctx.close(sq, sw, "squared distances")
    ctx.close(k, np.exp(-sw / hw), "kernel")
    ctx.state("k", np.round(hw, 9), len(x))


def temperature(step, n, t0, t1, schedule):
    if n <= 1:
        return t1
    u = step / (n - 1)
    return t0 + u * (t1 - t0) if schedule == "linear" else t0 * (t1 / t0) ** u


def sampling(ctx, name, cloud, faults, n_steps, o, temps, schedule, history, progress):
    from gpmp.mcmc.svgd import SVGDOptions, svgd_sample
    x = np.array(cloud, float)
    r, f = with_faults(name, x, faults)
    opts = SVGDOptions(n_steps=n_steps, initial_temperature=temps[0], final_temperature=temps[1],
                       annealing_schedule=schedule, store_particles_history=history, progress=progress,
                       verbose=1, log_every=2, **o)
    given = vec(x.copy())
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        y, info = svgd_sample(f, given, options=opts)
    ctx.step(max(n_steps, 1))
    tol = dict(rtol=1e-5, atol=1e-6) if ctx.backend == "numpy" else dict(rtol=1e-8, atol=1e-9)
    ctx.close(given, x, "the particles given are not modified")
    cur = x
    want = [x]
    vals, hs, ts, norms = [], [], [], []
    edge = False
    for s in range(n_steps):
        t = temperature(s, n_steps, temps[0], temps[1], schedule)
        edge = edge or near_edge(cur, o.get("sampling_box"))
        cur, d = ref_step(r, cur, dict(o, temperature=t))
        want.append(cur)
        vals.append(d["values"])
        hs.append(d["h"])
        ts.append(t)
        norms.append(np.mean(np.sqrt(np.sum(d["velocity"] ** 2, axis=1))))
    ctx.equal(to_np(y).shape, x.shape, "shape of the returned cloud")
    ctx.close(info["temperature_trace"], np.array(ts), "temperatures", rtol=1e-10)
    ctx.close(info["particles_final"], to_np(y), "the final cloud is recorded")
    b = box_of(o.get("sampling_box"), x.shape[1])
    if b is not None and n_steps:
        yy = to_np(y)
        ctx.ok(bool(np.all(yy >= b[0]) and np.all(yy <= b[1])), "returned particles stay in the box")
    final = np.array([r(p)[0] for p in to_np(y)])
    ctx.close(info["log_prob_final"], final, "recorded final log-densities", **tol)
    if history:
        h = to_np(info["particles_history"])
        ctx.equal(h.shape, (n_steps + 1,) + x.shape, "shape of the history")
        ctx.close(h[-1], to_np(y), "last entry of the history")
        ctx.close(h[0], x, "first entry of the history")
    else:
        ctx.ok("particles_history" not in info, "no history unless asked for")
    if progress and n_steps:
        lines = [l for l in out.getvalue().splitlines() if l.startswith("svgd iter")]
        due = [s for s in range(1, n_steps + 1) if s in (1, n_steps) or s % 2 == 0]
        ctx.equal(len(lines), len(due), "number of progress messages")
    if edge and ctx.backend == "numpy":
        ctx.count("one_sided_differences_skipped")
        return
    ctx.close(y, cur, "cloud after all updates", **tol)
    if n_steps:
        ctx.close(info["log_prob_trace"], np.array(vals), "trace of log-densities", **tol)
        ctx.close(info["bandwidth_trace"], np.array(hs), "trace of bandwidths", **tol)
        ctx.close(info["velocity_norm_trace"], np.array(norms), "trace of velocities", **tol)
    if history:
        ctx.close(h, np.array(want), "history of clouds", **tol)
    ctx.state("sample", name, np.round(cur, 7))


def starting(ctx, n, dim, box, give_dim):
    """Clouds drawn in a box."""
    from gpmp.mcmc.svgd import SVGDOptions, svgd_sample
    np.random.seed(3)
    o = SVGDOptions(n_steps=0, progress=False)
    y, info = svgd_sample(gauss_g, n_particles=n, dim=dim if give_dim else None, init_box=box, options=o)
    ctx.step()
    yy = to_np(y)
    lo, hi = box_of(box, dim)
    ctx.equal(yy.shape, (n, dim), "shape of the cloud")
    ctx.ok(bool(np.all(yy >= lo) and np.all(yy <= hi)), "cloud inside the initial box")
    ctx.ok(n < 2 or len(np.unique(yy, axis=0)) == n, "distinct particles")
    ctx.close(info["log_prob_final"], np.array([gauss(p)[0] for p in yy]), "log-densities")
    for k in ("log_prob_trace", "bandwidth_trace", "temperature_trace", "velocity_norm_trace"):
        ctx.equal(int(to_np(info[k]).size), 0, f"{k} of a run without updates")
    ctx.state("start", np.round(yy, 9))


def single(ctx, dim, n_steps):
    """A single point given as a vector."""
    from gpmp.mcmc.svgd import SVGDOptions, svgd_sample
    x = np.array([0.1, 0.7, -0.2][:dim])
    o = SVGDOptions(n_steps=n_steps, step_size=0.1, progress=False, initial_temperature=2.0)
    y, _ = svgd_sample(gauss_g, vec(x), options=o)
    ctx.step()
    cur = x.reshape(1, -1)
    for s in range(n_steps):
        t = temperature(s, n_steps, 2.0, 1.0, "geometric")
        cur, _ = ref_step(gauss, cur, dict(step_size=0.1, temperature=t))
    ctx.close(y, cur, "one particle follows the gradient", **tolerance(ctx))
    ctx.state("single", dim, n_steps)


def refused(ctx, what):
    from gpmp.mcmc import svgd as m
    x = vec([[0.0, 1.0], [0.5, 0.25]])
    S = m.SVGDOptions

    def sample(*a, **k):
        with quiet():
            return m.svgd_sample(gauss_g, *a, **k)

    calls = {
        "step": lambda: m.svgd_step(gauss_g, x, step_size=0.0),
        "stepneg": lambda: m.svgd_step(gauss_g, x, step_size=-1.0),
        "temp": lambda: m.svgd_step(gauss_g, x, step_size=0.1, temperature=0.0),
        "ndim": lambda: m.svgd_step(gauss_g, vec([0.0, 1.0]), step_size=0.1),
        "scale": lambda: m.svgd_step(gauss_g, x, step_size=0.1, bandwidth_scale=0.0),
        "min": lambda: m.svgd_step(gauss_g, x, step_size=0.1, bandwidth_min=0.0),
        "pre": lambda: m.svgd_step(gauss_g, x, step_size=0.1, preconditioner_diag=[1.0, 0.0]),
        "prelen": lambda: m.svgd_step(gauss_g, x, step_size=0.1, preconditioner_diag=[1.0, 1.0, 1.0]),
        "box": lambda: m.svgd_step(gauss_g, x, step_size=0.1, sampling_box=[[0.0, 0.0, 0.0], [1.0, 1.0, 1.0]]),
        "kernel": lambda: m.rbf_kernel_matrix(vec([0.0, 1.0])),
        "steps": lambda: sample(x, options=S(n_steps=-1)),
        "none": lambda: sample(),
        "nobox": lambda: sample(init_box=[[0.0], [1.0]]),
        "zero": lambda: sample(init_box=[[0.0], [1.0]], n_particles=0),
        "scalarbox": lambda: sample(init_box=[0.0, 1.0], n_particles=2),
        "count": lambda: sample(x, n_particles=3, options=S(n_steps=1)),
        "dim": lambda: sample(x, dim=3, options=S(n_steps=1)),
        "three": lambda: sample(vec(np.zeros((1, 1, 1))), options=S(n_steps=1)),
        "schedule": lambda: sample(x, options=S(n_steps=2, annealing_schedule="other")),
        "temp0": lambda: sample(x, options=S(n_steps=2, initial_temperature=0.0)),
        "temp1": lambda: sample(x, options=S(n_steps=2, final_temperature=-1.0)),
    }
    ctx.step()
    ctx.raises(ValueError, calls[what], f"invalid call ({what})")


REFUSED = ("step", "stepneg", "temp", "ndim", "scale", "min", "pre", "prelen", "box", "kernel", "steps", "none",
           "nobox", "zero", "scalarbox", "count", "dim", "three", "schedule", "temp0", "temp1")


def clouds(dim, n):
    pts = {1: [(-0.8,), (0.1,), (1.2,)], 2: [(0.0, 0.0), (1.1, -0.6), (0.4, 0.9)],
           3: [(0.0, 0.2, -0.5), (1.0, -1.0, 0.3), (0.6, 0.6, 0.9)]}[dim]
    return list(itertools.product(pts, repeat=n))


def explore(ctx):
    t = ctx.thorough
    band = [(None, 1.0, None), (0.5, 1.0, None), (None, 2.0, None), (0.5, 0.3, None), (None, 1.0, 3.0),
            (0.5, 1.0, 0.7), (2.0, 1.0, 0.7)]
    for dim in (1, 2, 3):
        for n in (1, 2, 3, 4) if t or dim < 3 else (1, 2, 3):
            for c in clouds(dim, n):
                for bw, sc, mn in band:
                    ctx.run(f"kernel:{c}:{bw}:{sc}:{mn}", kernel, c, bw, sc, mn)

    tgt = list(TARGETS)
    for dim in (1, 2, 3):
        for n in (1, 2, 3):
            for c in clouds(dim, n):
                for name in tgt:
                    for temp in (1.0, 4.0):
                        for k, (bw, sc, mn) in enumerate(band):
                            if k > 2 and not (t or n < 3):
                                continue
                            o = dict(step_size=0.2, temperature=temp, bandwidth=bw, bandwidth_scale=sc,
                                     bandwidth_min=mn)
                            ctx.run(f"step:{name}:{c}:{temp}:{bw}:{sc}:{mn}", update, name, c, ("ok",) * n, o)
    # larger clouds and dimensions
    for dim in (1, 2, 4, 6, 9):
        for n in (5, 6, 10, 17, 32, 70) + ((33, 50, 130) if t else ()):
            c = tuple(tuple(round(1.5 * math.sin(1.3 * i + 2.1 * j + i * j), 4) for j in range(dim)) for i in range(n))
            for bw, sc, mn in band[:4] if n > 50 else band:
                ctx.run(f"kernel:{dim}:{n}:{bw}:{sc}:{mn}", kernel, c, bw, sc, mn)
            for name in tgt:
                for bw in (None, 0.8):
                    o = dict(step_size=0.2, temperature=2.0, bandwidth=bw)
                    ctx.run(f"bigstep:{name}:{dim}:{n}:{bw}", update, name, c, ("ok",) * n, o)
                ks = tuple(("ok", "ok", "raise", "ok", "neginf", "ok", "nan")[i % 7] for i in range(n))
                ctx.run(f"bigfault:{name}:{dim}:{n}", update, name, c, ks, dict(step_size=0.3, sampling_box=[[-1.4] * dim, [1.2] * dim]))
            if n <= 10:
                ctx.run(f"bigsample:{dim}:{n}", sampling, "wavy", c, ("ok",) * n, 12, dict(step_size=0.05), (5.0, 1.0), "geometric", True, False)
    # faults on every subset of particles
    kinds = ("ok", "raise", "neginf", "nan", "posinf") + (("grad",) if ctx.backend == "torch" else ())
    for dim in (1, 2):
        for n in (1, 2, 3):
            pts = clouds(dim, n)
            for c in pts:
                if len(set(c)) < n:
                    continue
                for ks in itertools.product(kinds, repeat=n):
                    if all(k == "ok" for k in ks):
                        continue
                    for name in tgt[:2]:
                        ctx.run(f"fault:{name}:{c}:{ks}", update, name, c, ks, dict(step_size=0.5))
    # preconditioners and boxes
    for dim in (1, 2, 3):
        pres = [None, [2.0], [0.5, 1.0, 3.0][:dim]]
        boxes = [None, [-1.0, 1.5], [[-2.0], [2.0]], [[-1.0, -1.2, -0.8][:dim], [1.3, 1.0, 1.1][:dim]],
                 [[0.1] * dim, [0.5] * dim], [0.0, 1.0]]
        for n in (1, 2, 3):
            for c in clouds(dim, n):
                for pre in pres:
                    for b in boxes:
                        for st in (0.05, 3.0):
                            if n == 3 and not t and st == 0.05:
                                continue
                            o = dict(step_size=st, preconditioner_diag=pre, sampling_box=b)
                            ctx.run(f"box:{c}:{pre}:{b}:{st}", update, "wavy" if st < 1 else "gauss", c,
                                    ("ok",) * n, o)
    # sampling
    for dim in (1, 2):
        for n in (1, 2, 3):
            for c in clouds(dim, n)[:: 1 if t else 2]:
                for steps in (0, 1, 2, 5) if t else (0, 1, 3):
                    for temps in ((10.0, 1.0), (1.0, 1.0), (1.0, 5.0)):
                        for sch in ("linear", "geometric"):
                            for hist in (False, True):
                                ctx.run(f"sample:{c}:{steps}:{temps}:{sch}:{hist}", sampling, "wavy", c,
                                        ("ok",) * n, steps, dict(step_size=0.1), temps, sch, hist, hist)
    for c in clouds(2, 3):
        for b in ([-0.7, 0.8], [[-2.0, -2.0], [2.0, 2.0]]):
            for pre in (None, [2.0, 0.5]):
                for bw in (None, 0.8):
                    o = dict(step_size=0.4, sampling_box=b, preconditioner_diag=pre, bandwidth=bw,
                             bandwidth_scale=1.5, bandwidth_min=0.2)
                    ctx.run(f"sampleopt:{c}:{b}:{pre}:{bw}", sampling, "gauss", c, ("ok",) * 3, 4, o, (4.0, 1.0),
                            "geometric", True, False)
        if len(set(c)) == 3:
            for ks in itertools.product(("ok", "raise", "nan"), repeat=3):
                ctx.run(f"samplefault:{c}:{ks}", sampling, "gauss", c, ks, 3, dict(step_size=0.1), (2.0, 1.0),
                        "linear", True, True)
    for n in (1, 2, 5):
        for dim in (1, 2, 3):
            for b, g in (([-1.0, 2.0], True), ([[-1.0] * dim, [2.0] * dim], False),
                         ([[0.5] * dim, [0.75] * dim], True), ([[-1.0], [2.0]], True)):
                ctx.run(f"start:{n}:{dim}:{b}:{g}", starting, n, dim, b, g)
    for dim in (1, 2, 3):
        for steps in (1, 2, 6):
            ctx.run(f"single:{dim}:{steps}", single, dim, steps)
    for what in REFUSED:
        ctx.run(f"refused:{what}", refused, what)
