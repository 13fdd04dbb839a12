"""C25 - Posterior samplers target exp(-criterion) restricted to the box.

The log-density each sampler receives is captured at the boundary between the
wrapper and the sampler and compared with minus the criterion on a lattice that
covers the inside, the faces and the outside of the box and the points where the
criterion fails.  Short runs of the real samplers are then checked for shape,
starting points, bounds and the log-densities they report.
"""

import contextlib
import io
import itertools
import types
import warnings

import numpy as np

from mc.ctx import to_np
from mc.checks.c23 import Rng, no_debugger

INF = float("inf")


class Failure(Exception):
    pass


def vec(v):
    import gpmp.num as gnp
    return gnp.asarray(np.asarray(v, float))


CENTRE = np.array([0.4, -0.3, 0.1, 0.25, -0.15, 0.05])
START = [0.2, -0.1, 0.3, 0.15, -0.25, 0.05]


def plain(kind, x):
    """The criterion in plain numbers; None where it fails."""
    x = np.asarray(x, float)
    v = 3.0 * float(np.sum((x - CENTRE[:len(x)]) ** 2)) + 0.7
    if kind == "hole" and abs(x[0] - 1.25) < 0.3:
        return None
    if kind == "negative":
        return v - 50.0
    return v


def criterion(kind, log=None):
    def f(p):
        import gpmp.num as gnp
        q = np.array(to_np(p), float).reshape(-1)
        if log is not None:
            log.append(q)
        if kind == "hole" and abs(q[0] - 1.25) < 0.3:
            raise Failure("no value here")
        v = 3.0 * gnp.sum((gnp.asarray(p).reshape(-1) - vec(CENTRE[:len(q)])) ** 2) + 0.7
        return v - 50.0 if kind == "negative" else v
    return f


def bounds(box, dim):
    if box is None:
        return None
    return tuple(np.broadcast_to(np.asarray(b, float).reshape(-1), (dim,)) for b in box)


def wanted(kind, box, x, temperature):
    b = bounds(box, len(x))
    if b is not None and (np.any(x < b[0]) or np.any(x > b[1])):
        return -INF
    v = plain(kind, x)
    return -INF if v is None else -v / temperature


class Captured(Exception):
    pass


@contextlib.contextmanager
def spy(name, sink):
    """Capture what the wrapper hands to the sampler, then stop."""
    import gpmp.mcmc.param_posterior as m
    if not hasattr(m, name):
        yield False
        return
    old = getattr(m, name)

    def catcher(*a, **k):
        sink.append((a, k))
        raise Captured()

    setattr(m, name, catcher)
    try:
        yield True
    finally:
        setattr(m, name, old)


ENTRY = {"mh": "MetropolisHastings", "nuts": "nuts_sample", "smc": "run_smc_sampling", "svgd": "svgd_sample"}


def info_object(kind, dim, fields):
    o = types.SimpleNamespace(covparam=vec(START[:dim]))
    log = {}
    for f in fields:
        log[f] = []
        setattr(o, f, criterion(kind, log[f]))
    return o, log


def call(sampler, source, kind, dim, box, temperature=1.0, init=None, init_box=None, n=2, **extra):
    """One call of a wrapper, silent and short."""
    import gpmp.mcmc.param_posterior as m
    kw = dict(extra)
    if source == "criterion":
        kw["selection_criterion"] = criterion(kind)
        start = init if init is not None else START[:dim]
    else:
        kw["info"] = source
        start = init
    if box is not None:
        kw["sampling_box"] = box
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if sampler == "mh":
            kw.setdefault("n_steps_total", 6)
            kw.setdefault("burnin_period", 2)
            if temperature != 1.0:
                kw["temperature"] = temperature
            return m.sample_from_selection_criterion_mh(
                param_initial_states=start, init_box=init_box, n_chains=n,
                n_pool=n, silent=True, plot_chains=False, plot_empirical_distributions=False, **kw)
        if sampler == "nuts":
            kw.setdefault("num_samples", 4)
            kw.setdefault("num_warmup", 2)
            return m.sample_from_selection_criterion_nuts(
                param_initial_states=start, init_box=init_box, n_chains=n, max_depth=2, seed=5, progress=False,
                verbose=0, **kw)
        if sampler == "smc":
            kw.setdefault("mh_steps", 2)
            return m.sample_from_selection_criterion_smc(
                init_box=init_box if init_box is not None else [[-1.0] * dim, [1.0] * dim], n_particles=n, **kw)
        kw.setdefault("n_steps", 2)
        return m.sample_from_selection_criterion_svgd(
            particles_initial=start, init_box=init_box, n_particles=n, progress=False, verbose=0, **kw)


def target_of(sampler, a, k):
    name = {"mh": "log_target", "smc": "logpdf_parameterized_function"}.get(sampler, "log_prob")
    return k[name] if name in k else a[0]


def lattice(dim):
    if dim == 1:
        return [(v,) for v in (-1.5, -1.0, -0.25, 0.4, 1.0, 1.25, 1.5, 2.0)]
    if dim == 2:
        return list(itertools.product((-1.5, -1.0, 0.4, 1.0, 1.25, 2.0), repeat=2))
    if dim > 3:
        return [tuple((-1.0, 0.4, 0.8, 1.25, 2.0)[(i * (j + 1) + (i // 7) * j) % 5] for j in range(dim)) for i in range(60)] + \
            [tuple((0.4, 0.8)[(i >> j) & 1] for j in range(dim)) for i in range(8)]
    return list(itertools.product((-1.0, 0.4, 1.25, 2.0), repeat=3))


def target(ctx, sampler, source, kind, dim, box, temperature):
    sink = []
    src = "criterion"
    log = {}
    if source != "criterion":
        src, log = info_object(kind, dim, source)
    with spy(ENTRY[sampler], sink) as there:
        if not there:
            ctx.count("unobserved_targets")
            ctx.ok(True, "no boundary to observe")
            return
        try:
            call(sampler, src, kind, dim, box, temperature)
        except Captured:
            pass
    ctx.step()
    ctx.equal(len(sink), 1, "the sampler is called once")
    f = target_of(sampler, *sink[0])
    pts = [np.array(p) for p in lattice(dim)]
    for p in pts:
        want = wanted(kind, box, p, temperature)
        if sampler == "smc":
            for T in (1.0, 4.0, 1e3):
                w = wanted(kind, box, p, T)
                ctx.close(f(vec(p), T), np.array(w), f"target at {p}, temperature {T}", shape=False)
        else:
            got = f(vec(p))
            ctx.close(got, np.array(want), f"target at {p}", shape=False)
    if sampler == "smc":
        for T in (1.0, 4.0):
            ctx.close(f(vec(np.array(pts)), T), np.array([wanted(kind, box, p, T) for p in pts]),
                      "target of a whole population")
    if source != "criterion" and sampler in ("nuts", "svgd"):
        ctx.ok(not log.get("selection_criterion_nograd"),
               "gradient-based samplers use the differentiable criterion")
    ctx.state(sampler, kind, dim, str(box), temperature)


def forms(dim, n):
    """Accepted ways of giving the starting points, with the states they mean."""
    full = np.array([[0.1 * (i + 1) - 0.15 * j for j in range(dim)] for i in range(n)])
    out = [("vector", full[0], np.tile(full[0], (n, 1))),
           ("rows", full, full),
           ("onerow", full[:1], np.tile(full[:1], (n, 1)))]
    if dim != n:
        out.append(("columns", full.T, full))
    if dim == 1:
        out.append(("scalar", np.array(0.3), np.full((n, 1), 0.3)))
        if n > 1:
            out.append(("perchain", full[:, 0], full))
    return out


def starts(ctx, sampler, dim, n, form):
    _, given, want = [f for f in forms(dim, n) if f[0] == form][0]
    sink = []
    src = "criterion"
    if form in ("columns", "perchain"):
        # these forms need the number of parameters from elsewhere
        src, _ = info_object("plain", dim, ("selection_criterion", "selection_criterion_nograd"))
    if sampler == "mh":
        keep = vec(given)
        x, mh = call("mh", src, "plain", dim, None, init=keep, n=n)
        ctx.step()
        ctx.close(mh.x[:, 0, :], want, "first state of every chain")
        ctx.close(keep, given, "the states given are not modified")
    else:
        with spy(ENTRY["nuts"], sink) as there:
            if not there:
                ctx.ok(True, "no boundary to observe")
                return
            try:
                call("nuts", src, "plain", dim, None, init=vec(given), n=n)
            except Captured:
                pass
        ctx.step()
        a, k = sink[0]
        ctx.close(k["q_init"] if "q_init" in k else a[1], want, "starting points of the chains")
    ctx.state(sampler, dim, n, form)


def default_start(ctx, sampler, dim, n, mean):
    """Without starting points the selected parameters are used."""
    src, _ = info_object("plain", dim, ("selection_criterion", "selection_criterion_nograd"))
    if mean:
        src.meanparam, src.covparam = src.covparam[:mean], src.covparam[mean:]
    elif mean is None:
        src.meanparam = None
    want = np.tile(np.array(START[:dim]), (n, 1))
    if sampler == "mh":
        _, mh = call("mh", src, "plain", dim, None, n=n)
        got = mh.x[:, 0, :]
    elif sampler == "nuts":
        sink = []
        with spy(ENTRY["nuts"], sink) as there:
            if not there:
                ctx.ok(True, "no boundary to observe")
                return
            with contextlib.suppress(Captured):
                call("nuts", src, "plain", dim, None, n=n)
        got = sink[0][1].get("q_init")
    else:
        _, info = call("svgd", src, "plain", dim, None, n=n, init_jitter=0.0, store_particles_history=True)
        got = info["particles_history"][0]
    ctx.step()
    ctx.close(got, want, "the selected parameters are the starting point")
    ctx.state(sampler, dim, n)


def random_start(ctx, sampler, dim, n, box, sampling):
    import gpmp.num as gnp
    np.random.seed(7)
    gnp.set_seed(7)
    b = bounds(box, dim)
    kw = {}
    src, _ = info_object("plain", dim, ("selection_criterion", "selection_criterion_nograd"))
    if sampler == "mh":
        _, mh = call("mh", src, "plain", dim, sampling, init_box=box, n=n, random_init=True)
        got = mh.x[:, 0, :]
    elif sampler == "nuts":
        sink = []
        with spy(ENTRY["nuts"], sink) as there:
            if not there:
                ctx.ok(True, "no boundary to observe")
                return
            with contextlib.suppress(Captured):
                call("nuts", src, "plain", dim, sampling, init_box=box, n=n, random_init=True)
        got = sink[0][1].get("q_init")
    elif sampler == "svgd":
        _, info = call("svgd", src, "plain", dim, sampling, init_box=box, n=n, random_init=True,
                       store_particles_history=True)
        got = info["particles_history"][0]
    else:
        seen = smc_run(src, "plain", dim, sampling, box, n, kw)[2]
        got = seen[0]
    ctx.step()
    g = to_np(got)
    ctx.equal(g.shape, (n, dim), "shape of the starting points")
    ctx.ok(bool(np.all(g >= b[0]) and np.all(g <= b[1])), "starting points inside the initial box")
    ctx.ok(n < 2 or len(np.unique(np.round(g, 12), axis=0)) == n, "distinct starting points")
    ctx.state(sampler, dim, n, str(box))


def smc_run(src, kind, dim, sampling, init_box, n, kw):
    """A run of sequential Monte Carlo on a seeded generator."""
    import gpmp.mcmc.smc as s
    orig = s.SMC
    first = []

    class Seeded(orig):
        def __init__(self, *a, **k):
            k["rng"] = Rng(13)
            super().__init__(*a, **k)
            self.smc_config.mh_adjustment_max_iterations = 5
            self.particles.config.param_s_lower_bound = 0.0
            self.particles.config.param_s_upper_bound = 1e300
            first.append(np.array(to_np(self.particles.x)))

    s.SMC = Seeded
    try:
        with no_debugger():
            x, smc = call("smc", src, kind, dim, sampling, init_box=init_box, n=n, **kw)
    finally:
        s.SMC = orig
    return x, smc, first


def run_mh(ctx, kind, dim, box, temperature, n, steps, burnin):
    import gpmp.num as gnp
    from gpmp.mcmc.param_posterior import get_log_target_values
    gnp.set_seed(3)
    x, mh = call("mh", "criterion", kind, dim, box, temperature, n=n, n_steps_total=steps, burnin_period=burnin)
    ctx.step(steps)
    xs = to_np(x)
    ctx.equal(xs.shape, (n, steps - burnin, dim), "shape of the samples")
    b = bounds(box, dim)
    if b is not None:
        ctx.ok(bool(np.all(xs >= b[0]) and np.all(xs <= b[1])), "samples inside the box")
    full = to_np(mh.x)
    vals = to_np(get_log_target_values(mh))
    ctx.equal(vals.shape, full.shape[:2], "one log-density per recorded state")
    for c in range(n):
        for t in range(full.shape[1]):
            w = wanted(kind, box, full[c, t], temperature)
            ctx.ok(np.isfinite(w), "states have positive density")
            ctx.close(vals[c, t], np.array(w), f"log-density of state {t} of chain {c}", shape=False)
    cut = to_np(get_log_target_values(mh, discard_burnin=True))
    ctx.close(cut, vals[:, burnin:], "log-densities after burn-in")
    for c in range(n):
        for t in range(steps - burnin):
            ctx.close(cut[c, t], np.array(wanted(kind, box, xs[c, t], temperature)),
                      "log-densities go with the samples returned", shape=False)
    ctx.close(xs, full[:, burnin:steps, :], "samples are the states after burn-in")
    ctx.state("mh", kind, dim, str(box), temperature, np.round(xs, 6))


def run_nuts(ctx, kind, dim, box, n, num, warm):
    x, info = call("nuts", "criterion", kind, dim, box, n=n, num_samples=num, num_warmup=warm)
    ctx.step(num)
    xs = to_np(x)
    ctx.equal(xs.shape, (n, num, dim), "shape of the samples")
    for p in xs.reshape(-1, dim):
        ctx.ok(np.isfinite(wanted(kind, box, p, 1.0)), "samples have positive density")
    y, _ = call("nuts", "criterion", kind, dim, box, n=n, num_samples=num, num_warmup=warm)
    ctx.close(y, xs, "a seed reproduces the samples")
    ctx.state("nuts", kind, dim, str(box), np.round(xs, 6))


def run_smc(ctx, kind, dim, box, init_box, n, source, temps):
    src = "criterion"
    if source != "criterion":
        src, _ = info_object(kind, dim, source)
    kw = {}
    if temps is not None:
        kw["initial_temperature"], kw["final_temperature"] = temps
    x, smc, first = smc_run(src, kind, dim, box, init_box, n, kw)
    final = 1.0 if temps is None else temps[1]
    ctx.step()
    xs = to_np(x)
    ctx.equal(xs.shape, (n, dim), "shape of the particles")
    ib = bounds(init_box, dim)
    ctx.ok(bool(np.all(first[0] >= ib[0]) and np.all(first[0] <= ib[1])), "initial particles in the initial box")
    ctx.equal(first[0].shape, (n, dim), "shape of the initial particles")
    want = np.array([wanted(kind, box, p, final) for p in xs])
    ctx.ok(bool(np.all(np.isfinite(want))), "particles have positive density")
    ctx.close(smc.particles.logpx, want, "log-densities of the particles")
    ctx.state("smc", kind, dim, str(box), np.round(xs, 6))


def run_svgd(ctx, kind, dim, box, n, start, steps):
    import gpmp.num as gnp
    gnp.set_seed(3)
    given = {"scalar": np.array(START[0]),
             "vector": np.array(START[:dim]),
             "row": np.array([START[:dim]]),
             "cloud": np.array([[0.1 * i - 0.2 * j for j in range(dim)] for i in range(n)]),
             "outside": np.array([[3.0 * (-1) ** i + j for j in range(dim)] for i in range(n)])}[start]
    x, info = call("svgd", "criterion", kind, dim, box, init=vec(given), n=n, n_steps=steps, init_jitter=1e-3,
                   store_particles_history=True, initial_temperature=4.0)
    ctx.step(max(steps, 1))
    xs = to_np(x)
    ctx.equal(xs.shape, (n, dim), "shape of the particles")
    b = bounds(box, dim)
    if b is not None:
        ctx.ok(bool(np.all(xs >= b[0]) and np.all(xs <= b[1])), "particles inside the box")
    h = to_np(info["particles_history"])
    ctx.equal(h.shape, (steps + 1, n, dim), "shape of the history")
    ref = given if start in ("cloud", "outside") else np.tile(given.reshape(1, -1), (n, 1))
    if b is not None:
        ref = np.minimum(np.maximum(ref, b[0]), b[1])
    ctx.close(h[0], ref, "starting particles", atol=1e-12 if start in ("cloud", "outside") or n == 1 else 1e-2)
    if start in ("scalar", "vector", "row") and n > 1 and b is None:
        ctx.ok(len(np.unique(h[0], axis=0)) == n, "replicated particles are spread")
    want = np.array([wanted(kind, box, p, 1.0) for p in xs])
    ctx.close(info["log_prob_final"], want, "log-densities of the final particles")
    ctx.state("svgd", kind, dim, str(box), np.round(xs, 6))


def refused(ctx, sampler, what):
    src, _ = info_object("plain", 2, ("selection_criterion", "selection_criterion_nograd"))
    empty = types.SimpleNamespace(covparam=vec([0.0, 0.0]))
    import gpmp.mcmc.param_posterior as m
    fn = getattr(m, f"sample_from_selection_criterion_{sampler}")
    base = {"mh": dict(n_steps_total=3, burnin_period=1, silent=True, plot_chains=False,
                       plot_empirical_distributions=False),
            "nuts": dict(num_samples=1, num_warmup=1, progress=False, verbose=0, max_depth=1),
            "smc": dict(n_particles=4, init_box=[[0.0, 0.0], [1.0, 1.0]]),
            "svgd": dict(n_steps=1, progress=False, verbose=0)}[sampler]
    kw = {
        "both": dict(info=src, selection_criterion=criterion("plain")),
        "neither": dict(),
        "nocriterion": dict(info=empty),
        "nobox": dict(info=src, random_init=True) if sampler != "smc" else dict(info=src, init_box=None),
        "badbox": dict(info=src, sampling_box=[[0.0, 0.0, 0.0], [1.0, 1.0, 1.0]]),
        "threebox": dict(info=src, sampling_box=[0.0, 1.0, 2.0]),
        "nostart": dict(selection_criterion=criterion("plain"), init_box=[[0.0, 0.0], [1.0, 1.0]]),
        "badstart": dict(selection_criterion=criterion("plain"), n_chains=3,
                         param_initial_states=vec(np.zeros((2, 2)))),
        "temperature": dict(info=src, temperature=0.0),
        "burnin": dict(info=src, n_steps_total=3, burnin_period=4),
    }[what]
    ctx.step()
    with contextlib.redirect_stdout(io.StringIO()):
        ctx.raises(ValueError, lambda: fn(**{**base, **kw}), f"invalid call ({what})")


def explore(ctx):
    t = ctx.thorough
    kinds = ("plain", "hole", "negative")
    sources = ("criterion", ("selection_criterion",), ("selection_criterion", "selection_criterion_nograd"),
               ("selection_criterion_nograd",))
    for dim in (1, 2, 3):
        boxes = [None, [-1.0, 1.0], [[-1.0], [1.0]], [[-1.0, 0.0, 0.4][:dim], [1.25, 1.0, 2.0][:dim]]]
        for sampler in ENTRY:
            for kind in kinds:
                for b in boxes:
                    for src in sources:
                        if sampler in ("nuts", "svgd") and "selection_criterion" not in src and src != "criterion":
                            continue
                        for temp in (1.0, 0.5, 4.0) if sampler == "mh" else (1.0,):
                            ctx.run(f"target:{sampler}:{src}:{kind}:{dim}:{b}:{temp}", target, sampler, src, kind,
                                    dim, b, temp)
        for n in (1, 2, 3):
            for sampler in ("mh", "nuts"):
                for form, _, _ in forms(dim, n):
                    ctx.run(f"start:{sampler}:{dim}:{n}:{form}", starts, sampler, dim, n, form)
            for sampler in ("mh", "nuts", "svgd"):
                for mean in (None, 0) + tuple(range(1, dim)):
                    ctx.run(f"default:{sampler}:{dim}:{n}:{mean}", default_start, sampler, dim, n, mean)
        for n in (2, 5):
            for b in ([-0.5, 0.5], [[-0.5], [0.5]], [[0.1, -0.6, 0.0][:dim], [0.2, -0.1, 0.5][:dim]]):
                for sampling in (None, [-1.0, 1.0]):
                    for sampler in ("mh", "nuts", "svgd"):
                        ctx.run(f"random:{sampler}:{dim}:{n}:{b}:{sampling}", random_start, sampler, dim, n, b,
                                sampling)
                    if n == 5:
                        ctx.run(f"random:smc:{dim}:{n}:{b}:{sampling}", random_start, "smc", dim, 12, b, sampling)
        for kind in kinds:
            for b in (None, [-1.0, 1.0], [[-0.4, -0.5, 0.0][:dim], [0.5, 0.2, 0.4][:dim]]):
                for temp in (1.0, 5.0):
                    for n in (1, 2):
                        for steps, burn in ((4, 0), (6, 2), (60, 55)) if n == 2 or t else ((5, 1),):
                            ctx.run(f"mh:{kind}:{dim}:{b}:{temp}:{n}:{steps}:{burn}", run_mh, kind, dim, b, temp,
                                    n, steps, burn)
                for n in (1, 3):
                    for num, warm in ((3, 0), (4, 2)) + (((6, 4),) if t else ()):
                        ctx.run(f"nuts:{kind}:{dim}:{b}:{n}:{num}:{warm}", run_nuts, kind, dim, b, n, num, warm)
                if dim < 3:
                    for ib in ([[-0.9] * dim, [0.9] * dim], [[-0.3] * dim, [1.6 if dim == 1 else 0.7] * dim]):
                        for temps in (None, (20.0, 2.0), (1.0, 1.0)):
                            ctx.run(f"smc:{kind}:{dim}:{b}:{ib}:{temps}", run_smc, kind, dim, b, ib, 30,
                                    "criterion", temps)
                for start in ("vector", "row", "cloud", "outside") + (("scalar",) if dim == 1 else ()):
                    for n in (1, 3):
                        for steps in (0, 1, 3):
                            if start == "outside" and b is None:
                                continue
                            ctx.run(f"svgd:{kind}:{dim}:{b}:{n}:{start}:{steps}", run_svgd, kind, dim, b, n, start,
                                    steps)
        if dim < 3:
            src = ("selection_criterion", "selection_criterion_nograd")
            for ib in ([-0.5, 0.5], [[-0.5], [0.5]], [[-0.5] * dim, [0.5] * dim]):
                ctx.run(f"smcbox:{dim}:{ib}", run_smc, "plain", dim, [-1.0, 1.0], ib, 12, src, (10.0, 1.0))
    for dim in (4, 6):
        lo, hi = [-1.0, 0.0, 0.4, -0.9, -0.5, -1.1][:dim], [1.25, 1.0, 2.0, 1.0, 0.9, 1.1][:dim]
        for kind in kinds:
            for sampler in ENTRY:
                for b in (None, [-1.0, 1.0], [lo, hi]):
                    for src in ("criterion", ("selection_criterion",)):
                        ctx.run(f"target:{sampler}:{src}:{kind}:{dim}:{b}", target, sampler, src, kind, dim, b, 1.0)
            for b in (None, [[-0.8] * dim, [0.5 + 0.1 * j for j in range(dim)]]):
                ctx.run(f"mh:{kind}:{dim}:{b}", run_mh, kind, dim, b, 2.0, 5, 30, 10)
                ctx.run(f"nuts:{kind}:{dim}:{b}", run_nuts, kind, dim, b, 4, 6, 3)
                for n in (1, 9):
                    ctx.run(f"svgd:{kind}:{dim}:{b}:{n}", run_svgd, kind, dim, b, n, "cloud", 3)
        for n in (1, 6):
            for sampler in ("mh", "nuts"):
                for form, _, _ in forms(dim, n):
                    ctx.run(f"start:{sampler}:{dim}:{n}:{form}", starts, sampler, dim, n, form)
            for sampler in ("mh", "nuts", "svgd"):
                for mean in (None, 2):
                    ctx.run(f"default:{sampler}:{dim}:{n}:{mean}", default_start, sampler, dim, n, mean)
    for sampler in ENTRY:
        whats = ["both", "neither", "nocriterion", "nobox", "badbox", "threebox"]
        if sampler != "smc":
            whats.append("nostart")
        if sampler in ("mh", "nuts"):
            whats.append("badstart")
        if sampler == "mh":
            whats += ["temperature", "burnin"]
        for what in whats:
            ctx.run(f"refused:{sampler}:{what}", refused, sampler, what)
