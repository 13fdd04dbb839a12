"""C18 - process-wide configuration.

Start-up: every combination of environment setting and installed packages, in
fresh processes.  Afterwards: all short histories of accepted and rejected
requests, against a plain record of the configuration; after each request the
read-back, the environment inherited by later processes and the results of the
numerical layer are compared.
"""

import itertools
import json
import logging
import math
import os
import subprocess
import sys

import numpy as np

from mc import ref
from mc.ctx import to_np

XP = np.array([[0.0], [0.4], [1.1]])
FAIL = (ValueError, TypeError)

# -- start-up in fresh processes -------------------------------------------------
PROBE = r"""
import sys, json
blocked = {blocked!r}
if blocked:
    class Hide:
        def __init__(self, f): self.f = f
        def find_spec(self, name, path=None, target=None):
            if name in blocked or name.split(".")[0] in blocked:
                return None
            return self.f.find_spec(name, path, target)
        def __getattr__(self, n): return getattr(self.f, n)
    sys.meta_path[:] = [Hide(f) for f in sys.meta_path]
out = {{}}
try:
    {first}
    import gpmp, os, logging
    import gpmp.num as gnp
    c = gpmp.config.get_config()
    a = gnp.asarray([1.0, 2.0])
    out = dict(backend=c.backend, asked=gpmp.config.get_backend(), kind=type(a).__module__.split(".")[0],
               env=os.environ.get("GPMP_BACKEND"), dtype=c.dtype, el=str(a.dtype).split(".")[-1],
               level=logging.getLogger("gpmp").level, layer=gnp._gpmp_backend_, again=gpmp.config.init_backend(),
               torch="torch" in sys.modules, total=float(gnp.sum(a)))
except Exception as e:
    out = dict(error=type(e).__name__)
print("@@" + json.dumps(out))
"""


def fresh(env, blocked, first="pass"):
    e = {k: v for k, v in os.environ.items() if k not in ("GPMP_BACKEND", "GPMP_DTYPE", "GPMP_LOG_LEVEL")}
    e.update(env)
    r = subprocess.run([sys.executable, "-c", PROBE.format(blocked=blocked, first=first)], env=e, capture_output=True,
                       text=True, timeout=100)
    lines = [ln for ln in r.stdout.splitlines() if ln.startswith("@@")]
    if not lines:
        raise RuntimeError("no answer from the probe: " + r.stderr[-800:])
    return json.loads(lines[-1][2:])


def startup(ctx, backend, hidden):
    env = {} if backend is None else {"GPMP_BACKEND": backend}
    got = fresh(env, ["torch"] if hidden else [])
    ctx.step()
    low = None if backend is None else backend.lower()
    if low == "jax":
        ctx.equal(list(got), ["error"], "unsupported backend accepted")
        return
    want = low if low in ("numpy", "torch") else ("numpy" if hidden else "torch")
    if want == "torch" and hidden:
        ctx.equal(list(got), ["error"], "missing backend silently replaced")
        return
    ctx.ok("error" not in got, f"start-up failed: {got}")
    ctx.equal([got["backend"], got["asked"], got["env"], got["layer"], got["again"]], [want] * 5, "backend at start-up")
    ctx.equal(got["kind"], want, "kind of the arrays")
    ctx.equal([got["dtype"], got["el"], got["total"]], ["float64", "float64", 3.0], "precision at start-up")
    ctx.equal(got["level"], logging.INFO, "default log level")
    if hidden:
        ctx.ok(not got["torch"], "hidden package loaded")
    ctx.state(backend, hidden)


def startup_dtype(ctx, dtype, good):
    got = fresh({"GPMP_BACKEND": ctx.backend, "GPMP_DTYPE": dtype}, [])
    ctx.step()
    if good:
        ctx.ok("error" not in got, f"precision {dtype} rejected")
        ctx.equal([got["dtype"], got["el"], got["kind"]], ["float64", "float64", ctx.backend], "precision")
    else:
        ctx.equal(list(got), ["error"], f"precision {dtype} accepted")
    ctx.state("dtype", dtype)


def startup_level(ctx, name, level):
    got = fresh({"GPMP_BACKEND": ctx.backend, "GPMP_LOG_LEVEL": name}, [])
    ctx.step()
    ctx.ok("error" not in got, f"log level {name} fails the import")
    ctx.equal(got["level"], level, f"log level {name}")
    ctx.state("level", name)


def named_caches(ctx, present, cleared):
    """Clearing one cache leaves exactly the others."""
    import gpmp.config as C
    c = C.get_config()
    C.clear_caches()
    for k in present:
        c.caches[k] = {"v": k}
    C.clear_caches(cleared)
    ctx.step()
    want = {k: {"v": k} for k in present if k != cleared}
    ctx.equal(dict(c.caches), want, f"caches {present} after clearing {cleared!r}")
    c.clear_caches()
    ctx.equal(dict(c.caches), {}, "caches after clearing all")
    ctx.state("caches", present, cleared)


# -- request histories -----------------------------------------------------------
class Record:
    def __init__(self):
        self.backend = self.env = None
        self.dtype = "float64"
        self.device = "cpu"
        self.seed = 1234
        self.level = logging.INFO


def begin(ctx):
    import gpmp.config as C
    c = C.get_config()
    os.environ["GPMP_BACKEND"] = ctx.backend
    os.environ["GPMP_DTYPE"] = "float64"
    c.backend, c.dtype, c.device, c.seed = ctx.backend, "float64", "cpu", 1234
    C.clear_caches()
    C.set_log_level(logging.INFO)
    m = Record()
    m.backend = m.env = ctx.backend
    return m


def results():
    import gpmp.num as gnp
    import gpmp.kernel as K
    x = gnp.asarray(np.array([[0.0], [0.4], [1.1]]))
    th = gnp.asarray(np.array([0.3, -0.2]))
    k = K.maternp_covariance(x, x + 0.0, 2, th)
    return k, gnp.compute_gammaln(4)


def compare(ctx, m, what):
    import gpmp.config as C
    import gpmp.num as gnp
    c = C.get_config()
    ctx.equal(c.backend, m.backend, f"{what}: configured backend")
    ctx.equal(c.dtype, m.dtype, f"{what}: configured precision")
    ctx.equal([c.device, c.seed], [m.device, m.seed], f"{what}: device and seed")
    ctx.equal(C.get_logger().level, m.level, f"{what}: log level")
    ctx.equal(os.environ.get("GPMP_BACKEND"), m.env, f"{what}: backend inherited by later processes")
    ctx.equal(os.environ.get("GPMP_DTYPE", "float64"), "float64", f"{what}: precision inherited by later processes")
    ctx.ok(f"backend={m.backend}" in str(c).replace("'", ""), f"{what}: printed configuration {c}")
    ctx.ok(f"backend={m.backend}" in repr(c).replace("'", ""), f"{what}: printed configuration {c!r}")
    # the layer in use
    ctx.equal(gnp._gpmp_backend_, ctx.backend, f"{what}: layer in use")
    a = gnp.asarray([1.0, 2.5])
    ctx.equal(type(a).__module__.split(".")[0], ctx.backend, f"{what}: kind of the arrays")
    ctx.ok(gnp.get_dtype() == a.dtype and "float64" in str(a.dtype), f"{what}: precision of the layer {gnp.get_dtype()}")
    k, g = results()
    want = ref.matern_cov(2)(XP, XP, [0.3, -0.2])
    ctx.close(to_np(k) - np.diag(np.diag(to_np(k))), want - np.diag(np.diag(want)), f"{what}: covariance", rtol=1e-6, atol=1e-9)
    ctx.close(to_np(g)[1:], [math.lgamma(i) for i in range(1, 10)], f"{what}: table", rtol=1e-12, atol=1e-12)


def np_dtypes():
    return {"np64": np.float64, "np32": np.float32, "npd": np.dtype("f8"), "npf": np.dtype("f4"), "float": float}


def request(ctx, m, op):
    import gpmp.config as C
    c = C.get_config()
    name, *a = op
    a = [np_dtypes().get(x[1:], x) if isinstance(x, str) and x.startswith("!") else x for x in a]
    if name == "backend":
        ok = isinstance(a[0], str) and a[0].lower() in ("numpy", "torch")
        if ok:
            C.set_backend(a[0])
            m.backend = m.env = a[0].lower()
        else:
            ctx.raises(FAIL, lambda: C.set_backend(a[0]), f"backend {a[0]!r} accepted")
    elif name == "dtype":
        if a[1]:
            C.set_dtype(a[0])
        else:
            ctx.raises(FAIL, lambda: C.set_dtype(a[0]), f"precision {a[0]!r} accepted")
    elif name == "device":
        C.set_device(a[0])
        m.device = a[0]
    elif name == "level":
        if a[1] is None:
            ctx.raises(FAIL, lambda: C.set_log_level(a[0]), f"level {a[0]!r} accepted")
        else:
            C.set_log_level(a[0])
            m.level = a[1]
    elif name == "update":
        kw, ok = dict(a[0]), a[1]
        if ok:
            out = c.update(**kw)
            ctx.ok(out is c, "update does not return the configuration")
            m.backend = kw.get("backend", m.backend)
            m.backend = m.backend.lower() if m.backend else m.backend
            if kw.get("backend"):
                m.env = m.backend
            m.device = kw.get("device", m.device)
            m.seed = kw.get("seed", m.seed)
        else:
            ctx.raises(FAIL, lambda: c.update(**kw), f"update {kw} accepted")
    elif name == "clear":
        C.clear_caches(*a)
        if not a:
            ctx.equal(len(c.caches), 0, "caches after clearing")
        else:
            ctx.ok(a[0] not in c.caches, "named cache still there")
    elif name == "compute":
        results()
    elif name == "ask":
        got = C.get_backend()
        if m.backend is None:            # asked to be detected again: from the environment
            m.backend = m.env
        ctx.equal(got, m.backend, "backend asked for")
        ctx.equal(C.init_backend(), m.backend, "backend asked for again")
    else:
        raise AssertionError(name)


OPS = [("backend", "numpy"), ("backend", "torch"), ("backend", "NumPy"), ("backend", "jax"), ("backend", "cupy"),
       ("backend", None), ("backend", 3), ("dtype", "float64", True), ("dtype", "!float", True), ("dtype", "!np64", True),
       ("dtype", "!npd", True), ("dtype", "torch.double", True), ("dtype", None, True), ("dtype", "float32", False),
       ("dtype", "!np32", False), ("dtype", "!npf", False), ("dtype", "half", False), ("dtype", "f4", False),
       ("device", "cuda:0"), ("device", "cpu"), ("level", "DEBUG", 10), ("level", 30, 30), ("level", "NOPE", None),
       ("update", (("device", "d1"), ("seed", 7)), True), ("update", (("backend", "Torch"), ("dtype", "double")), True),
       ("update", (("backend", "numpy"),), True), ("update", (("backend", "torch"), ("dtype", "float32")), False),
       ("update", (("dtype", "half"), ("backend", "numpy"), ("device", "d2")), False),
       ("update", (("device", "d3"), ("backend", "jax"), ("dtype", "double")), False),
       ("update", (("backend", None),), True), ("clear",), ("clear", "gammaln"), ("clear", "absent"), ("compute",), ("ask",)]
CORE = [("backend", "torch"), ("backend", None), ("dtype", "double", True), ("dtype", "float32", False), ("device", "d9"),
        ("update", (("backend", "numpy"), ("device", "d4")), True), ("update", (("backend", "torch"), ("dtype", "half")), False),
        ("clear",), ("ask",)]


def history(ctx, ops):
    m = begin(ctx)
    try:
        for op in ops:
            ctx.step()
            request(ctx, m, op)
            compare(ctx, m, f"after {op}")
        ctx.state(m.backend, m.env, m.device, m.seed, m.level)
    finally:
        begin(ctx)


def inherit(ctx, op):
    """a process started after a request uses the backend last accepted"""
    m = begin(ctx)
    try:
        request(ctx, m, op)
        got = fresh({k: os.environ[k] for k in ("GPMP_BACKEND", "GPMP_DTYPE")}, [])
        ctx.equal([got.get("backend"), got.get("kind"), got.get("el")], [m.env, m.env, "float64"], f"process started after {op}")
        ctx.state("inherit", op)
    finally:
        begin(ctx)


def package(ctx):
    import gpmp
    for name in ("num", "kernel", "dataloader", "modeldiagnosis", "mcmc", "parameter", "misc", "plot"):
        mod = getattr(gpmp, name)
        ctx.equal(mod.__name__, "gpmp." + name, "lazily loaded part")
        ctx.ok(getattr(gpmp, name) is mod and name in dir(gpmp), f"{name} not stable")
    ctx.raises(AttributeError, lambda: gpmp.no_such_part, "unknown part")
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(gpmp.__file__))), "VERSION")
    v = open(path).read().strip()
    ctx.equal([gpmp.__version__, gpmp.config.get_config().version], [v, v], "version")
    ctx.state("package")


def explore(ctx):
    names = ("a", "ab", "b", "A", "")
    for r in range(len(names) + 1):
        for present in itertools.permutations(names, r) if r < 4 else itertools.combinations(names, r):
            for cleared in names + ("other",):
                ctx.run(f"caches/{present}/{cleared}", named_caches, present, cleared)
    if ctx.backend == "numpy":
        for backend in (None, "numpy", "torch", "NUMPY", "Torch", "jax", "JAX", "bogus", ""):
            for hidden in (False, True):
                ctx.run(f"startup:{backend}:{hidden}", startup, backend, hidden)
    for dtype, good in (("float64", True), ("double", True), ("np.float64", True), ("float32", False), ("f4", False), ("half", False)):
        ctx.run(f"startup-dtype:{dtype}", startup_dtype, dtype, good)
    for name, level in (("DEBUG", 10), ("warning", 30), ("ERROR", 40), ("nonsense", 20)):
        ctx.run(f"startup-level:{name}", startup_level, name, level)
    ctx.run("package", package)
    for op in (("backend", "numpy"), ("backend", "torch"), ("backend", "jax"), ("update", (("backend", "torch"), ("dtype", "half")), False),
               ("update", (("backend", "Numpy"), ("dtype", "double")), True)):
        ctx.run(f"inherit:{op}", inherit, op)
    for k in (1, 2):
        for ops in itertools.product(OPS, repeat=k):
            ctx.run(f"hist:{ops}", history, ops)
    for ops in itertools.product(CORE, repeat=3 if not ctx.thorough else 4):
        ctx.run(f"hist-core:{ops}", history, ops)
    if ctx.thorough:
        for ops in itertools.product(OPS, repeat=3):
            ctx.run(f"hist3:{ops}", history, ops)
