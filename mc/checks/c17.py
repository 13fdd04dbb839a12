"""C17 - parameter containers.

Operation histories on a live container (plus one derived container and one
outstanding view) are replayed against a plain list-of-records model.  After
every operation every way of reading the containers is compared.
"""

import itertools
import math

import numpy as np

from mc.ctx import to_np

# name, path, normalisation, bounds (natural scale), initial normalised value
KITS = {
    "mix": [("s2", ["cov", "var"], "log", (0.5, 2.0), 0.0),
            ("r0", ["cov", "len"], "log_inv", None, -0.5),
            ("m", ["mean"], "none", (-1.0, 1.0), 1.0),
            ("r1", ["cov", "len"], "log_inv", (0.1, 1.0), 0.25)],
    "flat": [("a", ["p"], "none", None, 0.5), ("b", ["p"], "log", (0.0, 1.0), -0.5)],
    "deep": [("u", ["g", "x"], "log", None, 1.5), ("v", ["g", "x", "y"], "none", (0.0, 0.0), 0.0),
             ("w", ["g"], "log_inv", (0.25, 4.0), -1.0)],
    "one": [("z", ["q"], "log_inv", (1.0, 1.0), 0.0)],
}
KITS["big"] = [(f"p{i}", [["cov", "len"], ["mean"], ["cov", "var"], ["cov", "len", "z"]][min(i // 4, 3)],
                ("log", "none", "log_inv")[i % 3], None if i % 4 else (0.25, 4.0 + i), 0.125 * i - 1.0) for i in range(15)]
KITS["vast"] = [(f"p{i}", [["cov", "len"], ["mean"], ["cov", "var"], ["cov", "len", "z"]][min(i // 20, 3)],
                 ("log", "none", "log_inv")[i % 3], None if i % 4 else (0.25, 4.0 + i), 0.03125 * i - 1.0) for i in range(70)]
FAIL = (ValueError, IndexError, KeyError, TypeError)


def nat(v, n):
    return math.exp(v) if n == "log" else math.exp(-v) if n == "log_inv" else v


def inv(v, n):
    return math.log(v) if n == "log" else -math.log(v) if n == "log_inv" else v


class M:
    """plain model of a container"""

    def __init__(self, recs):
        self.r = [list(x) for x in recs]

    def copy(self):
        return M(self.r)

    def idx(self, path, prefix):
        return [i for i, x in enumerate(self.r) if (x[1][:len(path)] if prefix else x[1]) == path]

    def pos(self, name):
        return [x[0] for x in self.r].index(name)

    def vals(self):
        return [x[4] for x in self.r]


def real(recs, form):
    import gpmp.num as gnp
    from gpmp.parameter import Param, Normalization
    vals = [x[4] for x in recs]
    norms = [x[2] for x in recs]
    if form == "array":
        vals = gnp.asarray(np.array(vals))
        norms = [Normalization(n) for n in norms]
    return Param(values=vals, paths=[list(x[1]) for x in recs], normalizations=norms,
                 names=[x[0] for x in recs], bounds=[x[3] for x in recs])


def same(ctx, p, m, what):
    n = len(m.r)
    ctx.equal(int(p.dim), n, f"{what}: dimension")
    ctx.close(p.values, np.array(m.vals()).reshape(n), f"{what}: values", rtol=1e-13, atol=1e-13)
    natural = [nat(x[4], x[2]) for x in m.r]
    ctx.close(p.denormalized_values, np.array(natural).reshape(n), f"{what}: natural values", rtol=1e-12, atol=1e-13)
    ctx.equal(list(p.names), [x[0] for x in m.r], f"{what}: names")
    ctx.equal([list(x) for x in p.paths], [x[1] for x in m.r], f"{what}: paths")
    ctx.equal([x.value for x in p.normalizations], [x[2] for x in m.r], f"{what}: normalisations")
    ctx.equal(list(p.bounds), [x[3] for x in m.r], f"{what}: bounds")
    want = [x[3] is None or x[3][0] <= v <= x[3][1] for x, v in zip(m.r, natural)]
    edge = [x[3] is not None and min(abs(v - x[3][0]), abs(v - x[3][1])) < 1e-9 and v not in x[3]
            for x, v in zip(m.r, natural)]
    got = [bool(b) for b in p.check_bounds()]
    ctx.equal(len(got), n, f"{what}: number of bound tests")
    ctx.ok(all(g == w or e for g, w, e in zip(got, want, edge)), f"{what}: bounds test {got}, expected {want}")
    names = [x[0] for x in m.r]
    unique = len(set(names)) == n
    for i, x in enumerate(m.r):
        if names.index(x[0]) != i:
            continue
        ctx.close(np.ravel(to_np(p.get_by_name(x[0]))), [x[4]], f"{what}: value of {x[0]}", rtol=1e-13, atol=1e-13)
    paths = {tuple(x[1][:k]) for x in m.r for k in range(len(x[1]) + 1)} | {("nowhere",)}
    for t in sorted(paths):
        t = list(t)
        for prefix in (False, True):
            ii = m.idx(t, prefix)
            got = p.get_by_path(t, prefix_match=prefix)
            ctx.close(got, np.array([m.r[i][4] for i in ii]).reshape(len(ii)), f"{what}: values under {t}", rtol=1e-13, atol=1e-13)
        ctx.close(p.select_by_path_prefix(t), np.array([m.r[i][4] for i in ii]).reshape(len(ii)), f"{what}: selection {t}", rtol=1e-13, atol=1e-13)
        ctx.equal(list(p.indices_by_path_prefix(t)), ii, f"{what}: indices under {t}")
        ctx.equal(list(p.names_by_path_prefix(t)), [m.r[i][0] for i in ii], f"{what}: names under {t}")
        ctx.equal([list(x) for x in p.get_paths(t)], [m.r[i][1] for i in ii], f"{what}: paths under {t}")
    ctx.equal({tuple(x) for x in p.get_paths()}, {tuple(x[1]) for x in m.r}, f"{what}: all paths")
    if unique:
        d = p.to_dict()
        s = p.to_simple_dict()
        ctx.equal([list(d), list(s)], [names, names], f"{what}: dictionary keys")
        for x, v in zip(m.r, natural):
            e = d[x[0]]
            ctx.close([float(e["value"]), float(e["denormalized"]), float(s[x[0]])], [x[4], v, v],
                      f"{what}: dictionary entry {x[0]}", rtol=1e-12, atol=1e-13)
            ctx.equal([list(e["path"]), e["normalization"], e["bounds"]], [x[1], x[2], x[3]], f"{what}: entry {x[0]}")
    lines = repr(p).split("\n")[1:]
    if n:
        ctx.equal([ln.split(":")[0].strip() for ln in lines], names, f"{what}: printed names")


class World:
    def __init__(self, kit, form):
        self.p, self.m = real(KITS[kit], form), M(KITS[kit])
        self.d = self.dm = None
        self.view = None            # (array, indices in the container)


def rejected(ctx, fn, what):
    ctx.raises(FAIL, fn, what)


def write_view(w, k):
    v, ii = w.view
    v[:] = _arr([0.125 * (j + k) for j in range(len(ii))])
    for j, i in enumerate(ii):
        w.m.r[i][4] = 0.125 * (j + k)


def _arr(x):
    import gpmp.num as gnp
    return gnp.asarray(np.array(x, float))


def step(ctx, w, op):
    from gpmp.parameter import Param
    p, m = w.p, w.m
    n = len(m.r)
    name, *a = op
    if name == "name":
        i = a[0] % n if n else None
        if i is None:
            return rejected(ctx, lambda: p.set_by_name("ghost", 1.0), "unknown name")
        p.set_by_name(m.r[i][0], a[1])
        m.r[m.pos(m.r[i][0])][4] = a[1]
    elif name == "ghost":
        rejected(ctx, lambda: p.set_by_name("ghost", 1.0), "write to an unknown name accepted")
        rejected(ctx, lambda: p.get_by_name("ghost"), "read of an unknown name accepted")
    elif name == "path":
        prefix, t = a[0], (m.r[a[1] % n][1] if n else ["x"])
        t = t[:1] if prefix else t
        ii = m.idx(t, prefix)
        new = [a[2] + 0.5 * j for j in range(len(ii))]
        p.set_by_path(list(t), _arr(new) if a[3] else new, prefix_match=prefix)
        for i, v in zip(ii, new):
            m.r[i][4] = v
    elif name == "path_bad":
        t = m.r[0][1] if n else ["x"]
        ii = m.idx(t, False)
        rejected(ctx, lambda: p.set_by_path(list(t), [0.3] * (len(ii) + 1)), "too many values accepted")
        if ii:
            rejected(ctx, lambda: p.set_by_path(list(t), [0.3] * (len(ii) - 1)), "too few values accepted")
        rejected(ctx, lambda: p.set_by_path(["nowhere"], [0.3]), "unknown path accepted")
    elif name == "values":
        new = [a[0] + 0.25 * j for j in range(n)]
        p.values = new if a[1] == "list" else _arr(new)
        for i, v in enumerate(new):
            m.r[i][4] = v
        w.view = None
    elif name == "ints":
        p.values = [j - 1 for j in range(n)]
        for i in range(n):
            m.r[i][4] = float(i - 1)
        w.view = None
    elif name == "values_bad":
        def bad(k):
            p.values = [0.3] * k
        rejected(ctx, lambda: bad(n + 1), "whole vector of the wrong length accepted")
        if n:
            rejected(ctx, lambda: bad(n - 1), "whole vector of the wrong length accepted")
    elif name == "natural":
        new = [a[0] + 0.25 * j for j in range(n)]
        p.denormalized_values = new if a[1] == "list" else _arr(new)
        for i, v in enumerate(new):
            m.r[i][4] = inv(v, m.r[i][2])
        w.view = None
    elif name == "natural_bad":
        def badn(k):
            p.denormalized_values = [0.3] * k
        rejected(ctx, lambda: badn(n + 1), "natural vector of the wrong length accepted")
    elif name == "unnorm":
        take = [x for j, x in enumerate(m.r) if (a[0] >> j) & 1 and m.pos(x[0]) == j]
        kw = {x[0]: a[1] + 0.5 * j for j, x in enumerate(take)}
        p.set_from_unnormalized(**kw)
        for x in take:
            x[4] = inv(kw[x[0]], x[2])
    elif name == "unnorm_bad":
        kw = {m.r[0][0]: 0.7, "ghost": 1.0} if n else {"ghost": 1.0}
        rejected(ctx, lambda: p.set_from_unnormalized(**kw), "unknown name accepted")
    elif name == "view_name":
        if not n:
            return rejected(ctx, lambda: p.get_by_name("ghost", return_view=True), "unknown name")
        i = m.pos(m.r[a[0] % n][0])
        w.view = (p.get_by_name(m.r[i][0], return_view=True), [i])
        ctx.equal(tuple(w.view[0].shape), (1,), "shape of a view")
    elif name == "view_path":
        t = (m.r[a[0] % n][1] if n else ["x"])
        t = t[:1] if a[1] else t
        ii = m.idx(t, a[1])
        if ii and ii == list(range(ii[0], ii[0] + len(ii))):
            w.view = (p.get_by_path(list(t), prefix_match=a[1], return_view=True), ii)
            ctx.close(w.view[0], [m.r[i][4] for i in ii], "view", rtol=1e-13, atol=1e-13)
        else:
            rejected(ctx, lambda: p.get_by_path(list(t), prefix_match=a[1], return_view=True),
                     "view of scattered parameters accepted")
    elif name == "write_view":
        if w.view is None:
            c = p.get_by_path(m.r[0][1] if n else ["x"])
            c[:] = 77.0                      # a copy: the container must not change
        else:
            write_view(w, a[0])
    elif name == "slice":
        sl = {"tail": slice(1, None), "rev": slice(None, None, -1), "head": slice(0, 1),
              "none": slice(0, 0), "every2": slice(None, None, 2)}[a[0]]
        w.d, w.dm = p[sl], M(m.r[sl])
    elif name == "item":
        if not n:
            return rejected(ctx, lambda: p[0], "item of an empty container")
        w.d, w.dm = p[a[0]], M([m.r[a[0]]])
    elif name == "item_bad":
        rejected(ctx, lambda: p[n], "item out of range accepted")
    elif name == "concat":
        other = real(KITS["one"], "list")
        om = M(KITS["one"])
        if a[0] == "add":
            w.d, w.dm = p + other, M(m.r + om.r)
        elif a[0] == "radd":
            w.d, w.dm = Param.concat(other, p), M(om.r + m.r)
        elif a[0] == "twin":                 # same names, other scales, bounds, paths and values
            turn = {"log": "log_inv", "log_inv": "none", "none": "log"}
            om = M([(x[0], ["twin"] + x[1], turn[x[2]], None if x[3] else (0.5, 3.0), x[4] - 0.125) for x in m.r[:2]])
            w.d, w.dm = p + real(om.r, "list"), M(m.r + om.r)
        elif a[0] == "self":
            w.d, w.dm = Param.concat(p), M(m.r)
        else:
            w.d, w.dm = Param.concat(p, other, p[0:1]), M(m.r + om.r + m.r[0:1])
    elif name == "swap":
        if w.d is not None:
            w.p, w.m, w.d, w.dm = w.d, w.dm, w.p, w.m
            w.view = None
        else:
            w.d, w.dm = p[:], M(m.r)
    elif name == "rebound":
        if n:
            p.bounds[0] = (-3.0, 3.0)
            m.r[0][3] = (-3.0, 3.0)
        else:
            rejected(ctx, lambda: p[0], "item of an empty container")
    else:
        raise AssertionError(name)


OPS = [("name", 0, 0.75), ("name", 1, -2.0), ("ghost",), ("path", False, 1, 0.5, False), ("path", True, 0, -1.0, True),
       ("path_bad",), ("values", 0.1, "list"), ("values", -0.4, "array"), ("ints",), ("values_bad",),
       ("natural", 0.5, "list"), ("natural", 2.0, "array"), ("natural_bad",), ("unnorm", 1, 0.5), ("unnorm", 7, 1.5),
       ("unnorm_bad",), ("view_name", 1), ("view_path", 0, False), ("view_path", 0, True), ("write_view", 1),
       ("slice", "tail"), ("slice", "rev"), ("slice", "none"), ("slice", "every2"), ("item", 0), ("item", -1),
       ("item_bad",), ("concat", "add"), ("concat", "radd"), ("concat", "self"), ("concat", "three"),
       ("concat", "twin"), ("swap",),
       ("rebound",)]
CORE = [("name", 1, -2.0), ("values", 0.1, "array"), ("ints",), ("natural", 0.5, "list"), ("unnorm", 7, 1.5),
        ("unnorm_bad",), ("view_path", 1, False), ("write_view", 1), ("slice", "tail"), ("concat", "add"), ("swap",)]


def history(ctx, kit, form, ops):
    w = World(kit, form)
    same(ctx, w.p, w.m, "start")
    for k, op in enumerate(ops):
        ctx.step()
        step(ctx, w, op)
        if k == len(ops) - 1:
            same(ctx, w.p, w.m, f"container after {op}")
            if w.d is not None:
                same(ctx, w.d, w.dm, f"derived container after {op}")
            if w.view is not None:
                ctx.close(w.view[0], [w.m.r[i][4] for i in w.view[1]], "view follows the container", rtol=1e-13, atol=1e-13)
    ctx.state(kit, w.m.r, None if w.dm is None else w.dm.r, None if w.view is None else w.view[1])


# -- construction -----------------------------------------------------------------
def construction(ctx, n, lens):
    """every combination of field lengths n-1, n, n+1 (or absent)"""
    from gpmp.parameter import Param
    kw = {}
    fields = ("paths", "normalizations", "names", "bounds")
    fill = {"paths": ["q"], "normalizations": "log", "names": "k", "bounds": (0.0, 5.0)}
    for f, k in zip(fields, lens):
        if k is not None:
            kw[f] = [f"k{i}" if f == "names" else fill[f] for i in range(max(0, n + k))]
    good = all(k is None or max(0, n + k) == n for k in lens)
    vals = [0.5 * i for i in range(n)]

    def build():
        return Param(values=vals, **kw)
    ctx.step()
    if not good:
        rejected(ctx, build, f"inconsistent field lengths accepted: {lens}")
        return
    p = build()
    norm = "log" if lens[1] is not None else "none"
    m = M([(f"k{i}" if lens[2] is not None else f"param_{i}", ["q"] if lens[0] is not None else ["param"], norm,
            (0.0, 5.0) if lens[3] is not None else None, vals[i]) for i in range(n)])
    same(ctx, p, m, "new container")
    ctx.state(n, lens)


def defaults(ctx, n):
    from gpmp.parameter import Param
    p = Param(dim=n, name_prefix="th")
    same(ctx, p, M([(f"th{i}", ["param"], "none", None, 0.0) for i in range(n)]), "default container")
    same(ctx, Param(), M([]), "empty container")
    for bad in ("Log10", "", 3):
        rejected(ctx, lambda b=bad: Param(values=[1.0], normalizations=[b]), f"normalisation {bad!r} accepted")
    for form in ("LOG", "Log", "log"):
        ctx.equal(Param(values=[1.0], normalizations=[form]).normalizations[0].value, "log", "normalisation name")
    for form in ("NONE", "None", "none"):
        ctx.equal(Param(values=[1.0], normalizations=[form]).normalizations[0].value, "none", "normalisation name")
    ctx.state("default", n)


def conversion(ctx, kind, d, bmask, prefix, form):
    import gpmp.num as gnp
    from gpmp.parameter import param as P
    b = [(-1.0 - k, 2.0 + k) if (bmask >> k) & 1 else None for k in range(3)]
    k = d + (2 if kind == "noisy" else 1)
    vals = [0.4 - 0.3 * i for i in range(k)]
    src = vals if form == "list" else _arr(vals)
    kw = dict(name_prefix=prefix) if prefix else {}
    if kind == "noisy":
        p = P.param_from_covparam_anisotropic_noisy(src, logsigma2_bounds=b[0], logsigma2_noise_bounds=b[1], loginvrho_bounds=b[2], **kw)
    elif kind == "plain":
        p = P.param_from_covparam_anisotropic(src, logsigma2_bounds=b[0], loginvrho_bounds=b[2], **kw)
    elif kind == "make":
        p = P.make_anisotropic_param(values=src, logsigma2_bounds=b[0], loginvrho_bounds=b[2], **kw)
    else:
        p = P.make_anisotropic_param(d=d, logsigma2_bounds=b[0], loginvrho_bounds=b[2], **kw)
        vals = [0.0] + [-1.0] * d
    recs = [(prefix + "sigma2", ["covparam", "variance"], "log", b[0], vals[0])]
    if kind == "noisy":
        recs.append((prefix + "sigma2_noise", ["covparam", "variance"], "log", b[1], vals[1]))
    recs += [(f"{prefix}rho_{i}", ["covparam", "lengthscale"], "log_inv", b[2], vals[len(vals) - d + i]) for i in range(d)]
    m = M(recs)
    same(ctx, p, m, f"conversion {kind}")
    # the container stays usable: natural-scale writes reach the right entry only
    for i, x in enumerate(m.r):
        p.set_from_unnormalized(**{x[0]: 1.25 + i})
        x[4] = inv(1.25 + i, x[2])
        same(ctx, p, m, f"conversion {kind} after writing {x[0]}")
    if kind == "default":
        rejected(ctx, lambda: P.make_anisotropic_param(), "no values and no dimension accepted")
    ctx.state(kind, d, bmask, prefix)


def explore(ctx):
    for n in range(3):
        ctx.run(f"defaults:{n}", defaults, n)
        for lens in itertools.product((None, -1, 0, 1), repeat=4):
            if n == 0 and -1 in lens:
                continue
            ctx.run(f"construct:{n}:{lens}", construction, n, lens)
    for kind in ("plain", "noisy", "make", "default"):
        for d in (1, 2, 3, 9, 10, 11, 13):
            for bmask in range(8):
                for prefix in ("", "gp_"):
                    for form in ("list", "array"):
                        ctx.run(f"convert:{kind}:{d}:{bmask}:{prefix}:{form}", conversion, kind, d, bmask, prefix, form)
    for kit in KITS:
        for form in ("list", "array"):
            for k in (1, 2):
                for ops in itertools.product(OPS if kit not in ("big", "vast") or k == 1 else CORE if kit == "big" else (), repeat=k):
                    if k == 2 and form == "list" and kit != "mix":
                        continue
                    ctx.run(f"hist:{kit}:{form}:{ops}", history, kit, form, ops)
        for ops in itertools.product(CORE, repeat=3 if kit not in ("big", "vast") else 1):
            ctx.run(f"hist3:{kit}:{ops}", history, kit, "array", ops)
    if ctx.thorough:
        for ops in itertools.product(OPS, repeat=3):
            ctx.run(f"hist3all:{ops}", history, "mix", "array", ops)
        for kit in ("mix", "flat"):
            for ops in itertools.product(CORE, repeat=4):
                ctx.run(f"hist4:{kit}:{ops}", history, kit, "array", ops)
