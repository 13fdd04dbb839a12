"""C28 - diagnostics and labelled tables.

Tables: all short operation histories on a live table and one derived table,
against a plain nested-list model.  Performance figures: definitions applied to
brute-force leave-one-out and dense predictions.  Reports: the printed numbers
are read back and compared.
"""

import contextlib
import io
import itertools
import math
from types import SimpleNamespace

import numpy as np
from scipy.special import ndtr

from mc import zoo
from mc.ctx import to_np
from mc.checks.c01 import KERNELS
from mc.checks.c03 import brute, loo_posed


# -- tables --------------------------------------------------------------------------
class T:
    """plain table"""

    def __init__(self, data, cols, rows):
        self.data, self.cols, self.rows = [list(r) for r in data], list(cols), list(rows)

    def pick(self, ri, ci):
        return T([[self.data[i][j] for j in ci] for i in ri], [self.cols[j] for j in ci], [self.rows[i] for i in ri])


KITS = {
    "wide": ([[1.0, -2.5, 300.0], [0.05, 1e-4, 0.0]], ["a", "b", "c"], ["r", "s"]),
    "tall": ([[1.5, 2.0], [-3.0, 4.25], [1e6, -7.0]], ["a", "b"], ["p", "q", "r"]),
    "one": ([[0.5]], ["a"], ["r"]),
    "col": ([[1.0], [2.0], [3.0]], ["value"], ["u", "v", "w"]),
}
KEYERR = (KeyError, ValueError, IndexError, TypeError)


def real(t):
    from gpmp.misc.dataframe import DataFrame
    return DataFrame([list(r) for r in t.data], list(t.cols), list(t.rows))


def number(s):
    return float(s.replace("Inf", "inf").replace("NaN", "nan"))


def read_print(text):
    lines = [ln.split() for ln in text.split("\n")]
    return T([[number(v) for v in ln[1:]] for ln in lines[1:]], lines[0], [ln[0].rstrip(":") for ln in lines[1:]])


def near(got, want):
    if math.isnan(want) or math.isinf(want):
        return got == want or (math.isnan(want) and math.isnan(got))
    return abs(got - want) <= 6e-4 * max(1.0, abs(want)) if abs(want) >= 0.1 else abs(got - want) <= 6e-4 * max(abs(want), 1e-300) + 6e-5 * (0.01 <= abs(want))


def same(ctx, df, t, msg):
    ctx.equal(list(df.colnames), t.cols, f"{msg}: columns")
    ctx.equal(list(df.rownames), t.rows, f"{msg}: rows")
    ctx.equal(tuple(np.shape(df.data)), (len(t.rows), len(t.cols)), f"{msg}: shape")
    ctx.ok(np.array_equal(np.array(df.data, dtype=float), np.array(t.data, dtype=float).reshape(len(t.rows), len(t.cols)), equal_nan=True), f"{msg}: data {df.data} expected {t.data}")
    if len(set(t.rows)) == len(t.rows) and len(set(t.cols)) == len(t.cols):
        for i, r in enumerate(t.rows):
            for j, c in enumerate(t.cols):
                v = float(df[r, c])
                ctx.ok(v == t.data[i][j] or (v != v and t.data[i][j] != t.data[i][j]), f"{msg}: cell {r},{c}")
    if t.rows and t.cols:
        p = read_print(repr(df))
        ctx.equal(p.cols, t.cols, f"{msg}: printed columns")
        ctx.equal(p.rows, t.rows, f"{msg}: printed rows")
        for i in range(len(t.rows)):
            for j in range(len(t.cols)):
                ctx.ok(near(p.data[i][j], float(t.data[i][j])), f"{msg}: printed {p.data[i][j]} for {t.data[i][j]}")


SL = {"all": slice(None), "tail": slice(1, None), "head": slice(0, 1), "rev": slice(None, None, -1), "two": slice(0, 2)}


def idx(n, s):
    return list(range(n))[SL[s]]


def step(ctx, w, op):
    k, *a = op
    df, t = w.df, w.t
    R, C = len(t.rows), len(t.cols)
    if k == "cell":
        w.d, w.dt = df[SL["all"], SL["all"]], t.pick(range(R), range(C))
    elif k == "row":
        w.d, w.dt = df[t.rows[a[0] % R]], t.pick([a[0] % R], range(C))
    elif k == "col":
        w.d, w.dt = df[t.cols[a[0] % C]], t.pick(range(R), [a[0] % C])
    elif k == "rowslice":
        w.d, w.dt = df[t.rows[a[0] % R], SL[a[1]]], t.pick([a[0] % R], idx(C, a[1]))
    elif k == "colslice":
        w.d, w.dt = df[SL[a[1]], t.cols[a[0] % C]], t.pick(idx(R, a[1]), [a[0] % C])
    elif k == "block":
        w.d, w.dt = df[SL[a[0]], SL[a[1]]], t.pick(idx(R, a[0]), idx(C, a[1]))
    elif k == "setcell":
        df[t.rows[a[0] % R], t.cols[a[1] % C]] = a[2]
        t.data[a[0] % R][a[1] % C] = a[2]
    elif k == "setrow":
        v = [a[1] + j for j in range(C)]
        df[t.rows[a[0] % R]] = v
        t.data[a[0] % R] = v
    elif k == "setcol":
        v = [a[1] - j for j in range(R)]
        df[t.cols[a[0] % C]] = v
        for i in range(R):
            t.data[i][a[0] % C] = v[i]
    elif k == "setrowslice":
        df[t.rows[a[0] % R], SL["tail"]] = a[1]
        for j in range(1, C):
            t.data[a[0] % R][j] = a[1]
    elif k == "setcolslice":
        df[SL["tail"], t.cols[a[0] % C]] = a[1]
        for i in range(1, R):
            t.data[i][a[0] % C] = a[1]
    elif k == "setblock":
        df[SL["two"], SL["head"]] = a[0]
        for i in range(min(2, R)):
            t.data[i][0] = a[0]
    elif k == "addrow":
        name = f"n{w.k}"
        v = [a[0] + 0.5 * j for j in range(C)]
        df.append_row(v if a[1] == "list" else np.array(v), name)
        t.data.append(v)
        t.rows.append(name)
    elif k == "addcol":
        name = f"m{w.k}"
        v = [a[0] - 0.5 * j for j in range(R)]
        df.append_col(v if a[1] == "list" else np.array(v), name)
        for r, x in zip(t.data, v):
            r.append(x)
        t.cols.append(name)
    elif k == "vcat":
        o = T([[7.0 + j for j in range(C)], [-1.0] * C], t.cols, [f"x{w.k}", f"y{w.k}"])
        w.d, w.dt = df.concat(real(o)), T(t.data + o.data, t.cols, t.rows + o.rows)
    elif k == "hcat":
        o = T([[9.0 - i, 0.5] for i in range(R)], [f"x{w.k}", f"y{w.k}"], t.rows)
        w.d, w.dt = df.concat(real(o), axis=1), T([p + q for p, q in zip(t.data, o.data)], t.cols + o.cols, t.rows)
    elif k == "cat_bad":
        o = T([[1.0] * C], t.cols[:-1] + ["other"], ["z"])
        ctx.raises(ValueError, lambda: df.concat(real(o)), "different columns concatenated vertically")
        o = T([[1.0]] * R, ["z"], t.rows[:-1] + ["other"])
        ctx.raises(ValueError, lambda: df.concat(real(o), axis=1), "different rows concatenated horizontally")
        ctx.raises(ValueError, lambda: df.concat(df, axis=2), "unknown axis")
    elif k == "ghost":
        ctx.raises(KEYERR, lambda: df["ghost"], "unknown name read")
        ctx.raises(KEYERR, lambda: df["ghost", t.cols[0]], "unknown row read")
        ctx.raises(KEYERR, lambda: df[t.rows[0], "ghost"], "unknown column read")
        ctx.raises(KEYERR, lambda: df.__setitem__("ghost", 1.0), "unknown name written")
        ctx.raises(KEYERR, lambda: df.__setitem__((t.rows[0], "ghost"), 1.0), "unknown column written")
        ctx.raises(KEYERR, lambda: df[0], "integer key")
    elif k == "swap":
        if w.d is not None and w.dt.rows and w.dt.cols:
            w.df, w.t, w.d, w.dt = w.d, w.dt, w.df, w.t
        else:
            w.d, w.dt = df[SL["all"], SL["all"]], t.pick(range(R), range(C))
    else:
        raise AssertionError(k)
    w.k += 1


OPS = [("cell",), ("row", 0), ("row", 1), ("col", 0), ("col", 2), ("rowslice", 1, "tail"), ("rowslice", 0, "rev"), ("rowslice", 0, "all"),
       ("colslice", 1, "tail"), ("colslice", 0, "rev"), ("colslice", 0, "all"), ("block", "tail", "head"), ("block", "rev", "two"),
       ("block", "all", "tail"), ("setcell", 1, 0, 8.5), ("setcell", 0, 1, -0.01), ("setcell", 0, 0, math.nan), ("setcell", 1, 1, -math.inf),
       ("setrow", 1, 2.0), ("setcol", 1, 5.0), ("setrowslice", 0, 4.0), ("setcolslice", 0, -6.0), ("setblock", 3.5),
       ("addrow", 0.25, "list"), ("addrow", -4.0, "array"), ("addcol", 0.125, "list"), ("addcol", 12.0, "array"), ("vcat",), ("hcat",),
       ("cat_bad",), ("ghost",), ("swap",)]
CORE = [("row", 1), ("col", 0), ("block", "tail", "all"), ("setcell", 1, 0, 8.5), ("setcol", 1, 5.0), ("addrow", 0.25, "list"),
        ("addcol", 0.125, "list"), ("vcat",), ("hcat",), ("swap",)]


def table(ctx, kit, ops):
    data, cols, rows = KITS[kit]
    names = [list(cols), list(rows)]
    src = [list(r) for r in data]
    from gpmp.misc.dataframe import DataFrame
    w = SimpleNamespace(df=DataFrame(src, names[0], names[1]), t=T(data, cols, rows), d=None, dt=None, k=0)
    same(ctx, w.df, w.t, "start")
    for op in ops:
        ctx.step()
        step(ctx, w, op)
    same(ctx, w.df, w.t, f"table after {ops[-1]}")
    if w.d is not None:
        same(ctx, w.d, w.dt, f"derived table after {ops[-1]}")
    ctx.equal([names, src], [[list(cols), list(rows)], [list(r) for r in data]], "the caller's lists")
    ctx.state(kit, str(w.t.data), w.t.rows, w.t.cols, None if w.dt is None else (str(w.dt.data), w.dt.rows, w.dt.cols))


def printed(ctx, part):
    """every magnitude, sign and number of digits reads back as the value"""
    from gpmp.misc.dataframe import ftos
    import gpmp.num as gnp
    for e in range(-12 + part, 13, 3):
        for c in (1.0, 1.2345678, 4.9995, 5.0, 9.87654, 9.99949, 9.99951, 9.9999999):
            for s in (1, -1):
                for fp in (2, 3, 4, 6):
                    x = s * c * 10.0 ** e
                    for v in (x, np.float64(x), gnp.asarray(np.array([x]))):
                        got = float(ftos(v, fp))
                        ctx.ok(abs(got - x) <= 0.51 * 10.0 ** -fp * (1.0 if 0.1 <= abs(x) < 1000 else 0.1 if 0.01 <= abs(x) < 0.1 else 10.0 ** math.floor(math.log10(abs(x)))) * (1 + 1e-9),
                               f"{x!r} printed as {ftos(v, fp)} with {fp} digits")
                    ctx.step()
                    ctx.state(x, fp)
    for v, w in ((0.0, "0.0"), (math.inf, "+Inf"), (-math.inf, "-Inf")):
        ctx.equal(ftos(v), w, "special value")
    ctx.ok(ftos(math.nan).lower() == "nan", "not-a-number")


# -- performance -------------------------------------------------------------------------
def figures(prefix, sse, z, err):
    n = len(z)
    tss = sum((v - sum(z) / n) ** 2 for v in z)
    std = math.sqrt(tss / n)
    s = sum(e * e for e in err)
    rmse = math.sqrt(s / n)
    last = "loo_Q2" if prefix == "loo" else "test_R2"
    return {f"{prefix}_n": n, f"{prefix}_std": std, f"{prefix}_tss": tss, f"{prefix}_{sse}": s,
            f"{prefix}_{sse}_over_tss": s / tss, f"{prefix}_log10_{sse}_over_tss": math.log10(s / tss), f"{prefix}_rmse": rmse,
            f"{prefix}_rmse_over_std": rmse / std, last: 1 - s / tss}


def performance(ctx, s, xi, k):
    import gpmp.num as gnp
    from gpmp.modeldiagnosis import compute_performance, perf
    n, d = xi.shape
    model = s.model()
    z = zoo.zvec(n, k)
    m, v, e = brute(s, xi, z)
    xt = zoo.targets(d) if d < 5 else zoo.spread(40, d, 0.137)
    zt = zoo.zvec(len(xt), k + 2) + 0.3
    tm, tv, _, _ = s.predict(xi, z, xt)
    A = gnp.asarray
    tol = dict(rtol=1e-5, atol=1e-6)
    fl, ft = figures("loo", "press", z, e), figures("test", "rss", zt, zt - tm)
    pl, pt = ndtr((z - m) / np.sqrt(v)), ndtr((zt - tm) / np.sqrt(tv))
    # leave-one-out and test results of other predictors, given by the caller
    om, ov = m + 0.2, v * 2 + 0.1
    otm, otv = tm - 0.4, tv * 3 + 0.2
    gl, gt = figures("loo", "press", z, z - om), figures("test", "rss", zt, zt - otm)
    gpl, gpt = ndtr((z - om) / np.sqrt(ov)), ndtr((zt - otm) / np.sqrt(otv))

    for loo, given, test, tgiven, pit, col, arr in itertools.product((0, 1), repeat=7):
        if (given and not loo) or (tgiven and not test) or not (loo or test):
            continue
        c = (lambda x: np.array(x).reshape(-1, 1)) if col else np.array
        w = A if arr else np.array
        kw = dict(loo=bool(loo), compute_pit=bool(pit))
        want = {}
        if loo:
            want.update(gl if given else fl)
            if pit:
                want["loo_pit"] = gpl if given else pl
        if given:
            kw["loo_res"] = (w(om), w(ov), w(z - om))
        if test:
            kw["xtzt"] = (w(xt), w(c(zt)))
            want.update(gt if tgiven else ft)
            if pit:
                want["test_pit"] = gpt if tgiven else pt
        if tgiven:
            kw["zpmzpv"] = (w(otm), w(otv))
        out = compute_performance(model, w(xi), w(c(z)), **kw)
        ctx.step()
        ctx.equal(sorted(out), sorted(want), f"figures reported {kw.keys()}")
        for key, val in want.items():
            got = to_np(out[key])
            ctx.close(np.reshape(got, -1) if np.ndim(got) else got, val, f"{key} loo={loo} given={given} test={test} tgiven={tgiven} col={col}", **tol)
        if not pit and not arr:
            kw.pop("compute_pit")
            f = io.StringIO()
            with contextlib.redirect_stdout(f):
                perf(model, w(xi), w(c(z)), **kw)
            show(ctx, f.getvalue(), want, loo, test)
    ctx.state(s.name, xi, k)


def whole(ctx, s, kx, kz):
    """Whole-number data in every kind of plain array give the figures of the same values."""
    from gpmp.modeldiagnosis import compute_performance
    xi, xt = zoo.whole(7, s.d), zoo.whole(7, s.d)[:4] + 1
    z, zt = np.array([3.0, -1.0, 4.0, 1.0, -5.0, 9.0, 2.0]), np.array([1.0, 0.0, 7.0, -3.0])
    m, v, e = brute(s, xi, z)
    tm, tv, _, _ = s.predict(xi, z, xt)
    want = {**figures("loo", "press", z, e), **figures("test", "rss", zt, zt - tm)}
    want["loo_pit"], want["test_pit"] = ndtr((z - m) / np.sqrt(v)), ndtr((zt - tm) / np.sqrt(tv))
    out = compute_performance(s.model(), zoo.form(xi, kx), zoo.form(z, kz), xtzt=(zoo.form(xt, kx), zoo.form(zt, kz)), compute_pit=True)
    ctx.step()
    ctx.equal(sorted(out), sorted(want), "figures reported")
    for key, val in want.items():
        ctx.close(to_np(out[key]), val, f"{key} from {kx}/{kz} arrays", rtol=1e-5, atol=1e-6)
    ctx.state("whole", s.name, kx, kz)


def measured(ctx, n, offset, unit):
    """Given results in other units and far from zero: figures computed after moving back."""
    import gpmp.num as gnp
    from gpmp.modeldiagnosis import compute_performance
    z = offset + unit * zoo.zvec(n, 1)
    om = offset + unit * (zoo.zvec(n, 1) + 0.4 * np.sin(1.0 + np.arange(n)))
    ov = unit ** 2 * (0.2 + 0.1 * np.cos(np.arange(n)))
    back = lambda v: (v - offset) / unit
    u, e = back(z), back(z) - back(om)
    raw = {**figures("loo", "press", u, e), **figures("test", "rss", u, e)}
    pit = ndtr(e / np.sqrt(ov / unit ** 2))
    s = zoo.spec("matern1", "const", 1, 0)
    for w in (np.array, gnp.asarray):
        out = compute_performance(s.model(), w(zoo.spread(n, 1)), w(z), loo_res=(w(om), w(ov), w(z - om)),
                                  xtzt=(w(zoo.spread(n, 1)), w(z)), zpmzpv=(w(om), w(ov)), compute_pit=True)
        ctx.step()
        for key, val in raw.items():
            p = 2 if key.endswith(("_tss", "press", "rss")) and "over" not in key else 1 if key.endswith(("_std", "_rmse")) and "over" not in key else 0
            ctx.close(float(np.reshape(to_np(out[key]), ())) / unit ** p, val, f"{key}, offset {offset}, unit {unit}", rtol=1e-8 + 1e-14 * abs(offset) / unit, atol=1e-9)
        for key in ("loo_pit", "test_pit"):
            ctx.close(to_np(out[key]), pit, f"{key}, offset {offset}, unit {unit}", rtol=1e-7, atol=1e-9)
    ctx.state("measured", n, offset, unit)


LABELS = [("std(z)", "std"), ("tss", "tss"), ("{}", "{}"), ("{}/tss", "{}_over_tss"), ("log10({}/tss)", "log10_{}_over_tss"),
          ("rmse", "rmse"), ("rmse/std(z)", "rmse_over_std")]


def show(ctx, text, want, loo, test):
    got = {}
    sec = None
    for ln in text.splitlines():
        w = ln.split()
        if len(w) == 2 and w[1].startswith("(n="):
            sec = w[0].lower()
            got[sec, "n"] = int(w[1][3:-1])
        elif sec and len(w) == 2 and w[0].endswith(":"):
            got[sec, w[0][:-1]] = number(w[1])
    ref = {}
    for on, sec, sse, last in ((loo, "loo", "press", "Q2"), (test, "test", "rss", "R2")):
        if on:
            ref[sec, "n"] = want[f"{sec}_n"]
            for a, b in LABELS:
                ref[sec, a.format(sse)] = want[f"{sec}_{b.format(sse)}"]
            ref[sec, last] = want[f"{sec}_{last}"]
    ctx.equal(sorted(map(str, got)), sorted(map(str, ref)), "printed entries")
    for k2, v in ref.items():
        ctx.ok(near(got[k2], v), f"printed {k2}: {got[k2]} for {v}")


# -- reports --------------------------------------------------------------------------------
def describe(ctx, cols, vals):
    from gpmp.modeldiagnosis import describe_array
    for rows in itertools.product(vals, repeat=3):
        x = np.array([[r + 0.5 * j * (i + 1) for j in range(cols)] for i, r in enumerate(rows)])
        for flat in ((0, 1) if cols == 1 else (0,)):
            arr = x[:, 0] if flat else x
            for sf in (None, 2.0, "vec"):
                f = [0.5 + j for j in range(cols)] if sf == "vec" else sf
                df = describe_array(arr, [f"c{j}" for j in range(cols)], f)
                names = ["min", "max", "delta", "mean", "std"] + (["delta_over_sigma"] if sf else [])
                want = []
                for j in range(cols):
                    c = x[:, j].tolist()
                    mu = sum(c) / 3
                    r = [min(c), max(c), max(c) - min(c), mu, math.sqrt(sum((v - mu) ** 2 for v in c) / 3)]
                    if sf:
                        r.append((max(c) - min(c)) * (f[j] if sf == "vec" else f))
                    want.append(r)
                ctx.equal(list(df.colnames), names, "statistics")
                ctx.equal(list(df.rownames), [f"c{j}" for j in range(cols)], "variables")
                ctx.close(df.data, want, "statistics of an array", rtol=1e-12, atol=1e-12)
                ctx.step()
        ctx.state(cols, rows)


def report(ctx, d, noisy, vi, bounded, zcols):
    """the report of a model with known parameters"""
    import gpmp.num as gnp
    from gpmp.modeldiagnosis import diag, modeldiagnosis_init, sigma_rho_from_covparam
    s = zoo.spec("noisy1" if noisy else "matern1", "const", d, vi)
    model = s.model()
    cov = [float(v) for v in zoo.covparams("noisy1" if noisy else "matern1", d, vi)]
    xi = zoo.grid(d)[:6] if d < 4 else zoo.spread(25, d)
    n = len(xi)
    z = zoo.zvec(n, vi) * 3
    zi = z if zcols == 0 else np.stack([z * (j + 1) for j in range(zcols)], axis=1)
    kind = "linear_mean_matern_anisotropic" + ("_noisy" if noisy else "")
    names = ["sigma2"] + (["sigma2_noise"] if noisy else []) + [f"rho_{i}" for i in range(d)]
    nat = [math.exp(c) if nm.startswith("sigma") else math.exp(-c) for nm, c in zip(names, cov)]
    info = SimpleNamespace(success=True, best_value_returned=True, nfev=17, total_time=0.25,
                           selection_criterion=lambda p: 10 * float(np.sum(to_np(p))), initial_params=gnp.asarray(np.array([0.1, 0.3])), fun=1.75)
    if bounded:
        info.bounds = [(c - 1.0 - i, c + 2.0 + i) if i % 2 == 0 else (-math.inf, math.inf) for i, c in enumerate(cov)]
    md = modeldiagnosis_init(model, info, model_type=kind)
    ctx.step()
    ps = md["param_selection"]
    ctx.equal([ps["cvg_reached"], ps["optimal_val"], ps["n_evals"], ps["time"], ps["final_val"]], [True, True, 17, 0.25, 1.75], "selection summary")
    ctx.close(ps["initial_val"], 4.0, "criterion at the initial parameters")
    ctx.equal(list(md["parameters"]), names, "parameter names")
    ctx.close([float(to_np(v)) for v in md["parameters"].values()], nat, "natural values", rtol=1e-12)
    p = md["param_obj"]
    if bounded:
        ctx.equal([None if b is None else tuple(b) for b in p.bounds], [tuple(b) if math.isfinite(b[0]) else None for b in info.bounds], "bounds of the selection")
    else:
        ctx.equal([b for b in p.bounds], [None] * len(cov), "no bounds")
    if not noisy:
        sr = sigma_rho_from_covparam(np.array(cov))
        ctx.equal(list(sr), ["sigma"] + [f"rho{i}" for i in range(d)], "scale names")
        ctx.close([float(to_np(v)) for v in sr.values()], [math.exp(cov[0] / 2)] + [math.exp(-c) for c in cov[1:]], "scales", rtol=1e-12)
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        diag(model, info, xi, zi, model_type=kind)
    text = f.getvalue()
    lines = text.splitlines()
    head = next(i for i, ln in enumerate(lines) if ln.split()[:2] == ["min", "max"])
    t = read_print("\n".join(lines[head:]))
    cols = [("zi", z)] if zcols == 0 else [(f"zi_{j}", z * (j + 1)) for j in range(zcols)]
    cols = [(nm, c, 1 / math.sqrt(nat[0])) for nm, c in cols] + [(f"xi_{j}", xi[:, j], 1 / nat[len(nat) - d + j]) for j in range(d)]
    ctx.equal(t.cols, ["min", "max", "delta", "mean", "std", "delta_over_sigma"], "columns of the data table")
    ctx.equal(t.rows, [c[0] for c in cols], "rows of the data table")
    for r, (nm, c, sc) in zip(t.data, cols):
        want = [c.min(), c.max(), c.max() - c.min(), c.mean(), c.std(), (c.max() - c.min()) * sc]
        for g, w in zip(r, want):
            ctx.ok(near(g, float(w)), f"data table, {nm}: {r} expected {want}")
    ctx.ok(any(ln.split() == ["count:", str(n)] for ln in lines), "number of observations")
    for nm, c, v in zip(names, cov, nat):
        row = [ln.split() for ln in lines if ln.split()[:1] == [nm + ":"]]
        ctx.ok(len(row) == 1 and near(number(row[0][-1]), v) and near(number(row[0][-2]), c), f"printed parameter {nm}: {row}")
    for key, v in (("cvg_reached", "True"), ("n_evals", "17")):
        ctx.ok(any(ln.split() == [key + ":", v] for ln in lines), f"printed {key}")
    for key, v in (("initial_val", 4.0), ("final_val", 1.75), ("time", 0.25)):
        row = [ln.split() for ln in lines if ln.split()[:1] == [key + ":"]]
        ctx.ok(len(row) == 1 and near(number(row[0][1]), v), f"printed {key}: {row}")
    ctx.state(d, noisy, vi, bounded, zcols)


def explore(ctx):
    T_ = ctx.thorough
    for kit in KITS:
        for n in (1, 2):
            for ops in itertools.product(OPS, repeat=n):
                ctx.run(f"table:{kit}:{ops}", table, kit, ops)
        for n in (3,) + ((4,) if T_ else ()):
            for ops in itertools.product(CORE, repeat=n):
                ctx.run(f"table:{kit}:{ops}", table, kit, ops)
    for p in range(3):
        ctx.run(f"printed:{p}", printed, p)
    for kernel in KERNELS:
        for mean, _, _ in zoo.MEANS:
            s = zoo.spec(kernel, mean, 1, 0)
            for c, xi in zoo.subsets(1, [3, 4, 5] if T_ else [4]):
                if loo_posed(s, xi):
                    ctx.run(f"perf:{s.name}:{c}", performance, s, xi, 1)
            s = zoo.spec(kernel, mean, 2, 1)
            g = zoo.grid(2)
            for c in zoo.progressions(len(g), 6, (1, 5), (0,)):
                if loo_posed(s, g[list(c)]):
                    ctx.run(f"perf:{s.name}:{c}", performance, s, g[list(c)], 3)
    for kernel, mean in (("matern1", "const"), ("noisy1", "lin"), ("matern0", "zero")):
        for d, n in ((1, 20), (3, 33), (6, 65)):
            s = zoo.spec(kernel, mean, d, 1 if d == 1 else 0)
            ctx.run(f"perfn:{s.name}:{n}", performance, s, zoo.spread(n, d), 2)
    for n in (3, 10, 40, 300):
        for offset, unit in itertools.product((0.0, 1e3, -1e6, 1e9), (1e-9, 1e-6, 1e-3, 1.0, 1e5, 1e9)):
            if abs(offset) <= 1e7 * unit:
                ctx.run(f"measured:{n}:{offset}:{unit}", measured, n, offset, unit)
    vals = (-1.0, 0.0, 0.25, 4.0) + ((100.0,) if T_ else ())
    for cols in (1, 2, 3):
        ctx.run(f"describe:{cols}", describe, cols, vals)
    for d, noisy, vi, bounded, zc in itertools.product((1, 2, 3, 6, 8), (0, 1), (0, 1, 2), (0, 1), (0, 1, 2)):
        ctx.run(f"report:{d}:{noisy}:{vi}:{bounded}:{zc}", report, d, noisy, vi, bounded, zc)
    for mean in ("zero", "const", "par_affine"):
        s = zoo.spec("matern1", mean, 2, 0)
        for kx, kz in itertools.product(zoo.FORMS + ("float",), repeat=2):
            ctx.run(f"whole:{s.name}:{kx}:{kz}", whole, s, kx, kz)
