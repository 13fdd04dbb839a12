"""C31 - figures show the quantities they name.

Figures are drawn with a backend without display; the curves, polygons,
markers, histograms and labels are read back from the figure objects and
compared with the quantities computed independently.
"""

import contextlib
import io
import itertools
import math
import os
import shutil
import warnings
from types import SimpleNamespace

import numpy as np
from scipy.stats import gaussian_kde, norm

import matplotlib

matplotlib.use("Agg")
import matplotlib.axes  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402

from mc.ctx import to_np  # noqa: E402


def A(v):
    import gpmp.num as gnp
    return gnp.asarray(np.array(v, float))


def draw(fn, *a, **k):
    """Call fn with no figure open and return (result, figures)."""
    plt.close("all")
    warnings.simplefilter("ignore")
    with contextlib.redirect_stdout(io.StringIO()):
        r = fn(*a, **k)
    return r, [plt.figure(i) for i in plt.get_fignums()]


def lines(ax):
    return [(np.asarray(ln.get_xdata(), float).reshape(-1), np.asarray(ln.get_ydata(), float).reshape(-1), ln) for ln in ax.lines]


def find(ctx, ax, x, y, msg, rtol=1e-9, atol=1e-10):
    """The lines of the axis that go through exactly the points (x, y)."""
    x, y = np.asarray(x, float).reshape(-1), np.asarray(y, float).reshape(-1)
    hit = [ln for (a, b, ln) in lines(ax) if a.shape == x.shape and np.allclose(a, x, rtol=rtol, atol=atol) and np.allclose(b, y, rtol=rtol, atol=atol, equal_nan=True)]
    ctx.ok(hit, f"{msg}: no curve through {list(zip(x.tolist(), y.tolist()))[:4]}; drawn {[(a.tolist()[:4], b.tolist()[:4]) for a, b, _ in lines(ax)]}")
    return hit


def vline(ctx, ax, x, msg):
    hit = [ln for (a, b, ln) in lines(ax) if a.size == 2 and np.allclose(a, x, rtol=1e-9, atol=1e-10) and sorted(b.tolist()) == [0.0, 1.0]]
    ctx.ok(hit, f"{msg}: no vertical line at {x}")


def unchanged(ctx, a, b, msg):
    ctx.ok(np.array_equal(to_np(a), b, equal_nan=True), f"{msg}: an argument was modified")


# -- distribution of the probability integral transforms ---------------------------
def step_value(ln, t):
    x, y = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
    style = ln.get_drawstyle()
    if style == "steps-post":
        return y[np.where(x <= t)[0].max()]
    if style in ("steps", "steps-pre"):
        return y[np.where(x >= t)[0].min()]
    if style == "steps-mid":
        return y[np.argmin(np.abs(x - t))]
    return float(np.interp(t, x, y))


def case_pit(ctx, vals, form, where):
    from gpmp.modeldiagnosis import plotting
    v = {"flat": lambda: A(vals), "column": lambda: A(vals).reshape(-1, 1), "list": lambda: list(vals), "array": lambda: np.array(vals, float)}[form]()
    box = {}

    def f():
        if where == "new":
            plotting.plot_pit_ecdf(v)
        else:
            box["given"] = plt.figure()
            if where == "older":
                box["other"] = plt.figure()
            plotting.plot_pit_ecdf(v, fig=box["given"])
    _, figs = draw(f)
    ctx.step()
    fig = box.get("given", figs[0])
    ctx.equal(len(figs), {"new": 1, "given": 1, "older": 2}[where], "number of figures")
    ctx.equal(len(fig.axes), 1, "the figure given is drawn in")
    if "other" in box:
        ctx.equal(len(box["other"].axes), 0, "another figure was drawn in")
    ax = fig.axes[0]
    sv = sorted(vals)
    cand = [ln for (a, b, ln) in lines(ax) if a.size >= len(vals) and set(np.round(sv, 12)) <= set(np.round(a, 12)) and ln.get_drawstyle() != "default"]
    ctx.equal(len(cand), 1, "one step curve through the values")
    ln = cand[0]
    edges = sorted(set([0.0] + sv))
    for a, b in zip(edges, edges[1:]):
        t = 0.5 * (a + b)
        ctx.close(step_value(ln, t), sum(x <= t for x in vals) / len(vals), f"distribution at {t}", shape=False)
    ctx.close(max(ln.get_ydata()), 1.0, "the distribution reaches one", shape=False)
    at = np.asarray(ln.get_xdata(), float)[np.asarray(ln.get_ydata(), float) >= 1.0 - 1e-12]
    ctx.close(at.max(), max(sv), "where it reaches one", shape=False)
    find(ctx, ax, [0, 1], [0, 1], "diagonal")
    ctx.state(tuple(vals), where)


# -- criterion sections ---------------------------------------------------------------
def crit_a(p):
    import gpmp.num as gnp
    q = gnp.asarray(p)
    return sum((k + 1.0) * (q[k] - 0.3 * k) ** 2 for k in range(q.shape[0])) + 0.5 * q[0] * q[q.shape[0] - 1]


def crit_b(p):
    import gpmp.num as gnp
    q = gnp.asarray(p)
    return gnp.cos(q[0] * 1.0) + sum((1.0 + k) * q[k] for k in range(q.shape[0]))


def npa(p):
    d = len(p)
    return sum((k + 1.0) * (p[k] - 0.3 * k) ** 2 for k in range(d)) + 0.5 * p[0] * p[-1]


def npb(p):
    return math.cos(p[0]) + sum((1.0 + k) * p[k] for k in range(len(p)))


REFS = {1: [0.4], 2: [0.4, -1.2], 3: [0.4, -1.2, 2.1]}
BOXES = {1: [[-1.0], [2.0]], 2: [[-1.0, -3.0], [2.0, 5.0]], 3: [[-1.0, -3.0, 0.5], [2.0, 5.0, 0.75]]}


def case_section(ctx, d, ind, pooled, box, ncrit, npts, names, src, ints):
    from gpmp.modeldiagnosis import plotting
    ref = [int(round(v)) for v in REFS[d]] if ints else REFS[d]
    arr = gnp_int(ref) if ints else A(ref)
    kw = dict(n_points=npts)
    if src == "info":
        kw["info"] = SimpleNamespace(selection_criterion_nograd=crit_a, covparam=arr)
    elif src == "both":
        kw["info"] = SimpleNamespace(selection_criterion_nograd=crit_b, covparam=A([9.0] * d))
        kw["selection_criterion"], kw["covparam"] = crit_a, arr
    else:
        kw["selection_criterion"], kw["covparam"] = crit_a, arr
    fs, np_fs = [crit_a], [npa]
    if ncrit == 2:
        kw["selection_criteria"] = [crit_b, crit_a]
        np_fs = [npb, npa]
    cnames = None
    if names:
        kw["param_names"] = [f"name{k}" for k in range(d)]
        cnames = [f"crit{k}" for k in range(ncrit)]
        kw["criterion_names"] = cnames
    if ind is not None:
        kw["ind"] = list(ind)
    if pooled is not None:
        kw["ind_pooled"] = list(pooled)
    if box == "box":
        kw["param_box"] = BOXES[d]
        kw["param_box_pooled"] = [[v - 0.25 for v in BOXES[d][0]], [v + 0.5 for v in BOXES[d][1]]]
    elif box == "array":
        kw["param_box"] = A(BOXES[d])
        kw["param_box_pooled"] = A([[v - 0.25 for v in BOXES[d][0]], [v + 0.5 for v in BOXES[d][1]]])
    else:
        kw["delta"] = box
    _, figs = draw(plotting.plot_selection_criterion_crosssections, **kw)
    ctx.step()
    unchanged(ctx, arr, np.array(ref), "reference")
    if ind is None and pooled is None:
        ind = list(range(d))
    ctx.equal(len(figs), (ind is not None) + (pooled is not None), "number of figures")

    def curve(j, k, shift):
        if box in ("box", "array"):
            lo, hi = BOXES[d][0][j] - 0.25 * shift, BOXES[d][1][j] + 0.5 * shift
        else:
            lo, hi = ref[j] - box, ref[j] + box
        g = np.linspace(lo, hi, npts)
        y = []
        for t in g:
            p = [float(v) for v in ref]
            p[j] = t
            y.append(np_fs[k](p))
        return g, y
    if ind is not None:
        axes = figs[0].axes
        ctx.equal(len(axes), len(ind), "number of panels")
        tops = [ax.get_position().y0 for ax in axes]
        ctx.ok(all(a > b for a, b in zip(tops, tops[1:])), "order of the panels")
        for ax, j in zip(axes, ind):
            for k in range(ncrit):
                hit = find(ctx, ax, *curve(j, k, 0), f"section of parameter {j}")
                if names:
                    ctx.ok(any(h.get_label() == cnames[k] for h in hit), f"label of criterion {k}: {[h.get_label() for h in hit]}")
            vline(ctx, ax, ref[j], f"reference of parameter {j}")
            ctx.equal(ax.get_title(), f"name{j}" if names else f"param {j}", "panel title")
    if pooled is not None:
        ax = figs[-1].axes[0]
        for j in pooled:
            for k in range(ncrit):
                hit = find(ctx, ax, *curve(j, k, 1), f"pooled section of parameter {j}")
                nm = f"name{j}" if names else f"param {j}"
                ctx.ok(any(nm in h.get_label() and (not names or cnames[k] in h.get_label()) for h in hit), f"pooled label of parameter {j}: {[h.get_label() for h in hit]}")
            vline(ctx, ax, ref[j], f"pooled reference of parameter {j}")
    ctx.state(d, ind, pooled, str(box), ncrit)


def gnp_int(v):
    import gpmp.num as gnp
    return gnp.asarray(np.array(v, dtype=np.int64))


def case_section_errors(ctx, which):
    from gpmp.modeldiagnosis import plotting
    f = plotting.plot_selection_criterion_crosssections
    kw = {"nothing": {}, "no-ref": dict(selection_criterion=crit_a), "no-crit": dict(covparam=A([0.0])),
          "names": dict(selection_criteria=[crit_a, crit_b], covparam=A([0.0]), criterion_names=["a"], n_points=2)}[which]
    ctx.raises((ValueError, TypeError), lambda: draw(f, **kw), f"{which}")


@contextlib.contextmanager
def contours():
    """Record what is handed to filled and plain contours."""
    got = []
    keep = {n: getattr(matplotlib.axes.Axes, n) for n in ("contourf", "contour")}

    def wrap(n):
        def g(self, *a, **k):
            got.append([np.array(to_np(v), float) for v in a if not np.isscalar(v)])
            return keep[n](self, *a, **k)
        return g
    try:
        for n in keep:
            setattr(matplotlib.axes.Axes, n, wrap(n))
        yield got
    finally:
        for n in keep:
            setattr(matplotlib.axes.Axes, n, keep[n])


def case_2d(ctx, pair, n, factor, shift, ref, has0, ints, entry, names):
    from gpmp.modeldiagnosis import plotting
    opt = [0.5, -0.7, 0.2] if not ints else [1, -1, 2]
    cov0 = [0.1, 0.3, -0.4]
    model = SimpleNamespace(covparam=A([0.45, -0.6, 0.3]) if ref == "own" else A(opt))
    info = SimpleNamespace(selection_criterion_nograd=crit_a, covparam=gnp_int(opt) if ints else A(opt))
    if has0:
        info.covparam0 = A(cov0)
    center = to_np(model.covparam).reshape(-1)
    i, j = pair
    kw = dict(n=n, factor=factor, shift_criterion=shift)
    if entry == "pair":
        kw["param_indices"] = pair
        if names:
            kw["param_names"] = ["first", "second"]
        f = plotting.plot_selection_criterion_2d
    else:
        f = plotting.plot_selection_criterion_sigma_rho
    with contours() as got:
        _, figs = draw(f, model, info, **kw)
    ctx.step(n * n)
    unchanged(ctx, info.covparam, np.array(opt), "selected parameters")
    ctx.equal(len(figs), 1, "number of figures")
    ctx.equal(len(got), 1, "number of contour plots")
    X, Y, Z = got[0]
    ctx.equal(Z.shape, (n, n), "grid")
    X, Y = (X, Y) if X.ndim == 2 else np.meshgrid(X, Y)
    nat = lambda k, v: 0.5 * v / math.log(10) if k == 0 else -v / math.log(10)  # noqa: E731
    back = lambda k, v: 2 * v * math.log(10) if k == 0 else -v * math.log(10)  # noqa: E731
    w = math.log10(factor)
    ctx.close(np.unique(np.round(X, 9)), np.linspace(nat(i, center[i]) - w, nat(i, center[i]) + w, n), "first axis", atol=1e-8)
    ctx.close(np.unique(np.round(Y, 9)), np.linspace(nat(j, center[j]) - w, nat(j, center[j]) + w, n), "second axis", atol=1e-8)
    ctx.equal(len({(round(a, 9), round(b, 9)) for a, b in zip(X.ravel(), Y.ravel())}), n * n, "distinct grid nodes")
    want = np.empty((n, n))
    for a in range(n):
        for b in range(n):
            p = [float(v) for v in opt]
            p[i], p[j] = back(i, X[a, b]), back(j, Y[a, b])
            want[a, b] = npa(p)
    want = np.log10(np.maximum(1e-2, want - (want.min() if shift else 0.0)))
    ctx.close(Z, want, "criterion values", rtol=1e-6, atol=1e-6)
    ax = figs[0].axes[0]
    hit = find(ctx, ax, [nat(i, opt[i])], [nat(j, opt[j])], "selected parameters")
    if has0:
        other = find(ctx, ax, [nat(i, cov0[i])], [nat(j, cov0[j])], "initial parameters")
        ctx.ok(hit[0].get_color() != other[0].get_color(), "markers are distinguishable")
    ctx.equal(len(ax.lines), 1 + has0, "number of markers")
    lab = (ax.get_xlabel(), ax.get_ylabel())
    if entry != "pair":
        ctx.ok("sigma" in lab[0] and "rho" in lab[1], f"axis labels {lab}")
    elif names:
        ctx.equal(lab, ("first", "second"), "axis labels")
    else:
        ctx.ok(str(i) in lab[0] and str(j) in lab[1], f"axis labels {lab}")
    ctx.equal("shifted" in ax.get_title(), bool(shift), "title tells whether values are shifted")
    ctx.state(pair, n, factor, shift, ref, has0, ints)


# -- posterior curves ------------------------------------------------------------------
def shape_as(v, form):
    return {"flat": lambda: np.array(v, float), "column": lambda: np.array(v, float).reshape(-1, 1), "backend": lambda: A(v), "backendcol": lambda: A(v).reshape(-1, 1)}[form]()


def polygons(ax):
    return [(np.asarray(p.get_xy(), float), p) for p in ax.patches if hasattr(p, "get_xy") and np.ndim(p.get_xy()) == 2]


def is_band(xy, x, m, h):
    """The polygon is the band of half-width h about the curve."""
    pts = xy[:-1] if np.allclose(xy[0], xy[-1]) and len(xy) == 2 * len(x) + 1 else xy
    if len(pts) != 2 * len(x):
        return False
    up, lo = pts[: len(x)], pts[len(x):][::-1]
    for a, b in ((up, lo), (lo, up)):
        if np.allclose(a, np.c_[x, m + h], atol=1e-9) and np.allclose(b, np.c_[x, m - h], atol=1e-9):
            return True
    return False


def check_bands(ctx, ax, x, m, v, levels, labels, scheme):
    pol = polygons(ax)
    want = levels if scheme == "default" else levels[:1]
    ctx.equal(len(pol), len(want), "number of intervals")
    x, m, s = np.asarray(x, float), np.asarray(m, float), np.sqrt(np.asarray(v, float))
    order = []
    for k, level in enumerate(want):
        h = norm.ppf((1 + level) / 2) * s
        hit = [i for i, (xy, _) in enumerate(pol) if is_band(xy, x, m, h)]
        ctx.ok(hit, f"interval of level {level} is not drawn: {pol[0][0].tolist()[:4]}")
        if np.any(s > 0):
            order.append(hit[0])
            if labels is not None:
                ctx.equal(pol[hit[0]][1].get_label(), labels[k], f"label of level {level}")
    if order and list(want) == sorted(want):
        widest_first = [i for _, i in sorted(zip([-w for w in want], order))]
        zs = [pol[i][1].get_zorder() for i in widest_first]
        ctx.ok(widest_first == sorted(widest_first) or all(a < b for a, b in zip(zs, zs[1:])), "wider intervals are drawn below narrower ones")


XV = {1: [0.3], 2: [0.0, 1.0], 3: [-1.0, 0.25, 2.0]}
MV = {1: [1.5], 2: [0.2, -0.7], 3: [0.0, 3.0, -1.0]}
VV = {1: [0.25], 2: [0.0, 4.0], 3: [1.0, 0.09, 0.0]}


def case_gp(ctx, n, forms, scheme, ci, show):
    from gpmp.plot import Figure
    x, m, v = (shape_as(t[n], f) for t, f in zip((XV, MV, VV), forms))
    keep = [np.array(to_np(t)) for t in (x, m, v)]
    kw = {}
    labels = ["CI 95%", "CI 99%", "CI 99.9%"]
    levels = [0.95, 0.99, 0.999]
    if ci is not None:
        levels = list(ci)
        labels = [f"L{c}" for c in ci]
        kw["ci"], kw["ci_labels"] = list(ci), list(labels)
    kw["show_mean_label"], kw["show_ci_labels"] = show
    box = {}

    def f():
        box["f"] = Figure()
        box["f"].plotgp(x, m, v, colorscheme=scheme, rgb_hue=[10, 20, 30], mean_label="the mean", **kw)
    _, figs = draw(f)
    ctx.step()
    for a, b in zip((x, m, v), keep):
        unchanged(ctx, a, b, "posterior")
    ax = figs[0].axes[0]
    hit = find(ctx, ax, XV[n], MV[n], "mean")
    if show[0]:
        ctx.ok(any(h.get_label() == "the mean" for h in hit), "label of the mean")
    else:
        ctx.ok(all(h.get_label() != "the mean" for h in hit), "hidden label of the mean")
    check_bands(ctx, ax, XV[n], MV[n], VV[n], levels, labels if show[1] else None, scheme)
    if not show[1]:
        ctx.ok(all(p.get_label() not in labels for _, p in polygons(ax)), "hidden labels of the intervals")
    if scheme == "bw":
        s = np.sqrt(VV[n]) * norm.ppf((1 + levels[0]) / 2)
        find(ctx, ax, XV[n], np.array(MV[n]) + s, "upper limit")
        find(ctx, ax, XV[n], np.array(MV[n]) - s, "lower limit")
    ctx.state(n, scheme, ci, show)


def case_grid(ctx, r, c):
    from gpmp.plot import Figure
    box = {}

    def f():
        g = box["g"] = Figure(nrows=r, ncols=c, isinteractive=False, boxoff=bool((r + c) % 2))
        for k in range(1, r * c + 1):
            g.subplot(k)
            g.plot([0.0, k], [k, 2.0 * k])
            g.plotdata(np.array([0.5 * k]), np.array([1.0 * k]))
            g.axhline(3.0 * k)
            g.axvline(0.25 * k)
            g.xylabels(f"x{k}", f"y{k}")
            g.title(f"t{k}")
            g.xlim([-1.0, k + 1.0])
            g.ylim([-2.0, k + 5.0])
            g.legend()
            g.grid()
        g.subplot(1)
        g.xlabel("again")
        box["lim"] = (g.xlim(), g.ylim())
        g.show(grid=True, legend=True, legend_fontsize=6, xlim=[-3.0, 3.0])
    _, figs = draw(f)
    ctx.step(r * c)
    axes = figs[0].axes
    ctx.equal(len(axes), r * c, "panels")
    pos = [(round(a.get_position().y0, 6), round(a.get_position().x0, 6)) for a in axes]
    ctx.equal(pos, sorted(pos, key=lambda p: (-p[0], p[1])), "panels are numbered by rows")
    for k, ax in enumerate(axes, 1):
        find(ctx, ax, [0.0, k], [k, 2.0 * k], "curve")
        ctx.ok(any(h.get_label() == "data" for h in find(ctx, ax, [0.5 * k], [1.0 * k], "data")), "data label")
        vline(ctx, ax, 0.25 * k, "vertical line")
        ctx.ok([1 for a, b, _ in lines(ax) if np.allclose(b, 3.0 * k)], "horizontal line")
        ctx.equal((ax.get_xlabel(), ax.get_ylabel(), ax.get_title()), ("again" if k == 1 else f"x{k}", f"y{k}", f"t{k}"), "labels")
        ctx.close(np.array(ax.get_xlim()), np.array([-3.0, 3.0] if k == 1 else [-1.0, k + 1.0]), "limits")
        ctx.close(np.array(ax.get_ylim()), np.array([-2.0, k + 5.0]), "limits")
        ctx.ok(ax.get_legend() is not None, "legend")
    ctx.close(np.array(box["lim"]), np.array([[-1.0, 2.0], [-2.0, 6.0]]), "limits read back")
    ctx.state(r, c)


# -- prediction cross sections ----------------------------------------------------------
XI = {1: [[0.1], [0.9], [0.4]], 2: [[0.1, 0.6], [0.9, 0.2], [0.4, 0.8]], 3: [[0.1, 0.6, 0.3], [0.9, 0.2, 0.5], [0.4, 0.8, 0.7]]}
XINT = {2: [[0, 1], [1, 0], [2, 2]]}
BX = {1: [[0.0], [1.0]], 2: [[0.0, -1.0], [1.0, 2.0]], 3: [[0.0, -1.0, 0.5], [1.0, 2.0, 0.75]]}
ZI = {"plain": [1.0, -0.5, 2.0], "nan": [float("nan"), 0.5, 2.0], "tie": [1.0, -2.0, -2.0]}


class Stub:
    def __init__(self):
        self.calls = []

    def predict(self, xi, zi, xt):
        self.calls.append((xi, zi, to_np(xt).copy()))
        w = A(np.arange(1, to_np(xt).shape[1] + 1))
        return (xt * w).sum(1) + 0.25, 0.5 * (xt[:, 0] - 0.3) - 0.1


def stub_np(xt):
    w = np.arange(1, xt.shape[1] + 1)
    return (xt * w).sum(1) + 0.25, np.maximum(0.5 * (xt[:, 0] - 0.3) - 0.1, 0.0)


def case_cross(ctx, d, ind_i, ind_dim, nt, show, zkind, zform, ints, boxform):
    from gpmp.plot import crosssections
    X = XINT[d] if ints else XI[d]
    xi = gnp_int(X) if ints else A(X)
    z = ZI[zkind]
    zi = A(z) if zform == "flat" else A(z).reshape(-1, 1)
    box = {"list": lambda: BX[d], "array": lambda: np.array(BX[d])}[boxform]()
    st = Stub()
    fig, figs = draw(crosssections, st, xi, zi, box, ind_i=ind_i, ind_dim=ind_dim, nt=nt, show_data=show)
    ctx.step(len(st.calls))
    unchanged(ctx, xi, np.array(X), "points")
    ctx.equal(len(figs), 1, "number of figures")
    finite = [(v, k) for k, v in enumerate(z) if v == v]
    rows = {"min": [min(finite, key=lambda t: t[0])[1]], "max": [max(finite, key=lambda t: t[0])[1]], None: [min(finite, key=lambda t: t[0])[1]]}[ind_i] if ind_i is None or isinstance(ind_i, str) else ([ind_i] if np.isscalar(ind_i) else list(ind_i))
    dims = list(range(d)) if ind_dim is None else ([ind_dim] if np.isscalar(ind_dim) else list(ind_dim))
    axes = figs[0].axes
    ctx.equal(len(axes), len(rows) * len(dims), "number of panels")
    for xi_, zi_, _ in st.calls:
        ctx.ok(to_np(xi_).shape == (3, d) and np.allclose(to_np(xi_), X) and np.array_equal(to_np(zi_).reshape(-1), z, equal_nan=True), "data handed to the prediction")
    X = np.array(X, float)
    for a, j in enumerate(dims):
        for b, i in enumerate(rows):
            ax = axes[a * len(rows) + b]
            t = np.sort(np.append(np.linspace(BX[d][0][j], BX[d][1][j], nt - 1), X[i, j]))
            xt = np.tile(X[i], (nt, 1))
            xt[:, j] = t
            m, v = stub_np(xt)
            find(ctx, ax, t, m, f"section {i},{j}")
            check_bands(ctx, ax, t, m, v, [0.95, 0.99, 0.999], ["CI 95%", "CI 99%", "CI 99.9%"] if a == b == 0 else None, "default")
            vline(ctx, ax, X[i, j], "anchor line")
            if show:
                find(ctx, ax, X[:, j], z, "observations")
                if z[i] == z[i]:
                    find(ctx, ax, [X[i, j]], [z[i]], "anchor")
            else:
                ctx.ok(not [1 for x_, y_, ln in lines(ax) if ln.get_linestyle() == "None"], "observations are hidden")
            ctx.ok(str(j) in ax.get_xlabel(), "axis label")
    ctx.state(d, str(ind_i), str(ind_dim), nt, show, zkind, zform, ints)


def case_cross_model(ctx, d, i):
    import gpmp as gp
    import gpmp.num as gnp
    from gpmp.plot import crosssections

    def ones(x, param):
        return gnp.ones((x.shape[0], 1))

    def kernel(x, y, covparam, pairwise=False):
        return gp.kernel.maternp_covariance(x, y, 1, covparam, pairwise)
    model = gp.Model(ones, kernel, covparam=A([0.3] + [0.5] * d))
    xi, zi = A(XI[d]), A(ZI["plain"])
    _, figs = draw(crosssections, model, xi, zi, BX[d], ind_i=[i], nt=6)
    ctx.step()
    X = np.array(XI[d])
    for j, ax in enumerate(figs[0].axes):
        t = np.sort(np.append(np.linspace(BX[d][0][j], BX[d][1][j], 5), X[i, j]))
        xt = np.tile(X[i], (6, 1))
        xt[:, j] = t
        m, v = (to_np(u).reshape(-1) for u in model.predict(xi, zi, A(xt)))
        find(ctx, ax, t, m, f"section {i},{j}", rtol=1e-7, atol=1e-8)
        k = int(np.where(np.isclose(t, X[i, j]))[0][0])
        ctx.close(m[k], ZI["plain"][i], "the section interpolates the anchor", shape=False, atol=1e-6)
    ctx.state(d, i)


def case_cross_errors(ctx, which):
    from gpmp.plot import crosssections
    xi, zi, bx = A(XI[2]), A(ZI["plain"]), BX[2]
    a = {"xi": (A([1.0, 2.0, 3.0]), zi, bx), "box": (xi, zi, [[0.0], [1.0]]), "zi": (xi, A([1.0, 2.0]), bx), "zi2": (xi, A([[1.0, 2.0]] * 3), bx),
         "nt": (xi, zi, bx), "word": (xi, zi, bx), "row": (xi, zi, bx), "dim": (xi, zi, bx)}[which]
    kw = {"nt": dict(nt=1), "word": dict(ind_i="best"), "row": dict(ind_i=[3]), "dim": dict(ind_dim=[2])}.get(which, {})
    ctx.raises((ValueError, IndexError), lambda: draw(crosssections, Stub(), *a, **kw), which)


def case_loo(ctx, zi, zm, zv, form):
    from gpmp.plot import plot_loo
    a = [shape_as(v, form) for v in (zi, zm, zv)]
    _, figs = draw(plot_loo, *a)
    ctx.step()
    ctx.equal(len(figs), 1, "number of figures")
    ax = figs[0].axes[0]
    find(ctx, ax, zi, zm, "predictions against observations")
    segs = [s for c in ax.collections if hasattr(c, "get_segments") for s in c.get_segments()]
    ctx.equal(len(segs), len(zi), "number of intervals")
    got = sorted((round(float(s[0][0]), 8), round(float(min(s[:, 1])), 8), round(float(max(s[:, 1])), 8)) for s in map(np.asarray, segs))
    want = sorted((x, m - 1.96 * math.sqrt(v), m + 1.96 * math.sqrt(v)) for x, m, v in zip(zi, zm, zv))
    ctx.close(np.array(got), np.array(want), "intervals", atol=1e-4 * (1 + max(map(abs, zv))))
    diag = [(x, y) for x, y, ln in lines(ax) if x.size == 2 and np.allclose(x, y) and x[0] != x[1]]
    ctx.ok(diag, "diagonal")
    lo, hi = min(diag[0][0]), max(diag[0][0])
    ctx.ok(lo <= min(list(zi) + [w[1] for w in want]) + 1e-9 and hi >= max(list(zi) + [w[2] for w in want]) - 1e-9, "the diagonal spans the data")
    ctx.ok("true" in ax.get_xlabel() and "predicted" in ax.get_ylabel(), "labels")
    ctx.state(tuple(zi), tuple(zm), tuple(zv))


# -- samplers ---------------------------------------------------------------------------
def chain(n_chains, dim, n, burnin):
    import gpmp.num as gnp
    from gpmp.mcmc import mh
    cnt = [0] * n_chains

    def prop(x, c):
        cnt[c] += 1
        k = cnt[c]
        return A([math.sin(3.1 * k * (j + 1) + 7 * c) for j in range(dim)])

    s = mh.MetropolisHastings(lambda x: gnp.asarray(np.array(0.0)), prop, mh.MHOptions(dim=dim, n_chains=n_chains, sliding_rate_width=3))
    with contextlib.redirect_stdout(io.StringIO()):
        s.scheduler(A([[0.1 * c + 0.01 * j for j in range(dim)] for c in range(n_chains)]), n_steps_total=n, burnin_period=burnin)
    return s


def prefix(full, y, least):
    return len(y) >= least and len(y) <= len(full) and np.array_equal(full[: len(y)], y)


def case_traces(ctx, n_chains, dim, n, burnin, idx, rate, arg):
    s = chain(n_chains, dim, n, burnin)
    kw = dict(parameter_indices=idx, show_rate=rate)
    if arg is not None:
        kw["burnin"] = arg
    _, figs = draw(s.plot_chains, **kw)
    ctx.step(n)
    x, r = to_np(s.x), to_np(s.rates)
    axes = figs[0].axes
    which = idx if idx is not None else list(range(dim))
    ctx.equal(len(axes), len(which) + rate, "number of panels")
    b = burnin if arg is None else arg
    for ax, j in zip(axes, which):
        curves = [y for a, y, ln in lines(ax) if not (a.size == 2 and sorted(y.tolist()) == [0.0, 1.0])]
        ctx.equal(len(curves), n_chains, "one trace per chain")
        for c in range(n_chains):
            ctx.ok(any(prefix(x[c, :, j], y, n - 1) for y in curves), f"trace of chain {c}, parameter {j}")
        if b > 0:
            vline(ctx, ax, b, "end of the burn-in")
        else:
            ctx.ok(not [1 for a, y, _ in lines(ax) if sorted(y.tolist()) == [0.0, 1.0] and a[0] == a[-1]], "no burn-in, no line")
        ctx.ok(str(j) in ax.get_ylabel(), "panel label")
    if rate:
        curves = [y for a, y, ln in lines(axes[-1]) if a.size > 2]
        for c in range(n_chains):
            ctx.ok(any(prefix(r[c], y, n - 1) for y in curves), f"acceptance rate of chain {c}")
    ctx.state(n_chains, dim, n, burnin, str(idx), rate, arg)


def hist_values(ax):
    """Heights and edges of the bars drawn, or of a stepped outline."""
    out = []
    for c in ax.containers:
        out.append((np.array([p.get_height() for p in c.patches]), np.array([p.get_x() for p in c.patches] + [c.patches[-1].get_x() + c.patches[-1].get_width()]), f"{c.get_label()} {c.patches[0].get_label()}"))
    return out


def find_hist(ctx, ax, vals, bins, msg):
    h, e = np.histogram(vals, bins=bins, density=True)
    hit = [lab for (a, b, lab) in hist_values(ax) if a.shape == h.shape and np.allclose(a, h, rtol=1e-6, atol=1e-8) and np.allclose(b, e, rtol=1e-6, atol=1e-8)]
    ctx.ok(hit, f"{msg}: histogram not drawn")
    return hit


def find_kde(ctx, ax, vals, msg, rtol=1e-6):
    """A curve of the kernel density estimate of vals over their range."""
    k = gaussian_kde(vals)
    for x, y, ln in lines(ax):
        if x.size > 10 and x.min() <= min(vals) + 1e-9 and x.max() >= max(vals) - 1e-9 and np.allclose(y, k(x), rtol=rtol, atol=1e-8):
            ctx.ok(True, msg)
            return
    ctx.ok(False, f"{msg}: density estimate not drawn")


def case_marginals(ctx, n_chains, dim, n, burnin, idx, smooth, arg):
    s = chain(n_chains, dim, n, burnin)
    kw = dict(parameter_indices=idx, smooth=smooth, bins=4)
    if arg is not None:
        kw["burnin"] = arg
    _, figs = draw(s.plot_empirical_distributions, **kw)
    ctx.step(n)
    x = to_np(s.x)
    b = burnin if arg is None else arg
    which = idx if idx is not None else list(range(dim))
    axes = figs[0].axes
    ctx.equal(len(axes), len(which), "number of panels")
    for ax, j in zip(axes, which):
        for c in range(n_chains):
            if smooth:
                for least in (s.global_iter, x.shape[1]):
                    k = gaussian_kde(x[c, b:least, j])
                    if any(u.size > 10 and np.allclose(y, k(u), rtol=1e-6, atol=1e-8) for u, y, _ in lines(ax)):
                        break
                else:
                    ctx.ok(False, f"density of chain {c}, parameter {j} is not drawn")
                ctx.ok(True, "density")
            else:
                pol = [p for _, p in polygons(ax)]
                ctx.ok(len(pol) == n_chains, "one outline per chain")
                good = False
                for least in (s.global_iter, x.shape[1]):
                    h, e = np.histogram(x[c, b:least, j], bins=4, density=True)
                    good |= any({round(v, 6) for v in h} <= {round(v, 6) for v in p.get_xy()[:, 1]} and {round(v, 6) for v in e} == {round(v, 6) for v in p.get_xy()[:, 0]} for p in pol)
                ctx.ok(good, f"histogram of chain {c}, parameter {j} is not drawn")
        ctx.ok(str(j + 1) in ax.get_xlabel(), "panel label")
    ctx.state(n_chains, dim, n, burnin, str(idx), smooth, arg)


CLOUDS = {"spread": [[0.0, 1.0, 3.0], [0.5, 0.2, -1.0], [0.7, 0.3, 0.5], [0.1, 0.9, 2.5]],
          "const": [[0.0, 1.0, 3.0], [0.5, 1.0, -1.0], [0.7, 1.0, 0.5]],
          "two": [[0.0, 1.0, 3.0], [0.5, 0.2, -1.0]],
          "one": [[0.25, 1.0, 3.0]]}


def case_cloud(ctx, cloud, src, idx, pooled, owner):
    import gpmp.num as gnp
    P = CLOUDS[cloud]
    keep = list(range(len(P)))
    kw = dict(parameter_indices=idx, parameter_indices_pooled=pooled, bins=5)
    if owner == "svgd":
        from gpmp.mcmc import svgd
        if src == "array":
            arg = A(P)
        elif src == "info":
            arg = {"particles_final": A(P), "log_prob_final": A([-1.0] * len(P))}
        elif src == "nolog":
            arg = {"particles_final": A(P)}
        else:
            lp = [-1.0] * len(P)
            lp[0] = {"dead": -math.inf, "nan": math.nan}[src]
            keep = keep[1:]
            arg = {"particles_final": A(P), "log_prob_final": A(lp)}
        r, figs = draw(svgd.plot_svgd_empirical_distributions, arg, **kw)
        ctx.equal(set(r), {"individual", "pooled"}, "returned figures")
        ctx.ok((r["individual"] is None) == (idx is None) and (r["pooled"] is None) == (pooled is None), "returned figures")
        fi, fp = r["individual"], r["pooled"]
    else:
        from gpmp.mcmc import smc
        s = smc.SMC([[0.0] * 3, [1.0] * 3], n=len(P))
        s.particles.x = A(P)
        _, figs = draw(s.plot_empirical_distributions, **kw)
        fi, fp = (figs[0] if idx is not None else None), (figs[-1] if pooled is not None else None)
    ctx.step()
    ctx.equal(len(figs), (idx is not None) + (pooled is not None), "number of figures")
    V = np.array(P)[keep]

    def panel(ax, j):
        lab = find_hist(ctx, ax, V[:, j], 5, f"parameter {j}")
        ctx.ok(any(f"{j + 1}" in t for t in lab), f"label of parameter {j}: {lab}")
        if len(keep) > 1 and V[:, j].max() > V[:, j].min():
            find_kde(ctx, ax, V[:, j], f"parameter {j}")
    if idx is not None:
        ctx.equal(len(fi.axes), len(idx), "number of panels")
        for ax, j in zip(fi.axes, idx):
            panel(ax, j)
            ctx.ok(str(j + 1) in ax.get_xlabel(), "panel label")
    if pooled is not None:
        for j in pooled:
            panel(fp.axes[0], j)
        ctx.equal(len(hist_values(fp.axes[0])), len(pooled), "pooled parameters")
    ctx.state(cloud, src, str(idx), str(pooled), owner)


def case_cloud_errors(ctx, which):
    from gpmp.mcmc import svgd
    P = A(CLOUDS["two"])
    a, kw = {"vector": (A([1.0, 2.0]), dict(parameter_indices=[0])), "empty": (A(np.empty((0, 2))), dict(parameter_indices=[0])),
             "dead": ({"particles_final": P, "log_prob_final": A([-math.inf, math.nan])}, dict(parameter_indices=[0])),
             "length": ({"particles_final": P, "log_prob_final": A([0.0])}, dict(parameter_indices=[0])),
             "nokey": ({}, dict(parameter_indices=[0])), "index": (P, dict(parameter_indices=[3])), "neg": (P, dict(parameter_indices=[-1])), "pooled": (P, dict(parameter_indices_pooled=[0, 3]))}[which]
    ctx.raises(ValueError, lambda: draw(svgd.plot_svgd_empirical_distributions, a, **kw), which)


def case_scatter(ctx, cloud, objective, lim):
    from gpmp.mcmc import svgd
    P = np.array(CLOUDS[cloud])[:, :2]
    kw = {}
    if lim:
        kw = dict(xlim=(-2.0, 2.0), ylim=(-1.0, 3.0))
    with contours() as got:
        r, figs = draw(svgd.plot_svgd_particles, A(P), title="cloud", objective=(lambda q: float(q[0]) - 3 * float(q[1]) ** 2) if objective else None, grid_n=4, contour_levels=3, **kw)
    ctx.step()
    ctx.ok(r is figs[0], "returned figure")
    ax = figs[0].axes[0]
    off = [np.asarray(c.get_offsets()) for c in ax.collections if len(np.asarray(c.get_offsets())) == len(P)]
    ctx.ok(any(np.allclose(o, P) for o in off), "particles")
    ctx.equal(ax.get_title(), "cloud", "title")
    ctx.equal(len(got), int(objective), "contours")
    if objective:
        X, Y, Z = got[0][:3]
        ctx.close(Z, X - 3 * Y ** 2, "contour values")
        if lim:
            ctx.close(np.array([X.min(), X.max(), Y.min(), Y.max()]), np.array([-2.0, 2.0, -1.0, 3.0]), "contour domain")
        else:
            ctx.ok(X.min() <= P[:, 0].min() and X.max() >= P[:, 0].max() and Y.min() <= P[:, 1].min() and Y.max() >= P[:, 1].max(), "contour domain covers the particles")
    if lim:
        ctx.close(np.array(ax.get_xlim() + ax.get_ylim()), np.array([-2.0, 2.0, -1.0, 3.0]), "limits")
    ctx.state(cloud, objective, lim)


def case_state(ctx, log):
    from gpmp.mcmc import smc
    s = smc.SMC([[0.0], [1.0]], n=7)
    s.log = [dict(stage=st, target_logpdf_param=t, current_logpdf_param=c, ess=e, acceptation_rate_sequence=list(ar), execution_state="") for st, t, c, e, ar in log]
    _, figs = draw(s.plot_state)
    ctx.step(len(log))
    T, C, E, R, S = [], [], [], [], []
    for st, t, c, e, ar in log:
        for v in list(ar) or [0.0]:
            T.append(t), C.append(c), E.append(e), R.append(v), S.append(st)
    axes = figs[0].axes

    def stairs(y):
        return np.repeat(np.arange(len(y) + 1), 2)[1:-1], np.repeat(y, 2)
    labelled = {ln.get_label(): (ax, ln) for ax in axes for ln in ax.lines}
    for name, y in (("Target logpdf_param", T), ("Current logpdf_param", C), ("ESS", E)):
        x, y = stairs(y)
        ctx.ok(name in labelled, f"{name} is drawn")
        ax, ln = labelled[name]
        ctx.close(np.asarray(ln.get_xdata(), float), x.astype(float), f"{name}: time", atol=1e-12)
        ctx.close(np.asarray(ln.get_ydata(), float), y.astype(float), f"{name}: values")
    ax, ln = labelled["Acceptation Rate"]
    ctx.close(np.asarray(ln.get_ydata(), float), np.array(R, float), "acceptance rates")
    want = [i for i in range(len(S)) if S[i] > (S[i - 1] if i else 0)]
    got = sorted(float(a[0]) for axx in axes for a, b, l2 in lines(axx) if a.size == 2 and a[0] == a[1] and sorted(b.tolist()) == [0.0, 1.0] and not l2.get_label().startswith(("T", "C", "E", "A")))
    ctx.equal(got, [float(w) for w in want], "stage changes")
    ctx.state(log)


def case_nuts(ctx, nw, ns, chains, window, save):
    from gpmp.mcmc import nuts
    g = lambda n, k: np.array([[((i * 7 + c * 3 + k) % 11) / 10.0 for c in range(chains)] for i in range(n)])  # noqa: E731
    eps = np.array([0.5 / (i + 1) for i in range(nw)])
    info = {"warmup_step_size": eps, "warmup_accept_stat": g(nw, 0), "warmup_divergent": g(nw, 5) > 0.8, "accept_stat": g(ns, 2), "divergent": g(ns, 1) > 0.6}
    conv = {k: (A(v) if v.dtype == float else bools(v)) for k, v in info.items()}
    if chains == 1:
        conv = {k: (v if k == "warmup_step_size" else v.reshape(-1)) for k, v in conv.items()}
    d = None
    if save:
        d = os.path.join(ctx.scratch, f"nuts_{ctx.backend}_{os.getpid()}", "sub")
    try:
        r, figs = draw(nuts.plot_nuts_diagnostics, conv, window=window, show=False, save_dir=d)
        ctx.step()
        names = sorted(os.listdir(d)) if save else []
    finally:
        if save:
            shutil.rmtree(os.path.dirname(d), ignore_errors=True)
    if save:
        ctx.equal(len(names), 5, "saved figures")
    ctx.equal(len(r), 5, "returned figures")
    series = [("warm", "step size", eps), ("warm", "accept", info["warmup_accept_stat"].mean(1)), ("warm", "diverg", info["warmup_divergent"].astype(float).mean(1)),
              ("sample", "accept", info["accept_stat"].mean(1)), ("sample", "diverg", info["divergent"].astype(float).mean(1))]
    for part, what, y in series:
        hit = [f for f in r if part in f.axes[0].get_xlabel() and what in f.axes[0].get_ylabel()]
        ctx.equal(len(hit), 1, f"figure of {part} {what}")
        ax = hit[0].axes[0]
        find(ctx, ax, np.arange(len(y)), y, f"{part} {what}")
        if what == "accept":
            if 1 < window <= len(y):
                ma = [np.mean(y[i - window + 1: i + 1]) for i in range(window - 1, len(y))]
                find(ctx, ax, np.arange(window - 1, len(y)), ma, f"{part} moving average")
            else:
                ctx.equal(len(ax.lines), 1, "no moving average")
    ctx.state(nw, ns, chains, window, save)


def bools(v):
    import gpmp.num as gnp
    a = gnp.asarray(np.asarray(v, dtype=bool))
    return a


def subsets(d, k=None):
    return [p for r in range(1, d + 1) for p in itertools.permutations(range(d), r) if k is None or r <= k]


def explore(ctx):
    T = ctx.thorough
    # probability integral transforms
    for n in range(1, 5 if T else 4):
        for vals in itertools.product([0.0, 0.25, 0.6, 1.0], repeat=n):
            k = sum(map(int, (10 * v for v in vals))) + n
            forms = ["flat", "column", "list", "array"] if n <= 2 else [["flat", "column", "list", "array"][k % 4]]
            for f in forms:
                for w in (["new", "given", "older"] if n <= 1 or (f == "flat" and n == 2) else [["new", "older", "given"][k % 3]]):
                    ctx.run(f"pit:{vals}:{f}:{w}", case_pit, vals, f, w)
    # sections of criteria
    for d in (1, 2, 3):
        for ind in [None] + subsets(d):
            for pooled in [None] + (subsets(d) if T or d < 3 else [(0,), (2,), (1, 2), (2, 0)]):
                h = len(str(ind)) + len(str(pooled)) + (sum(ind) if ind else 0) + 2 * (sum(pooled) if pooled else 0)
                boxes = ["box", 1.5] if (ind and not pooled) or (pooled and not ind) else [["box", 0.5, "array"][h % 3]]
                for b in boxes:
                    ctx.run(f"section:{d}:{ind}:{pooled}:{b}", case_section, d, ind, pooled, b, 1 + h % 2, 2 + h % 3, bool(h % 2) if b != 1.5 else not h % 2, ["info", "explicit", "both"][h % 3], h % 5 == 0 or b == 0.5)
    for d, ncrit, npts, names, src, ints, box in itertools.product((1, 2, 3), (1, 2), (2, 5), (False, True), ("info", "explicit", "both"), (False, True), ("box", "array", 5.0)):
        if T or (d + ncrit + npts + names + ints + len(src) + len(str(box))) % 3 == 0:
            ctx.run(f"section2:{d}:{ncrit}:{npts}:{names}:{src}:{ints}:{box}", case_section, d, None if d > 1 else (0,), (d - 1,), box, ncrit, npts, names, src, ints)
    for w in ("nothing", "no-ref", "no-crit", "names"):
        ctx.run(f"section-error:{w}", case_section_errors, w)
    for pair in itertools.permutations(range(3), 2):
        for n, factor, shift, ref, has0, ints in itertools.product((2, 3) + ((5,) if T else ()), (2.0, 4.0), (True, False), ("own", "same"), (True, False), (False, True)):
            if T or (n + int(factor) + shift + (ref == "own") + has0 + 2 * ints + pair[0]) % 2 == 0:
                ctx.run(f"2d:{pair}:{n}:{factor}:{shift}:{ref}:{has0}:{ints}", case_2d, pair, n, factor, shift, ref, has0, ints, "pair", bool((n + shift) % 2))
    for n, shift, ref in itertools.product((2, 4), (True, False), ("own", "same")):
        ctx.run(f"sigma-rho:{n}:{shift}:{ref}", case_2d, (0, 1), n, 3.0, shift, ref, True, False, "wrapper", False)
    # posterior curves
    forms = ["flat", "column", "backend", "backendcol"]
    for n in (1, 2, 3):
        for scheme in ("default", "simple", "bw", "hue"):
            for ci in (None, (0.5,), (0.5, 0.9), (0.9, 0.5), (0.99, 0.2, 0.8)):
                for show in itertools.product((True, False), repeat=2):
                    if ci is not None and scheme == "default" and not show[1] and len(ci) > 3:
                        continue
                    k = n + len(scheme) + (len(ci) if ci else 0) + 2 * show[0] + show[1]
                    f = (forms[k % 4], forms[(k // 2) % 4], forms[(k + 1) % 4])
                    ctx.run(f"gp:{n}:{scheme}:{ci}:{show}:{f}", case_gp, n, f, scheme, ci, show)
    for f in itertools.product(forms, repeat=3):
        ctx.run(f"gp-forms:{f}", case_gp, 3, f, "default", None, (True, True))
    for r, c in itertools.product((1, 2, 3), repeat=2):
        ctx.run(f"grid:{r}:{c}", case_grid, r, c)
    # prediction sections
    for d in (1, 2, 3):
        rows = [None, "min", "max", 0, 2, (1,), (0, 2), (2, 1, 0)]
        dims = [None, 0, d - 1] + [p for p in subsets(d) if len(p) > 1]
        for a, (i, j) in enumerate(itertools.product(rows, dims)):
            for z in ("plain", "nan", "tie") if isinstance(i, str) or i is None else ("plain",):
                ints = d == 2 and a % 4 == 0
                ctx.run(f"cross:{d}:{i}:{j}:{z}", case_cross, d, i, j, 2 + a % 4, bool((a + (z == "nan")) % 3), z, ["flat", "column"][a % 2], ints, ["list", "array"][(a // 2) % 2])
        for i in range(3):
            ctx.run(f"cross-model:{d}:{i}", case_cross_model, d, i)
    for nt, show, zf, ints, bf in itertools.product((2, 3, 7), (True, False), ("flat", "column"), (False, True), ("list", "array")):
        ctx.run(f"cross2:{nt}:{show}:{zf}:{ints}:{bf}", case_cross, 2, (0, 1), None, nt, show, "plain", zf, ints, bf)
    for w in ("xi", "box", "zi", "zi2", "nt", "word", "row", "dim"):
        ctx.run(f"cross-error:{w}", case_cross_errors, w)
    for zi in ([1.0, 2.0, -1.0], [0.5, 0.5, 3.0], [4.0]):
        for e in ([0.0, 0.0, 0.0], [0.5, -0.25, 1.0]):
            for v in ([0.25, 1.0, 4.0], [0.0, 0.01, 9.0]):
                for f in ("flat", "backend"):
                    n = len(zi)
                    ctx.run(f"loo:{zi}:{e}:{v}:{f}", case_loo, zi, [a + b for a, b in zip(zi, e)], v[:n], f)
    # samplers
    for nc, dim, b in itertools.product((1, 2), (1, 2, 3), (0, 4)):
        for idx in [None] + [list(p) for p in subsets(dim)]:
            for rate in (True, False):
                for arg in (None, 2):
                    k = nc + dim + b + len(str(idx)) + rate
                    if T or arg is None or k % 2:
                        ctx.run(f"trace:{nc}:{dim}:{b}:{idx}:{rate}:{arg}", case_traces, nc, dim, 9 + k % 3, b, idx, rate, arg)
                        ctx.run(f"marginal:{nc}:{dim}:{b}:{idx}:{rate}:{arg}", case_marginals, nc, dim, 9 + k % 3, b, idx, rate, arg)
    for cloud in CLOUDS:
        for src in ("array", "info", "nolog", "dead", "nan"):
            if cloud == "one" and src in ("dead", "nan"):
                continue
            for a, (idx, pooled) in enumerate([(p, None) for p in subsets(3)] + [(None, p) for p in subsets(3)] + [((0, 2), (1,)), ((1,), (2, 0, 1)), (None, None)]):
                if idx is None and pooled is None and not T:
                    continue
                if T or src == "array" or (a + len(cloud) + len(src)) % 3 == 0:
                    ctx.run(f"cloud:{cloud}:{src}:{idx}:{pooled}", case_cloud, cloud, src, idx, pooled, "svgd")
                if src == "array" and cloud in ("spread", "two"):
                    ctx.run(f"particles:{cloud}:{idx}:{pooled}", case_cloud, cloud, src, idx, pooled, "smc")
        if cloud != "one":
            for o, lim in itertools.product((False, True), repeat=2):
                ctx.run(f"scatter:{cloud}:{o}:{lim}", case_scatter, cloud, o, lim)
    for w in ("vector", "empty", "dead", "length", "nokey", "index", "neg", "pooled"):
        ctx.run(f"cloud-error:{w}", case_cloud_errors, w)
    entries = [(1, 5.0, 1.0, 6.0, (0.5,)), (1, 5.0, 2.0, 4.5, ()), (2, 5.0, 2.5, 7.0, (0.25, 0.75)), (3, 5.0, 5.0, 3.0, (0.1, 0.2, 0.3))]
    for n in range(1, 4 if T else 3):
        for log in itertools.product(entries, repeat=n):
            if all(a[0] <= b[0] for a, b in zip(log, log[1:])):
                ctx.run(f"state:{[entries.index(e) for e in log]}", case_state, list(log))
    ctx.run("state:all", case_state, entries)
    for nw, ns, ch, w in itertools.product((1, 5), (3, 6), (1, 2, 3), (1, 2, 3, 6)):
        ctx.run(f"nuts:{nw}:{ns}:{ch}:{w}", case_nuts, nw, ns, ch, w, (nw, w) == (5, 3))
