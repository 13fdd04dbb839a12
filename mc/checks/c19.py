"""C19 - the numerical layer, function by function, against NumPy/SciPy.

Every shared function is called on every array of a small space (all vectors of
length <= 3 over six values including infinities and not-a-number, matrices
built from them, empty and single-element shapes) with every option it takes in
both backends.  The oracle is NumPy/SciPy itself on the same plain arrays.
"""

import itertools
import math

import numpy as np
import scipy.linalg
import scipy.special
import scipy.stats

from mc.ctx import to_np

VALS = [-1.5, 0.0, 0.25, 2.0, math.inf, math.nan]
FIN = [-1.5, 0.0, 0.25, 2.0]
POS = [0.1, 0.5, 1.0, 3.0]


def G():
    import gpmp.num as gnp
    return gnp


def A(x):
    return G().asarray(np.array(x))


def vectors(vals, nmax, nmin=1):
    for n in range(nmin, nmax + 1):
        yield from (np.array(v) for v in itertools.product(vals, repeat=n))


def matrices(vals, shapes=((2, 2), (2, 3), (3, 1), (1, 1), (1, 3))):
    """matrices filled cyclically from every starting point and stride"""
    for sh in shapes:
        n = sh[0] * sh[1]
        for s in range(len(vals)):
            for stride in (1, 2, 3):
                yield np.array([vals[(s + stride * k) % len(vals)] for k in range(n)]).reshape(sh)


def cubes(vals):
    for s in range(len(vals)):
        yield np.array([vals[(s + k * k) % len(vals)] for k in range(12)]).reshape(2, 3, 2)


def kind(x):
    return to_np(x).dtype.kind if not isinstance(x, (bool, int, float)) else np.asarray(x).dtype.kind


def agree(ctx, got, want, what, rtol=1e-12, atol=1e-13, kinds=True):
    if isinstance(want, tuple) or isinstance(want, list):
        ctx.equal(len(got), len(want), f"{what}: number of results")
        for g, w in zip(got, want):
            agree(ctx, g, w, what, rtol, atol, kinds)
        return
    want = np.asarray(want)
    ctx.close(np.asarray(to_np(got)), want, what, rtol=rtol, atol=atol)
    if kinds:
        k = kind(got)
        ctx.ok(k == want.dtype.kind or (k in "iu" and want.dtype.kind in "iu"), f"{what}: kind {k}, expected {want.dtype.kind}")
        if want.dtype.kind == "f" and hasattr(got, "dtype"):
            ctx.ok("float64" in str(got.dtype), f"{what}: precision {got.dtype}")


def quiet(fn):
    with np.errstate(all="ignore"):
        return fn()


# -- elementwise and reductions -----------------------------------------------------
UNARY = ["isnan", "isinf", "isfinite", "abs", "sqrt", "exp", "log", "log10", "log1p", "sin", "cos", "tan", "tanh", "floor", "ceil"]


def unary(ctx, name, arrays):
    g = G()
    for x in arrays:
        a = A(x)
        want = quiet(lambda: getattr(np, name)(x))
        got = quiet(lambda: getattr(g, name)(a))
        agree(ctx, got, want, f"{name}({x.tolist()})", rtol=1e-11)
        ctx.ok(np.array_equal(to_np(a), x, equal_nan=True), f"{name} changed its argument")
        ctx.step()
    ctx.state(name)


def scalars(ctx, name):
    """elementary functions of plain numbers"""
    g = G()
    for v in (0.25, 1, 2.5, 3):
        got = getattr(g, name)(v)
        ctx.close(np.ravel(to_np(got)), [getattr(np, name)(v)], f"{name}({v})", rtol=1e-12)
        ctx.step()
    ctx.state("scalar", name)


BINARY = ["minimum", "maximum", "logical_and", "logical_or", "isclose"]


def binary(ctx, name, pairs):
    g = G()
    for x, y in pairs:
        want = quiet(lambda: getattr(np, name)(x, y))
        agree(ctx, quiet(lambda: getattr(g, name)(A(x), A(y))), want, f"{name}({x.tolist()}, {y.tolist()})")
        ctx.step()
    ctx.state(name)


REDUCE = {"sum": {}, "prod": {}, "mean": {}, "std": {}, "var": {}, "min": {}, "max": {}, "all": {}, "any": {}, "argmin": {},
          "argmax": {}}


def reduce_(ctx, name, arrays):
    g = G()
    for x in arrays:
        if name in ("argmin", "argmax", "min", "max") and x.size == 0:
            continue
        axes = [None] + list(range(-x.ndim, x.ndim))
        if name in ("min", "max"):
            axes = axes[1:] + ([None] if x.ndim == 1 else [])
        for axis in axes:
            kws = [{}]
            if axis is not None and name not in ("argmin", "argmax", "all", "any", "min", "max", "std", "var"):
                kws.append({"keepdims": True})
            elif axis is not None and name in ("min", "max", "std", "var"):
                kws.append({"keepdims": True})
            if name in ("std", "var"):
                size = x.size if axis is None else x.shape[axis]
                kws += [{"ddof": k} for k in (0, 1, 2, 3) if size > k]
            for kw in kws:
                want = quiet(lambda: getattr(np, name)(x, axis=axis, **kw))
                a = A(x)
                if axis is None:
                    got = getattr(g, name)(a, **kw)
                else:
                    got = getattr(g, name)(a, axis=axis, **kw)
                agree(ctx, got, want, f"{name}({x.tolist()}, axis={axis}, {kw})")
                ctx.step()
    ctx.state(name)


def integers(ctx):
    g = G()
    for v in itertools.product((-2, 0, 3), repeat=3):
        x = np.array(v)
        a = A(x)
        for name in ("sum", "prod", "abs", "min", "max"):
            want = getattr(np, name)(x)
            agree(ctx, getattr(g, name)(a), want, f"{name} of integers {v}")
        agree(ctx, g.sort(a), np.sort(x), "sorted integers")
        agree(ctx, g.cumsum(a, axis=0), np.cumsum(x), "cumulative integers")
        agree(ctx, g.diff(a), np.diff(x), "differences of integers")
        agree(ctx, g.unique(a), np.unique(x), "distinct integers")
        for name in ("exp", "sqrt", "cos"):
            agree(ctx, quiet(lambda: getattr(g, name)(g.abs(a))), getattr(np, name)(np.abs(x)), f"{name} of integers")
        ctx.step()
        ctx.state(v)


def along(ctx, arrays):
    g = G()
    for x in arrays:
        a = A(x)
        for axis in range(-x.ndim, x.ndim):
            agree(ctx, g.sort(a, axis=axis), np.sort(x, axis=axis), f"sort axis {axis}")
            agree(ctx, g.cumsum(a, axis=axis), quiet(lambda: np.cumsum(x, axis=axis)), f"cumsum axis {axis}")
            agree(ctx, g.diff(a, axis=axis), quiet(lambda: np.diff(x, axis=axis)), f"diff axis {axis}")
            ex = g.expand_dims(a, axis)
            agree(ctx, ex, np.expand_dims(x, axis), f"expand axis {axis}")
            ctx.step(4)
        agree(ctx, g.diff(a), quiet(lambda: np.diff(x)), "diff")
        agree(ctx, g.sort(a), np.sort(x), "sort")
        if not np.isnan(x).any():
            agree(ctx, g.unique(a), np.unique(x), "unique")
        for q in (0, 25.0, 50, 73.5, 100):
            if np.isinf(x).any():
                continue
            agree(ctx, g.percentile(a, q), np.percentile(x, q), f"percentile {q}")
            for axis in range(x.ndim):
                agree(ctx, g.percentile(a, q, axis=axis), np.percentile(x, q, axis=axis), f"percentile {q} axis {axis}")
                agree(ctx, g.percentile(a, q, axis=axis, keepdims=True), np.percentile(x, q, axis=axis, keepdims=True), f"percentile {q} axis {axis}")
            ctx.step()
        ctx.state(x)


def selection(ctx, arrays):
    g = G()
    for x in arrays:
        a = A(x)
        agree(ctx, g.where(a > 0, a, -a), np.where(x > 0, x, -x), "where")
        agree(ctx, g.where(a > 0, a, g.zeros_like(a)), np.where(x > 0, x, 0.0), "where")
        agree(ctx, g.logical_not(a > 0), np.logical_not(x > 0), "logical_not")
        for lo, hi in ((-1.0, 1.0), (0.0, None), (None, 0.3), (-2, 2)):
            agree(ctx, g.clip(a, lo, hi), np.clip(x, lo, hi), f"clip {lo} {hi}")
        agree(ctx, g.maximum(a, 0.0), np.maximum(x, 0.0), "maximum with a number")
        agree(ctx, g.minimum(0.5, a), np.minimum(0.5, x), "minimum with a number")
        agree(ctx, g.nan_to_num(a), np.nan_to_num(x), "nan_to_num")
        for nan, up, down in itertools.product((0.0, 3.0), (None, 0.0, 7.0), (None, 0.0, -7.0)):
            kw = dict(nan=nan, posinf=up, neginf=down)
            for y in (x, np.where(x > 0, np.inf, np.where(x < 0, -np.inf, np.nan))):
                agree(ctx, g.nan_to_num(A(y), **kw), np.nan_to_num(y, **kw), f"nan_to_num {kw}")
        ctx.ok(np.array_equal(to_np(a), x, equal_nan=True), "nan_to_num changed its argument")
        agree(ctx, g.inftobigf(a, 10.0), np.where(np.isinf(x), 10.0, x), "inftobigf")
        ctx.equal(bool(np.isfinite(to_np(g.inftobigf(a))).all()), not np.isnan(x).any(), "inftobigf leaves infinities")
        c = g.copy(a)
        if x.size:
            c[(0,) * x.ndim] = 99.0
        ctx.ok(np.array_equal(to_np(a), x, equal_nan=True), "copy shares memory with its source")
        ctx.equal(bool(g.array_equal(a, A(x))), bool(np.array_equal(x, x)), "array_equal")
        ctx.equal(bool(g.allclose(a, A(x))), bool(np.allclose(x, x)), "allclose")
        ctx.equal(bool(g.allclose(a, A(x + 1.0))), bool(np.allclose(x, x + 1.0)), "allclose")
        ctx.step(16)
        ctx.state(x)


# -- shapes -------------------------------------------------------------------------
def shaping(ctx, sh):
    g = G()
    n = int(np.prod(sh))
    x = (np.arange(n) * 1.5 - 2.0).reshape(sh)
    y = -x
    a, b = A(x), A(y)
    for new in {(n,), (n, 1), (1, n), (-1,), (-1, 1)} | ({sh[::-1]} if len(sh) > 1 else set()):
        if n == 0 and -1 in new and len(new) > 1:
            continue
        agree(ctx, g.reshape(a, new), x.reshape(new), f"reshape {sh}->{new}")
    agree(ctx, g.hstack((a, b)), np.hstack((x, y)), "hstack")
    agree(ctx, g.vstack((a, b)), np.vstack((x, y)), "vstack")
    for axis in range(len(sh)):
        agree(ctx, g.concatenate((a, b, a), axis=axis), np.concatenate((x, y, x), axis=axis), "concatenate")
    for axis in range(len(sh) + 1):
        agree(ctx, g.stack((a, b), axis=axis), np.stack((x, y), axis=axis), "stack")
    agree(ctx, g.concatenate((a, b)), np.concatenate((x, y)), "concatenate")
    agree(ctx, g.tile(a, (2,) * len(sh)), np.tile(x, (2,) * len(sh)), "tile")
    agree(ctx, g.tile(a, (2, 1, 3)), np.tile(x, (2, 1, 3)), "tile")
    for i in range(len(sh)):
        for j in range(len(sh)):
            agree(ctx, g.transpose(a, i, j), np.swapaxes(x, i, j), "transpose")
    for name in ("zeros_like", "ones_like"):
        agree(ctx, getattr(g, name)(a), getattr(np, name)(x), name)
    agree(ctx, g.full_like(a, 2.5), np.full_like(x, 2.5), "full_like")
    ctx.equal(tuple(g.empty_like(a).shape), sh, "empty_like")
    agree(ctx, g.zeros(sh), np.zeros(sh), "zeros")
    agree(ctx, g.ones(sh), np.ones(sh), "ones")
    agree(ctx, g.full(sh, 3.5), np.full(sh, 3.5), "full")
    agree(ctx, g.full(sh, 3), np.full(sh, 3.0), "full of a whole number")
    agree(ctx, g.full(sh, 3, dtype=int), np.full(sh, 3), "full of integers")
    agree(ctx, g.full(sh, True, dtype=bool), np.full(sh, True), "full of booleans")
    ctx.equal(tuple(g.empty(sh).shape), sh, "empty")
    if len(sh) == 1 and n:
        agree(ctx, g.diag(a), np.diag(x), "diag of a vector")
        agree(ctx, g.inner(a, b), np.inner(x, y), "inner")
        agree(ctx, g.meshgrid(a, b, indexing="ij"), np.meshgrid(x, y, indexing="ij"), "meshgrid")
    if len(sh) == 2 and sh[0] == sh[1] and n:
        agree(ctx, g.diag(a), np.diag(x), "diag of a matrix")
        agree(ctx, g.trace(a), np.trace(x), "trace")
    # partitions by boundary indices (NumPy convention) whose sum differs from the length
    m = sh[0]
    for k in (1, 2):
        for cut in itertools.combinations(range(1, m), k):
            if builtins_sum(cut) == m:
                continue
            agree(ctx, list(g.split(a, list(cut))), np.split(x, list(cut)), f"split at {cut}")
    ctx.step(30)
    ctx.state(sh)


def builtins_sum(c):
    t = 0
    for v in c:
        t += v
    return t


def creation(ctx):
    g = G()
    for n in range(0, 5):
        agree(ctx, g.arange(n), np.arange(n), "arange")
        agree(ctx, g.eye(n), np.eye(n), "eye")
        agree(ctx, g.arange(1, n + 1), np.arange(1, n + 1), "arange")
        for m in range(1, 4):
            agree(ctx, g.eye(n, m), np.eye(n, m), "rectangular eye")
        if n:
            agree(ctx, g.linspace(-1.0, 2.0, n), np.linspace(-1.0, 2.0, n), "linspace")
            agree(ctx, g.logspace(-1.0, 2.0, n), np.logspace(-1.0, 2.0, n), "logspace", rtol=1e-12)
        ctx.step(6)
    agree(ctx, g.arange(0.0, 1.0, 0.25), np.arange(0.0, 1.0, 0.25), "arange")
    ctx.close([g.pi, g.inf, g.eps], [math.pi, math.inf, np.finfo(float).eps], "constants")
    ctx.ok(np.isnan(g.nan) and g.fmax == np.finfo(float).max, "constants")
    ctx.ok(float(g.safe_inf()) == math.inf and float(g.safe_neginf()) == -math.inf, "infinities")
    ctx.state("creation")


def conversion(ctx, sh):
    """plain arrays, lists, integers and booleans to the layer and back"""
    g = G()
    n = int(np.prod(sh))
    x = (np.arange(n) - 1.5).reshape(sh)
    locked = x.copy()
    locked.setflags(write=False)
    wide = np.repeat(x, 2, axis=0) if sh else x
    views = [x[::-1], x.T, wide[::2], np.flip(x)] if sh else []
    for src in [x, x.tolist(), x.astype(np.float32), x.astype(int), x > 0, locked, np.asfortranarray(x)] + views:
        for fn in (g.asarray, g.array):
            a = fn(src)
            ctx.ok(bool(g.isarray(a)), "not an array of the layer")
            want = np.asarray(src)
            want = want.astype(float) if want.dtype.kind == "f" else want
            agree(ctx, a, want, "conversion")
            back = g.to_np(a)
            ctx.ok(isinstance(back, np.ndarray), "to_np does not return a plain array")
            ctx.close(back, want, "round trip", rtol=0, atol=0)
            agree(ctx, g.asarray(a), want, "conversion of a converted array")
            agree(ctx, g.asdouble(src), np.asarray(src, float), "asdouble")
            ctx.ok("float64" in str(g.asdouble(src).dtype), "asdouble precision")
            if want.dtype.kind == "f" and n:
                agree(ctx, g.asint(src), np.asarray(src).astype(int), "asint")
            agree(ctx, fn(src, dtype=float), np.asarray(src, float), "conversion with a dtype")
            if isinstance(src, np.ndarray) and src.dtype == float:
                agree(ctx, g.exp(src), np.exp(src), "function of a plain array", rtol=1e-12)
            if want.dtype.kind in "ib":
                agree(ctx, fn(src, dtype=int), np.asarray(src).astype(int), "conversion with a dtype")
            ctx.step(7)
    ctx.ok(not g.isarray([1.0]) and not g.isarray(1.0), "lists and numbers are not arrays")
    ctx.state(sh)


def numbers(ctx):
    g = G()
    for v in (2.5, -1.0, 3, True, np.float64(0.5), math.inf):
        ctx.equal(g.to_scalar(v), v, "to_scalar of a number")
    for v in (2.5, -1.0, math.inf):
        ctx.equal(g.to_scalar(A([v])), v, "to_scalar of an array")
        ctx.equal(g.to_scalar(g.sum(A([v, 0.0]))), v, "to_scalar of a sum")
        ctx.close(np.ravel(to_np(g.asarray(v))), [v], "array of one number")
        ctx.ok(g.isscalar(v), "isscalar")
    ctx.ok(not g.isscalar(A([1.0, 2.0])), "isscalar of an array")
    ctx.state("numbers")


# -- linear algebra -----------------------------------------------------------------
def spd(k, n):
    m = np.array([[math.sin(1.3 * k + 2.1 * i + 0.7 * j * (k + 1)) for j in range(n)] for i in range(n)])
    return m @ m.T + np.eye(n) * (0.3 + 0.2 * k)


def algebra(ctx, k, n):
    g = G()
    S = spd(k, n)
    M = S + np.triu(np.ones((n, n)), 1) * 0.4          # non symmetric, invertible
    B = np.array([[math.cos(1.0 + i + 2 * j) for j in range(2)] for i in range(n)])
    L = np.linalg.cholesky(S)
    s, m, b = A(S), A(M), A(B)
    agree(ctx, g.cholesky(s), L, "cholesky", rtol=1e-10, atol=1e-11)
    agree(ctx, g.inv(m), np.linalg.inv(M), "inv", rtol=1e-9, atol=1e-10)
    agree(ctx, g.cholesky_inv(s), np.linalg.inv(S), "inverse of a covariance", rtol=1e-9, atol=1e-10)
    agree(ctx, g.solve(m, b), np.linalg.solve(M, B), "solve", rtol=1e-9, atol=1e-10)
    agree(ctx, g.solve(s, b, assume_a="pos"), np.linalg.solve(S, B), "solve", rtol=1e-9, atol=1e-10)
    ctx.ok(np.array_equal(to_np(s), S) and np.array_equal(to_np(m), M) and np.array_equal(to_np(b), B), "arguments changed")
    got, fac = g.cholesky_solve(s, b)
    agree(ctx, got, np.linalg.solve(S, B), "cholesky_solve", rtol=1e-9, atol=1e-10)
    agree(ctx, fac, L, "factor of cholesky_solve", rtol=1e-10, atol=1e-11)
    for lower in (False, True):
        T = np.tril(M) if lower else np.triu(M)
        for trans in (0, 1, "N", "T"):
            want = scipy.linalg.solve_triangular(T, B, trans=trans, lower=lower)
            agree(ctx, g.solve_triangular(A(T), b, trans=trans, lower=lower), want, f"triangular {lower} {trans}", rtol=1e-9, atol=1e-10)
            # the other half of the matrix must not matter
            junk = M * 1.0
            agree(ctx, g.solve_triangular(A(junk), b, trans=trans, lower=lower), want, f"triangular part {lower} {trans}", rtol=1e-9, atol=1e-10)
        c = g.cho_factor(s, lower=lower)
        agree(ctx, g.cho_solve(c, b), np.linalg.solve(S, B), "cho_solve", rtol=1e-9, atol=1e-10)
    agree(ctx, g.logdet(s), np.linalg.slogdet(S)[1], "logdet", rtol=1e-9, atol=1e-10)
    agree(ctx, g.cond(s), np.linalg.cond(S), "cond", rtol=1e-7)
    u, sv, vt = g.svd(s, full_matrices=True, hermitian=True)
    agree(ctx, sv, np.linalg.svd(S)[1], "singular values", rtol=1e-9)
    ctx.close(to_np(u) @ np.diag(to_np(sv)) @ to_np(vt), S, "singular value decomposition", rtol=1e-9)
    R = np.array([[math.sin(2.0 + i * i + j) for j in range(max(1, n - 1))] for i in range(n)])
    for mode in ("reduced", "complete"):
        q, r = g.qr(A(R), mode=mode)
        ctx.close(to_np(q) @ to_np(r), R, "QR product", rtol=1e-10, atol=1e-11)
        ctx.close(to_np(q).T @ to_np(q), np.eye(to_np(q).shape[1]), "QR orthogonality", rtol=1e-10, atol=1e-11)
        ctx.equal(to_np(q).shape, np.linalg.qr(R, mode=mode)[0].shape, "QR shape")
    q, r = g.qr(A(R), "complete")
    ctx.equal(to_np(q).shape, (n, n), "QR shape")
    agree(ctx, g.matmul(m, b), M @ B, "matmul", rtol=1e-12)
    agree(ctx, g.einsum("ij,jk->ik", m, b), M @ B, "einsum", rtol=1e-12)
    agree(ctx, g.einsum("ij,ij->i", b, b), (B * B).sum(1), "einsum", rtol=1e-12)
    for axis in (None, 0, 1):
        agree(ctx, g.norm(b, axis=axis), np.linalg.norm(B, axis=axis), f"norm {axis}", rtol=1e-12)
    for ord_ in (1, 2):
        agree(ctx, g.norm(A(B[:, 0]), ord=ord_), np.linalg.norm(B[:, 0], ord=ord_), f"norm of order {ord_}", rtol=1e-12)
    ctx.step(30)
    ctx.state(k, n)


def indefinite(ctx, n):
    """factorisations of matrices that are not positive definite fail"""
    g = G()
    S = spd(1, n)
    S[0, 0] = -1.0
    for fn in (lambda: g.cholesky(A(S)), lambda: g.cholesky_solve(A(S), A(np.ones((n, 1)))), lambda: g.cho_factor(A(S))):
        ctx.raises(Exception, fn, "factorisation of an indefinite matrix")
    ctx.state("indefinite", n)


def covariances(ctx, k, n, d):
    g = G()
    x = np.array([[math.sin(1.0 + k + 3 * i + j * j) for j in range(d)] for i in range(n)])
    a = A(x)
    for kw in ({}, {"bias": True}, {"ddof": 0}, {"ddof": 1}, {"ddof": 2}, {"rowvar": False}, {"rowvar": False, "ddof": 0}):
        rows = n if kw.get("rowvar", True) is False else d
        if (rows < 2 and kw.get("ddof", 1) == 1 and not kw.get("bias")) or (kw.get("ddof") == 2 and x.shape[1] < 3):
            continue
        agree(ctx, g.cov(a, **kw), np.cov(x, **kw), f"cov {kw}", rtol=1e-11)
        ctx.step()
    if n > 1:
        agree(ctx, g.cov(a.T), np.cov(x.T), "cov of the transpose", rtol=1e-11)
        agree(ctx, g.cov(a[:, 0]), np.cov(x[:, 0]), "cov of a vector", rtol=1e-11)
        agree(ctx, g.cov(a[:, 0], a[:, -1]), np.cov(x[:, 0], x[:, -1]), "cov of two vectors", rtol=1e-11)
    ctx.ok(n > 0, "non-empty")
    ctx.state(k, n, d)


# -- distances ------------------------------------------------------------------------
def distances(ctx, k, n, m, d, off=0.0):
    g = G()
    x = np.array([[math.sin(1.0 + k + 3 * i + 2 * j) for j in range(d)] for i in range(n)]) + off
    y = np.array([[math.cos(0.3 + k + 2 * i + j) for j in range(d)] for i in range(m)]) + off
    th = np.array([0.4 * j - 0.3 * k for j in range(d)])
    w = np.exp(th)
    dd = np.sqrt((((x[:, None] - y[None]) * w) ** 2).sum(-1))
    agree(ctx, g.scaled_distance(A(th), A(x), A(y)), dd, "scaled distances", rtol=1e-6, atol=3e-7)
    xa = A(x)
    own = np.sqrt((((x[:, None] - x[None]) * w) ** 2).sum(-1))
    agree(ctx, g.scaled_distance(A(th), xa, xa), own, "scaled distances to itself", rtol=1e-6, atol=3e-7)
    agree(ctx, g.cdist(A(x), A(y)), np.sqrt(((x[:, None] - y[None]) ** 2).sum(-1)), "distances", rtol=1e-6, atol=3e-7)
    agree(ctx, g.scaled_distance_elementwise(A(th), xa, None), np.zeros(n), "own elementwise distances")
    agree(ctx, g.scaled_distance_elementwise(A(th), xa, xa), np.zeros(n), "own elementwise distances")
    if n == m:
        agree(ctx, g.scaled_distance_elementwise(A(th), xa, A(y)), np.diag(dd), "elementwise distances", rtol=1e-9, atol=1e-12)
    ctx.step(5)
    ctx.state(k, n, m, d)


# -- normal laws ----------------------------------------------------------------------
def normal_law(ctx, loc, scale):
    g = G()
    x = np.array([-30.0, -12.0, -8.0, -3.0, -0.5, 0.0, 0.7, 2.0, 5.0, 9.0]) + loc
    a = A(x)
    N = scipy.stats.norm
    calls = [((), {}), ((), {"loc": loc}), ((), {"scale": scale}), ((), {"loc": loc, "scale": scale})]
    for _, kw in calls:
        agree(ctx, g.normal.cdf(a, **kw), N.cdf(x, **kw), f"normal distribution function {kw}", rtol=1e-9, atol=1e-14)
        agree(ctx, g.normal.pdf(a, **kw), N.pdf(x, **kw), f"normal density {kw}", rtol=1e-11, atol=1e-300)
        agree(ctx, g.normal.logpdf(a, **kw), N.logpdf(x, **kw), f"normal log density {kw}", rtol=1e-11)
        agree(ctx, g.normal.logcdf(a, **kw), N.logcdf(x, **kw), f"normal log distribution function {kw}", rtol=1e-8, atol=1e-14)
        ctx.step(4)
    ctx.state(loc, scale)


def mvn(ctx, k, d, mean):
    g = G()
    S = spd(k, d)
    mu = 0.3 if mean == "number" else np.array([0.2 * i - 0.1 for i in range(d)])
    muv = np.full(d, 0.3) if mean == "number" else mu
    P = np.array([[math.sin(i + 2.0 * j + k) for j in range(d)] for i in range(3)])
    law = scipy.stats.multivariate_normal(muv, S)
    m = mu if mean == "number" else A(mu)
    if d > 1:
        agree(ctx, g.multivariate_normal.logpdf(A(P), m, A(S)), law.logpdf(P), "multivariate log density", rtol=1e-9)
        agree(ctx, g.multivariate_normal.logpdf(A(P), cov=A(S)), scipy.stats.multivariate_normal(np.zeros(d), S).logpdf(P), "log density, default mean", rtol=1e-9)
        agree(ctx, g.multivariate_normal.logpdf(A(P[0]), m, A(S)), law.logpdf(P[0]), "log density of one point", rtol=1e-9)
        ctx.raises(Exception, lambda: g.multivariate_normal.logpdf(A(np.ones((2, d + 1))), m, A(S)), "wrong dimension")
        if d == 2:
            agree(ctx, g.multivariate_normal.cdf(A(P), m, A(S)), law.cdf(P), "distribution function", rtol=1e-5, atol=1e-6)
    else:
        v = float(S[0, 0])
        sd = math.sqrt(v)
        pts = P[:, 0]
        for c in (v, A([[v]])):
            agree(ctx, np.ravel(to_np(g.multivariate_normal.logpdf(A(pts)))), scipy.stats.norm.logpdf(pts), "default log density", rtol=1e-11)
            agree(ctx, np.ravel(to_np(g.multivariate_normal.logpdf(A(pts), cov=c))), scipy.stats.norm.logpdf(pts, 0.0, sd), "log density, default mean", rtol=1e-11)
            agree(ctx, np.ravel(to_np(g.multivariate_normal.cdf(A(pts)))), scipy.stats.norm.cdf(pts), "default distribution function", rtol=1e-11)
            agree(ctx, np.ravel(to_np(g.multivariate_normal.logpdf(A(pts), 0.3, c))), scipy.stats.norm.logpdf(pts, 0.3, sd), "log density", rtol=1e-11)
            agree(ctx, np.ravel(to_np(g.multivariate_normal.cdf(A(pts), 0.3, c))), scipy.stats.norm.cdf(pts, 0.3, sd), "distribution function", rtol=1e-11)
    for bad in (np.ones((2, 3)), np.ones(3)):
        ctx.raises(Exception, lambda bb=bad: g.multivariate_normal.rvs(0.0, A(bb), 1), "covariance that is not square")
    ctx.step(4)
    ctx.state(k, d, mean)


def special(ctx):
    g = G()
    x = np.array([0.5, 1.0, 1.5, 2.0, 5.0, 30.0, 171.0])
    agree(ctx, g.gammaln(A(x)), scipy.special.gammaln(x), "log gamma", rtol=1e-12, atol=1e-13)
    for order in itertools.product((0, 1, 3, 6), repeat=3):
        import gpmp.config as C
        C.clear_caches()
        for p in order:
            t = g.compute_gammaln(p)
            ctx.close(to_np(t)[1:], scipy.special.gammaln(np.arange(1, 2 * p + 2)), f"log gamma table {order}", rtol=1e-12, atol=1e-13)
            ctx.step()
    ctx.state("special")


def derivatives(ctx, k):
    g = G()
    c = [0.5, -1.0, 2.0]

    def f(p):
        return g.exp(p[0] * c[0]) + g.sin(p[1]) * p[0] + c[2] * p[1] ** 3 * p[2]

    p = np.array([0.3 * k - 0.5, 0.2 + 0.1 * k, -0.7])
    want = np.array([c[0] * math.exp(c[0] * p[0]) + math.sin(p[1]), math.cos(p[1]) * p[0] + 3 * c[2] * p[1] ** 2 * p[2], c[2] * p[1] ** 3])
    val = math.exp(c[0] * p[0]) + math.sin(p[1]) * p[0] + c[2] * p[1] ** 3 * p[2]
    a = A(p)
    ctx.close(g.grad(f)(a), want, "gradient", rtol=1e-6, atol=1e-7)
    y, gr = g.value_and_grad(f, a)
    ctx.close(np.ravel(to_np(y)), [val], "value", rtol=1e-12)
    ctx.close(gr, want, "gradient with the value", rtol=1e-6, atol=1e-7)
    y, gr = g.value_and_grad(lambda q: g.reshape(f(q), (1,)), a)
    ctx.close([float(to_np(y))], [val], "value of a one-element result", rtol=1e-12)
    ctx.close(gr, want, "gradient of a one-element result", rtol=1e-6, atol=1e-7)
    ctx.raises(ValueError, lambda: g.value_and_grad(lambda q: q * 2.0, a), "vector-valued function")
    ctx.ok(np.array_equal(to_np(a), p), "argument changed")
    d = g.derivative_finite_diff(lambda t: t ** 3, 0.5 + k, 1e-3)
    ctx.close(float(d), 3 * (0.5 + k) ** 2, "finite differences", rtol=1e-9)
    if ctx.backend == "torch":
        h = g.SecondOrderDifferentiableFunction(f)
        ctx.raises(RuntimeError, lambda: h.gradient(), "gradient before evaluation")
        ctx.close(float(h.evaluate(a)), val, "value", rtol=1e-12)
        ctx.raises(RuntimeError, lambda: h.hessian(), "second derivatives before the gradient")
        ctx.close(h.gradient(), want, "gradient", rtol=1e-10)
        H = np.zeros((3, 3))
        H[0, 0] = c[0] ** 2 * math.exp(c[0] * p[0])
        H[0, 1] = H[1, 0] = math.cos(p[1])
        H[1, 1] = -math.sin(p[1]) * p[0] + 6 * c[2] * p[1] * p[2]
        H[1, 2] = H[2, 1] = 3 * c[2] * p[1] ** 2
        ctx.close(h.hessian(), H, "second derivatives", rtol=1e-9, atol=1e-10)
    ctx.step(6)
    ctx.state(k)


def explore(ctx):
    nv = 3
    vecs = list(vectors(VALS, nv))
    if ctx.thorough:
        vecs += list(vectors(VALS, 4, 4))
    mats = list(matrices(VALS)) + list(cubes(VALS)) + [np.zeros((0,)), np.zeros((0, 3))]
    groups = [vecs[i::8] for i in range(8)]
    for name in UNARY:
        for i, grp in enumerate(groups):
            ctx.run(f"unary:{name}:{i}", unary, name, grp)
        ctx.run(f"unary:{name}:matrices", unary, name, mats)
    for name in ("sqrt", "exp", "log", "log10", "log1p", "sin", "cos", "tan", "tanh"):
        ctx.run(f"scalar:{name}", scalars, name)
    two = list(vectors(VALS, 2))
    for name in BINARY:
        pairs = [(x, y) for x in two for y in two if x.shape == y.shape]
        for i in range(4):
            ctx.run(f"binary:{name}:{i}", binary, name, pairs[i::4])
        ctx.run(f"binary:{name}:broadcast", binary, name, [(x, np.array([v] * x.shape[-1])) for x in mats if x.ndim == 2 for v in VALS])
    for name in REDUCE:
        for i, grp in enumerate(groups):
            ctx.run(f"reduce:{name}:{i}", reduce_, name, grp)
        ctx.run(f"reduce:{name}:matrices", reduce_, name, [m for m in mats if m.size])
    for name in ("sum", "prod"):
        ctx.run(f"reduce:{name}:empty", reduce_, name, [m for m in mats if m.size == 0])
    # long arrays, elongated matrices, other magnitudes
    long = [np.sin(1.7 * np.arange(1.0, 1 + int(np.prod(sh))) ** 1.1).reshape(sh) * c
            for sh, c in (((17,), 1.0), ((33,), 3.0), ((64,), 1.0), ((129,), 0.5), ((1025,), 1.0), ((40, 7), 2.0), ((7, 130), 1.0), ((6, 5, 11), 1.0),
                          ((20,), 1e-8), ((20,), 30.0))]
    for name in UNARY:
        ctx.run(f"unary:{name}:long", unary, name, long)
    for name in BINARY:
        ctx.run(f"binary:{name}:long", binary, name, [(x, x[::-1] * 0.7) for x in long] + [(x, x[:1] + 0.2) for x in long if x.ndim > 1])
    for name in REDUCE:
        ctx.run(f"reduce:{name}:long", reduce_, name, long)
    ctx.run("along:long", along, long)
    ctx.run("select:long", selection, long)
    for n in (9, 16, 33, 64, 100):
        ctx.run(f"algebra:0:{n}", algebra, 0, n)
    for n, d in ((20, 4), (100, 8), (257, 3)):
        ctx.run(f"cov:0:{n}:{d}", covariances, 0, n, d)
    for n, m, d in ((17, 33, 5), (64, 64, 8), (130, 20, 4), (1, 257, 6)):
        for off in (0.0, 50.0, -1e4):
            ctx.run(f"dist:0:{n}:{m}:{d}:{off}", distances, 0, n, m, d, off)
    for d in (4, 6, 9):
        ctx.run(f"mvn:0:{d}:vector", mvn, 0, d, "vector")
    ctx.run("integers", integers)
    for i, grp in enumerate(groups):
        ctx.run(f"along:{i}", along, grp)
        ctx.run(f"select:{i}", selection, grp)
    ctx.run("along:matrices", along, [m for m in mats if m.size])
    ctx.run("select:matrices", selection, mats)
    for sh in [(0,), (1,), (2,), (3,), (5,), (1, 1), (1, 3), (3, 1), (2, 3), (3, 3), (0, 2), (2, 1, 2), (2, 3, 2)]:
        if 0 not in sh:
            ctx.run(f"shape:{sh}", shaping, sh)
        ctx.run(f"convert:{sh}", conversion, sh)
    ctx.run("creation", creation)
    ctx.run("numbers", numbers)
    for k in range(12 if ctx.thorough else 5):
        for n in (1, 2, 3, 4) + ((6, 9) if ctx.thorough else ()):
            ctx.run(f"algebra:{k}:{n}", algebra, k, n)
    for n in (1, 2, 3):
        ctx.run(f"indefinite:{n}", indefinite, n)
    for k in range(3):
        for n in (1, 2, 3, 5):
            for d in (1, 2, 3):
                ctx.run(f"cov:{k}:{n}:{d}", covariances, k, n, d)
        for n in (1, 2, 3):
            for m in (1, 2, 3):
                for d in (1, 2, 3):
                    ctx.run(f"dist:{k}:{n}:{m}:{d}", distances, k, n, m, d)
    for loc in (0.0, -1.5, 4.0):
        for scale in (0.2, 1.0, 3.0):
            ctx.run(f"normal:{loc}:{scale}", normal_law, loc, scale)
    for k in range(3):
        for d in (1, 2, 3):
            for mean in ("number", "vector"):
                ctx.run(f"mvn:{k}:{d}:{mean}", mvn, k, d, mean)
    ctx.run("special", special)
    for k in range(4):
        ctx.run(f"grad:{k}", derivatives, k)
