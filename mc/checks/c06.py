"""C06 - laws of unconditional and conditional sample paths, computed exactly.

The normal draws are scripted: running the sampler on every basis vector of the
draws gives the matrix of the linear map, hence the exact law of the output.
"""

import itertools

import numpy as np

from mc import zoo
from mc.ctx import to_np
from mc.scripted import Normals, normal_map, patched
from mc.checks.c01 import well_posed


def unconditional(ctx, s, x, method, nb):
    import gpmp.num as gnp
    model = s.model()
    n = len(x)
    A, zero = normal_map(lambda: model.sample_paths(x, nb, method=method))
    ctx.equal(zero.size, n * nb, "number of values")
    ctx.close(zero, np.zeros(n * nb), "zero draws give the zero path", atol=1e-12)
    law = (A @ A.T).reshape(n, nb, n, nb)
    K = s.K(x)
    scale = 1 + np.abs(K).max()
    for a in range(nb):
        for b in range(nb):
            ctx.close(law[:, a, :, b], K if a == b else np.zeros((n, n)),
                      f"covariance between paths {a} and {b}", rtol=1e-6, atol=1e-6 * scale)
    # linearity on a generic draw
    g = np.sin(1.0 + np.arange(A.shape[1]))
    with patched(randn=Normals(g)):
        out = to_np(model.sample_paths(gnp.asarray(x), nb, method=method))
    ctx.equal(out.shape, (n, nb), "shape of the paths")
    ctx.close(out.reshape(-1), A @ g, "paths are linear in the draws", rtol=1e-8, atol=1e-8)
    ctx.state(s.name, x, method, nb)


def units(ctx, s, u, v, method):
    """Changing the units of inputs and outputs changes the units of the paths only."""
    import gpmp.num as gnp
    x = zoo.spread(7, s.d)
    t = zoo.in_units(s, u, v)
    with patched(randn=Normals(np.eye(7).reshape(-1))):
        A = to_np(t.model().sample_paths(gnp.asarray(x * u), 7, method=method)) / np.sqrt(v)
    ctx.step()
    ctx.close(A @ A.T, s.K(x), "covariance of a path in other units", rtol=1e-6, atol=1e-7)
    ctx.state("units", t.name, method)


def sized(ctx, s, n, nb, method):
    """Larger point sets: two generic draws decide the map up to its scale, columns its law."""
    import gpmp.num as gnp
    x = zoo.spread(n, s.d)
    model = s.model()
    K = s.K(x)
    eye = np.eye(n)
    outs = []
    for a in range(0, n, nb):
        block = np.zeros((n, nb))
        block[:, :min(nb, n - a)] = eye[:, a:a + nb]
        with patched(randn=Normals(block.reshape(-1))):
            out = to_np(model.sample_paths(gnp.asarray(x), nb, method=method))
        ctx.step()
        ctx.equal(out.shape, (n, nb), "shape of the paths")
        outs.append(out[:, :min(nb, n - a)])
    A = np.hstack(outs)
    ctx.close(A @ A.T, K, "covariance of a path", rtol=1e-6, atol=1e-6 * (1 + np.abs(K).max()))
    ctx.state("sized", s.name, n, nb, method)


def singular(ctx, mult):
    """Repeated points: the svd method still has the exact law."""
    s = zoo.spec("gauss", "zero", 1, 0)
    x = np.repeat(zoo.grid(1)[:3], mult, axis=0)
    model = s.model()
    A, _ = normal_map(lambda: model.sample_paths(x, 1, method="svd"))
    ctx.close(A @ A.T, s.K(x), "law with repeated points", rtol=1e-6, atol=1e-6)
    ctx.state("singular", mult)


def bad_method(ctx):
    model = zoo.spec("matern1", "zero", 1).model()
    ctx.raises(ValueError, lambda: model.sample_paths(zoo.grid(1), 2, method="qr"), "unknown method rejected")
    ctx.state("bad")


def kinds(gnp, idx, kind):
    idx = list(idx)
    return {
        "list": idx,
        "np": np.array(idx, dtype=int),
        "backend": gnp.asarray(np.array(idx, dtype=int)),
    }[kind]


def conditional(ctx, s, pts, iobs, itar, kind):
    import gpmp.num as gnp
    model = s.model()
    xi, xt = pts[list(iobs)], pts[list(itar)]
    ni, nt = len(xi), len(xt)
    z = zoo.zvec(ni)
    _, _, lam = model.predict(xi, z, xt, return_lambdas=True)
    want_m, _, _, want_cov = s.predict(xi, z, xt)
    ii, it = kinds(gnp, iobs, kind), kinds(gnp, itar, kind)
    # columns of a square root of the prior covariance as paths, plus a zero path
    K = s.K(pts)
    C = np.linalg.cholesky(K + 1e-12 * np.eye(len(K)))
    paths = np.hstack([np.zeros((len(pts), 1)), C])
    scale = 1 + np.abs(K).max()
    for zz in (z, z.reshape(-1, 1)):
        for cout in (True, False):
            def cond(sim):
                if s.meantype == "parameterized":
                    return model.conditional_sample_paths_parameterized_mean(
                        sim, xi, ii, zz, xt, it, lam, convert_out=cout)
                return model.conditional_sample_paths(sim, ii, zz, it, lam, convert_out=cout)

            out = cond(gnp.asarray(paths))
            ctx.ok(isinstance(out, np.ndarray) if cout else gnp.isarray(out), "output array type")
            out = to_np(out)
            ctx.equal(out.shape, (nt, paths.shape[1]), "shape of the conditioned paths")
            ctx.close(out[:, 0], want_m, "mean of the conditioned paths", rtol=1e-5, atol=1e-5)
            R = out[:, 1:] - out[:, :1]
            ctx.close(R @ R.T, want_cov, "covariance of the conditioned paths", rtol=1e-5, atol=2e-5 * scale)
            one = to_np(cond(gnp.asarray(paths[:, 2:3])))
            ctx.close(one, out[:, 2:3], "a single path is conditioned like in a group", rtol=1e-9, atol=1e-9)
            out2 = to_np(cond(paths))
            ctx.close(out2, out, "plain arrays accepted", rtol=1e-12, atol=1e-12)
    if s.noise is None:
        # every conditioned path passes through the data
        _, _, lam = model.predict(xi, z, xi, return_lambdas=True)
        if s.meantype == "parameterized":
            out = model.conditional_sample_paths_parameterized_mean(paths, xi, ii, z, xi, ii, lam)
        else:
            out = model.conditional_sample_paths(paths, ii, z, ii, lam)
        ctx.close(out, np.tile(z.reshape(-1, 1), (1, paths.shape[1])), "paths interpolate the data",
                  rtol=1e-4, atol=1e-4)
    ctx.state(s.name, pts, iobs, itar, kind)


def end_to_end(ctx, s, pts, iobs, itar, method, nb):
    """sample_paths followed by conditioning: exact posterior law end to end."""
    import gpmp.num as gnp
    model = s.model()
    xi, xt = pts[list(iobs)], pts[list(itar)]
    z = zoo.zvec(len(xi))
    _, _, lam = model.predict(xi, z, xt, return_lambdas=True)

    def run():
        sim = model.sample_paths(pts, nb, method=method)
        if s.meantype == "parameterized":
            return model.conditional_sample_paths_parameterized_mean(sim, xi, np.array(iobs), z, xt, np.array(itar), lam)
        return model.conditional_sample_paths(sim, np.array(iobs), z, np.array(itar), lam)

    A, m = normal_map(run)
    want_m, _, _, want_cov = s.predict(xi, z, xt)
    nt = len(xt)
    m = m.reshape(nt, nb)
    for a in range(nb):
        ctx.close(m[:, a], want_m, "posterior mean", rtol=1e-5, atol=1e-5)
    law = (A @ A.T).reshape(nt, nb, nt, nb)
    for a in range(nb):
        for b in range(nb):
            ctx.close(law[:, a, :, b], want_cov if a == b else np.zeros((nt, nt)), "posterior covariance of paths",
                      rtol=1e-5, atol=2e-5 * (1 + np.abs(s.K(pts)).max()))
    ctx.state("e2e", s.name, iobs, itar, method, nb)


def explore(ctx):
    T = ctx.thorough
    kernels = ("matern0", "matern1", "matern3", "gauss", "noisy1", "swell1", "patchy1")
    for kernel in kernels:
        for d in (1, 2, 3):
            for v in ((0, 1, 2) if T else (0, 1)):
                s = zoo.spec(kernel, "zero", d, v)
                g = zoo.grid(d)
                sets = [c for c, _ in zoo.subsets(1, [1, 2, 3, 4])] if d == 1 else zoo.progressions(len(g), 4, (1, 2)) [:12 if T else 4]
                for c in sets:
                    if not well_posed(s, g[list(c)]):
                        continue
                    for method in ("chol", "svd"):
                        for nb in (1, 2, 3):
                            ctx.run(f"free:{s.name}:{c}:{method}:{nb}", unconditional, s, g[list(c)], method, nb)
    for mult in (1, 2, 3):
        ctx.run(f"singular:{mult}", singular, mult)
    ctx.run("bad", bad_method)
    for kernel in ("matern0", "matern1", "gauss") if not T else ("matern0", "matern1", "matern3", "gauss"):
        for mean, _, _ in zoo.MEANS:
            for d in (1, 2):
                s = zoo.spec(kernel, mean, d, 0)
                pts = zoo.grid(d)[:5]
                if d == 2:
                    pts = zoo.grid(2)[[0, 2, 4, 5, 7, 8]]
                if np.linalg.cond(s.K(pts)) > 1e6:
                    continue
                N = len(pts)
                for ni in (1, 2, 3, 4):
                    for iobs in itertools.permutations(range(N), ni) if (T and ni < 4) else itertools.combinations(range(N), ni):
                        if ni < max(1, s.q) or not well_posed(s, pts[list(iobs)]):
                            continue
                        rest = [j for j in range(N) if j not in iobs]
                        for itar in (tuple(rest), tuple(rest[::-1])):
                            for kind in ("list", "np", "backend"):
                                if not T and kind == "list" and itar != tuple(rest):
                                    continue
                                ctx.run(f"cond:{s.name}:{iobs}:{itar}:{kind}", conditional, s, pts, iobs, itar, kind)
                        if ni in (2, 3):
                            for method in ("chol", "svd"):
                                ctx.run(f"e2e:{s.name}:{iobs}:{method}", end_to_end, s, pts, iobs, tuple(rest), method, 2)
    # larger sets of points and paths
    for kernel in ("matern0", "matern1", "noisy1", "swell1"):
        for d in (1, 3, 6):
            s = zoo.spec(kernel, "zero", d, 1 if d == 1 else 0)
            for n in zoo.SIZES + ((200, 256, 257) if T else ()):
                for nb in (n, 10, 100):
                    for method in ("chol", "svd"):
                        ctx.run(f"size:{s.name}:{n}:{nb}:{method}", sized, s, n, nb, method)
    for kernel, mean in (("matern0", "zero"), ("matern1", "const"), ("matern1", "par_affine"), ("matern0", "lin"), ("matern1", "basis")):
        for d in (1, 4):
            s = zoo.spec(kernel, mean, d, 1 if d == 1 else 0)
            for n in (16, 33, 65, 130):
                pts = zoo.spread(n, d)
                order = [(7 * i + 3) % n for i in range(n)] if n % 7 else list(range(n))[::-1]
                for ni in (13, n // 2) if n > 16 else (9,):
                    for kind in ("list", "np", "backend"):
                        ctx.run(f"csize:{s.name}:{n}:{ni}:{kind}", conditional, s, pts, tuple(order[:ni]), tuple(order[ni:]), kind)
    for kernel, mean in zoo.MEASURED:
        for d in (1, 2, 5):
            for u, v in zoo.UNITS:
                for method in ("chol", "svd"):
                    s = zoo.spec(kernel, mean, d, 1)
                    ctx.run(f"units:{s.name}:{u}:{v}:{method}", units, s, u, v, method)
