"""Bounded family of models, each paired with a plain numpy description."""

import itertools

import numpy as np

from mc import ref


def bk():
    import gpmp.num as gnp
    return gnp


class Spec:
    """A model of the family: gpmp callables + reference callables."""

    def __init__(self, name, d, meantype, mean, rmean, cov, rcov, covparam, meanparam=None, q=0,
                 noise=None):
        self.name = name
        self.d = d
        self.meantype = meantype
        self.mean = mean
        self.rmean = rmean
        self.cov = cov
        self.rcov = rcov
        self.covparam = list(covparam)
        self.meanparam = meanparam
        self.q = q
        self.noise = noise          # None or function(param, points) -> noise variances

    def model(self, covparam=None):
        import gpmp
        gnp = bk()
        cp = self.covparam if covparam is None else covparam
        return gpmp.core.Model(
            self.mean, self.cov,
            None if self.meanparam is None else gnp.asarray(np.array(self.meanparam, float)),
            gnp.asarray(np.array(cp, float)),
            meantype=self.meantype,
        )

    # reference matrices
    def K(self, x, param=None):
        param = self.covparam if param is None else param
        K = self.rcov(x, x, param)
        if self.noise is not None:
            K = K + np.diag(self.noise(param, np.asarray(x, float)))
        return K

    def k(self, x, y, param=None):
        return self.rcov(x, y, self.covparam if param is None else param)

    def P(self, x):
        return self.rmean(np.asarray(x, float), None if self.meanparam is None else np.asarray(self.meanparam, float))

    def ktt(self, xt, param=None):
        """Prior covariance at targets, as the model's covariance defines it."""
        return self.K(xt, param)

    def reference(self, xi, xt):
        """(lambda, posterior covariance) for this model."""
        K, k, ktt = self.K(xi), self.k(xi, xt), self.ktt(xt)
        if self.meantype == "linear_predictor":
            return ref.universal_kriging(K, k, ktt, self.P(xi), self.P(xt))
        return ref.simple_kriging(K, k, ktt)

    def predict(self, xi, zi, xt):
        lam, cov = self.reference(xi, xt)
        z = np.asarray(zi, float)
        if self.meantype == "parameterized":
            m = lam.T @ (z - self.P(xi).reshape(-1)) + self.P(xt).reshape(-1)
        else:
            m = lam.T @ z
        return m, np.diag(cov).copy(), lam, cov


# -- covariances (gpmp side) ------------------------------------------------------
def matern(p):
    def covariance(x, y, covparam, pairwise=False):
        import gpmp
        return gpmp.kernel.maternp_covariance(x, y, p, covparam, pairwise)
    return covariance


def gaussian(x, y, covparam, pairwise=False):
    gnp = bk()
    s2 = gnp.exp(covparam[0])
    invrho = covparam[1:]
    if pairwise:
        if y is None:
            return s2 * gnp.ones((x.shape[0],))
        return s2 * gnp.exp(-0.5 * gnp.scaled_distance_elementwise(invrho, x, y) ** 2)
    D = gnp.scaled_distance(invrho, x, x if (y is None) else y)
    return s2 * gnp.exp(-0.5 * D**2)


def noisy_matern(p):
    """param = [log s2, log noise variance, log 1/rho_j]; noise where y is x / None."""
    def covariance(x, y, covparam, pairwise=False):
        gnp = bk()
        import gpmp
        s2 = gnp.exp(covparam[0])
        nv = gnp.exp(covparam[1])
        invrho = covparam[2:]
        same = y is None or y is x
        if pairwise:
            if same:
                return (s2 + nv) * gnp.ones((x.shape[0],))
            return s2 * gpmp.kernel.maternp_kernel(p, gnp.scaled_distance_elementwise(invrho, x, y))
        K = s2 * gpmp.kernel.maternp_kernel(p, gnp.scaled_distance(invrho, x, x if same else y))
        if same:
            K = K + nv * gnp.eye(K.shape[0])
        return K
    return covariance


def swell(p):
    """Not stationary: a Matern covariance times an amplitude that varies with the input."""
    def covariance(x, y, covparam, pairwise=False):
        gnp = bk()
        import gpmp
        amp = lambda v: 1.3 + gnp.sin(1.7 * gnp.asarray(v)[:, 0])
        K = gpmp.kernel.maternp_covariance(x, y, p, covparam, pairwise)
        a, b = amp(x), amp(x if y is None else y)
        return K * a * b if pairwise else K * a.reshape(-1, 1) * b.reshape(1, -1)
    return covariance


def patchy(p):
    """Noise whose variance varies with the input; parameters as for noisy_matern."""
    plain = noisy_matern(p)

    def covariance(x, y, covparam, pairwise=False):
        gnp = bk()
        same = y is None or y is x
        K = plain(x, y, covparam, pairwise)
        if not same:
            return K
        extra = gnp.exp(covparam[1]) * (0.2 + gnp.cos(2.3 * gnp.asarray(x)[:, 0]))
        return K + extra if pairwise else K + gnp.eye(K.shape[0]) * extra.reshape(-1, 1)
    return covariance


def intrinsic(power):
    """Conditionally positive definite: (-1)^k |h|^power, k = (power+1)/2."""
    sign = -1.0 if power == 1 else 1.0

    def covariance(x, y, covparam, pairwise=False):
        gnp = bk()
        s2 = gnp.exp(covparam[0])
        if pairwise:
            if y is None:
                return 0.0 * s2 * gnp.ones((x.shape[0],))
            return sign * s2 * gnp.scaled_distance_elementwise(covparam[1:], x, y) ** power
        D = gnp.scaled_distance(covparam[1:], x, x if y is None else y)
        return sign * s2 * D**power
    return covariance


def r_intrinsic(power):
    sign = -1.0 if power == 1 else 1.0
    return lambda x, y, c: sign * np.exp(c[0]) * ref.dist(x, y, np.exp(np.asarray(c[1:]))) ** power


# -- means ----------------------------------------------------------------------
def const_mean(x, param):
    return bk().ones((x.shape[0], 1))


def lin_mean(x, param):
    gnp = bk()
    return gnp.hstack((gnp.ones((x.shape[0], 1)), gnp.asarray(x)))


def quad_mean(x, param):
    gnp = bk()
    x = gnp.asarray(x)
    return gnp.hstack((gnp.ones((x.shape[0], 1)), x, x[:, :1] ** 2))


def basis_mean(x, param):
    gnp = bk()
    x = gnp.asarray(x)
    return gnp.hstack((gnp.exp(param[0] * x[:, :1]), gnp.cos(param[1] * x[:, -1:]) + 2.0))


def par_const(x, param):
    return param[0] * bk().ones((x.shape[0], 1))


def par_affine(x, param):
    gnp = bk()
    return param[0] + param[1] * gnp.asarray(x)[:, :1] ** 2


R = {
    "const": lambda x, p: np.ones((len(x), 1)),
    "lin": lambda x, p: np.hstack([np.ones((len(x), 1)), x]),
    "quad": lambda x, p: np.hstack([np.ones((len(x), 1)), x, x[:, :1] ** 2]),
    "basis": lambda x, p: np.hstack([np.exp(p[0] * x[:, :1]), np.cos(p[1] * x[:, -1:]) + 2.0]),
    "par_const": lambda x, p: p[0] * np.ones((len(x), 1)),
    "par_affine": lambda x, p: p[0] + p[1] * x[:, :1] ** 2,
}
M = {"const": const_mean, "lin": lin_mean, "quad": quad_mean, "basis": basis_mean, "par_const": par_const,
     "par_affine": par_affine}

MEANS = [
    # name, meantype, meanparam
    ("zero", "zero", None),
    ("const", "linear_predictor", None),
    ("lin", "linear_predictor", None),
    ("quad", "linear_predictor", None),
    ("basis", "linear_predictor", [-0.5, 1.4]),
    ("par_const", "parameterized", [0.7]),
    ("par_affine", "parameterized", [-0.4, 1.3]),
]


def q_of(mean, d):
    return {"const": 1, "lin": 1 + d, "quad": 2 + d, "basis": 2}.get(mean, 0)


def covparams(kernel, d, variant=0):
    base = {
        0: (0.3, [0.4, -0.2, 0.7, 0.1, 0.0, -0.4, 0.3, 0.5]),
        1: (-1.1, [1.2, 0.5, -0.6, 0.9, 0.2, -0.1, 0.8, 0.4]),
        2: (2.0, [-0.7, -1.0, 0.3, -0.4, -0.2, 0.6, -0.9, 0.1]),
    }[variant]
    inv = base[1][:d]
    if kernel.startswith(("noisy", "patchy")):
        return [base[0], [-1.5, -3.0, 0.2][variant]] + inv
    return [base[0]] + inv


def spec(kernel, mean, d, variant=0):
    mname, mtype, mparam = next(m for m in MEANS if m[0] == mean)
    cp = covparams(kernel, d, variant)
    noise = None
    if kernel.startswith("matern"):
        p = int(kernel[6:])
        cov, rcov = matern(p), ref.matern_cov(p)
    elif kernel.startswith("noisy"):
        p = int(kernel[5:])
        cov = noisy_matern(p)
        rc = ref.matern_cov(p)
        rcov = lambda x, y, c: rc(x, y, [c[0]] + list(c[2:]))
        noise = lambda c, x: np.full(len(x), np.exp(c[1]))
    elif kernel.startswith("swell"):
        p = int(kernel[5:])
        cov = swell(p)
        rc = ref.matern_cov(p)
        amp = lambda x: 1.3 + np.sin(1.7 * np.asarray(x)[:, 0])
        rcov = lambda x, y, c: rc(x, y, c) * amp(x)[:, None] * amp(y)[None, :]
    elif kernel.startswith("patchy"):
        p = int(kernel[6:])
        cov = patchy(p)
        rc = ref.matern_cov(p)
        rcov = lambda x, y, c: rc(x, y, [c[0]] + list(c[2:]))
        noise = lambda c, x: np.exp(c[1]) * (1.2 + np.cos(2.3 * x[:, 0]))
    elif kernel == "gauss":
        cov, rcov = gaussian, ref.gauss_cov
    elif kernel.startswith("intrinsic"):
        pw = int(kernel[9:])
        cov, rcov = intrinsic(pw), r_intrinsic(pw)
    else:
        raise KeyError(kernel)
    return Spec(
        f"{kernel}/{mean}/d{d}/v{variant}", d, mtype,
        None if mean == "zero" else M[mean], None if mean == "zero" else R[mean],
        cov, rcov, cp, mparam, q_of(mean, d), noise,
    )


# -- point sets -------------------------------------------------------------------
def grid(d):
    """A small irregular lattice in dimension d."""
    axes = [[0.0, 0.35, 0.6, 1.0, 1.7], [0.1, 0.8, 1.3], [0.0, 0.5], [-0.4, 0.9]]
    if d == 1:
        pts = [[a] for a in axes[0]]
    else:
        ax = [axes[0][:3]] + axes[1:d]
        pts = [list(t) for t in itertools.product(*ax)]
    return np.array(pts)


def subsets(d, sizes, limit=None):
    g = grid(d)
    out = []
    for n in sizes:
        for c in itertools.combinations(range(len(g)), n):
            out.append((c, g[list(c)]))
    return out if limit is None else out[:limit]


def targets(d):
    base = np.array([[0.2], [0.5], [1.2], [-0.3], [2.4]])
    shift = np.array([0.0, 0.3, -0.15, 0.45])[:d]
    return np.hstack([base] * d) * (1.0 + 0.1 * np.arange(d)) + shift


LARGE = (("matern0", "zero"), ("matern1", "const"), ("noisy1", "lin"), ("matern2", "par_affine"),
         ("noisy0", "quad"), ("intrinsic1", "const"), ("gauss", "par_const"), ("swell1", "const"), ("patchy0", "zero"), ("matern1", "basis"))
SIZES = (13, 16, 17, 31, 32, 33, 50, 64, 65, 100, 101, 128, 129)


def spread(n, d, start=0.5):
    """n evenly spread points at a spacing that does not depend on n."""
    g = 2.0
    for _ in range(60):
        g = (1.0 + g) ** (1.0 / (d + 1))
    a = np.array([g ** -(j + 1) for j in range(d)])
    return ((start + np.outer(np.arange(1, n + 1), a)) % 1.0 - 0.5) * max(1.0, 0.5 * n ** (1.0 / d))


def zvec(n, k=0):
    if n > 12:
        i = np.arange(n)
        return 1.5 * np.sin(1.7 * i + k) + 0.4 * np.cos(0.31 * i * i)
    base = np.array([1.3, -0.7, 2.1, 0.4, -1.9, 0.9, -0.2, 1.1, 0.6, -1.4, 0.05, 2.7])
    return np.roll(base, k)[:n].copy()


def rank_ok(P, q):
    return P.shape[0] >= q and np.linalg.matrix_rank(P) == q and np.linalg.cond(P) < 1e6


def progressions(N, n, steps=(1, 2, 5), starts=None):
    """Subsets of range(N) of size n that are arithmetic progressions modulo N."""
    out = []
    for st in steps:
        for a in range(N) if starts is None else starts:
            c = tuple(sorted({(a + k * st) % N for k in range(n)}))
            if len(c) == n and c not in out:
                out.append(c)
    return out


FORMS = ("int", "int32", "single", "reversed", "strided", "fortran", "locked")


def form(a, kind):
    """The same whole-number values in another kind of plain array."""
    a = np.asarray(a)
    if kind == "int":
        return a.astype(np.int64)
    if kind == "int32":
        return a.astype(np.int32)
    a = a.astype(float)
    if kind == "single":
        return a.astype(np.float32)
    if kind == "reversed":
        return np.flip(np.flip(a).copy())
    if kind == "strided":
        return np.repeat(a, 2, axis=0)[::2]
    if kind == "fortran":
        return np.asfortranarray(a)
    if kind == "locked":
        a = a.copy()
        a.setflags(write=False)
    return a


def given(v, kind):
    """Whole-number parameters the way a user may write them."""
    if kind in ("list", "tuple"):
        return (list if kind == "list" else tuple)(int(c) for c in v)
    if kind == "mixed":
        return [float(c) if k % 2 else int(c) for k, c in enumerate(v)]
    if kind == "own":
        return bk().asarray(np.array(v, int))
    return form(v, kind)


GIVEN = ("list", "tuple", "mixed", "own", "int", "int32", "single", "reversed", "strided", "locked", "float")


def rounded(kernel, mean, d):
    """A model of the family with whole-number parameters."""
    s = spec(kernel, mean, d, 0)
    s.covparam = [float(k % 2 - (k == 2)) for k in range(1, len(s.covparam) + 1)]
    if s.meanparam is not None:
        s.meanparam = [float(k % 3 - 1) + 0.0 for k in range(len(s.meanparam))]
    return s


UNITS = ((1e-9, 1.0), (1e-6, 1e-8), (1e-3, 1e6), (1e3, 1e-6), (1e6, 1e9), (1e9, 1.0), (1.0, 1e-12), (1.0, 1e-6), (1.0, 1e6), (1.0, 1e12))


def in_units(s, u, v):
    """The same model with inputs in units u times larger and outputs sqrt(v) times larger."""
    from copy import copy
    t = copy(s)
    lead = len(s.covparam) - s.d
    t.covparam = [c + np.log(v) for c in s.covparam[:lead]] + [c - np.log(u) for c in s.covparam[lead:]]
    if s.meanparam is not None:
        t.meanparam = [c * np.sqrt(v) for c in s.meanparam]
    t.name = f"{s.name}/u{u:g}/v{v:g}"
    return t


MEASURED = (("matern0", "zero"), ("matern1", "const"), ("noisy1", "const"), ("matern2", "par_const"), ("gauss", "zero"), ("noisy0", "par_const"))


def whole(n, d):
    """n distinct points with whole coordinates."""
    i = np.arange(n)
    return np.stack([(i * (k + 2) + i * i * k) % (2 * n + 3) if k else 2 * i for k in range(d)], axis=1).astype(float)
