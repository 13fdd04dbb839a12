"""Scripted sources of randomness: the numerical layer's draws become inputs."""

import contextlib

import numpy as np


class Exhausted(Exception):
    pass


class Normals:
    """Stream of standard normal draws given as a flat vector (zeros beyond)."""

    def __init__(self, values=None):
        self.values = None if values is None else np.asarray(values, float)
        self.used = 0

    def __call__(self, *shape):
        import gpmp.num as gnp
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        n = int(np.prod(shape)) if shape else 1
        out = np.zeros(n)
        if self.values is not None:
            part = self.values[self.used:self.used + n]
            out[:len(part)] = part
        self.used += n
        return gnp.asarray(out.reshape(shape))


@contextlib.contextmanager
def patched(**fns):
    """Temporarily replace functions of the numerical layer (gpmp.num)."""
    import gpmp.num as gnp
    old = {k: getattr(gnp, k) for k in fns}
    try:
        for k, f in fns.items():
            setattr(gnp, k, f)
        yield
    finally:
        for k, f in old.items():
            setattr(gnp, k, f)


def normal_map(fn):
    """Matrix of the linear map (standard normal draws) -> fn().reshape(-1).

    Returns (A, offset): fn(draws) = offset + A @ draws, recovered exactly by
    running fn once per basis vector.
    """
    from mc.ctx import to_np
    s = Normals()
    with patched(randn=s):
        zero = to_np(fn()).reshape(-1)
    cols = []
    for k in range(s.used):
        e = np.zeros(s.used)
        e[k] = 1.0
        with patched(randn=Normals(e)):
            cols.append(to_np(fn()).reshape(-1) - zero)
    return (np.array(cols).T if cols else np.zeros((zero.size, 0))), zero
