"""Case bookkeeping shared by all checks.

A *case* is one point of the bounded space: a key (stable, printable), a
function executed on the real code, and the comparisons made in it.  Every
failed comparison and every exception that escapes a case is a violation; the
key is what a replay needs.
"""

import contextlib
import hashlib
import io
import json
import signal
import time
import traceback

import numpy as np


class CaseTimeout(BaseException):
    pass


class Stop(Exception):
    """Raised to end a case after its first failed comparison."""


class Ctx:
    def __init__(self, spec):
        self.spec = spec
        self.property = spec["property"]
        self.backend = spec["backend"]
        self.tier = spec["tier"]
        self.seed = spec["seed"]
        self.scratch = spec["scratch"]
        self.thorough = self.tier == "thorough"
        self.violations = []
        self.errors = []
        self.counts = {}
        self.samples = []
        self.distinct = set()
        self._key = None
        self._n = 0
        self._failed = 0

    # -- bookkeeping ------------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def step(self, n=1):
        """One transition (one call of the code under test in a history)."""
        self.count("transitions", n)

    def state(self, *obj):
        """Record a distinct explored state / non-trivial outcome."""
        self.distinct.add(digest(obj))

    def run(self, key, fn, *args, **kw):
        """Execute one case (if it belongs to this shard / replay)."""
        only = self.spec.get("only")
        if only is not None:
            if key != only:
                return
        else:
            idx = self._n
            self._n += 1
            if idx % self.spec["shards"] != self.spec["shard"]:
                return
        if self._failed >= 200:
            return
        self._key = key
        self.count("cases")
        if len(self.samples) < 3:
            self.samples.append({"backend": self.backend, "case": key})
        before = self.counts.get("comparisons", 0)
        sink = io.StringIO()
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(int(self.spec["case_timeout"]))
        try:
            with contextlib.redirect_stdout(sink):
                fn(self, *args, **kw)
        except Stop:
            pass
        except CaseTimeout:
            self._violate(
                f"did not finish within {self.spec['case_timeout']} s", traceback.format_exc()
            )
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as exc:
            signal.alarm(0)
            self._violate(f"unexpected {type(exc).__name__}: {exc}", traceback.format_exc())
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        if self.counts.get("comparisons", 0) == before and self._failed == 0:
            self.errors.append(f"vacuous case {key}")
        self._key = None

    def _violate(self, message, detail=""):
        self._failed += 1
        self.violations.append({
            "property": self.property,
            "backend": self.backend,
            "tier": self.tier,
            "key": self._key,
            "message": message,
            "detail": detail[-2500:],
        })

    # -- oracles ----------------------------------------------------------
    def ok(self, cond, message):
        self.count("comparisons")
        if not cond:
            self._violate(message)
            raise Stop()

    def equal(self, a, b, message):
        self.ok(a == b, f"{message}: got {a!r}, expected {b!r}")

    def close(self, got, want, message, rtol=1e-7, atol=1e-9, shape=True):
        self.count("comparisons")
        g = to_np(got)
        w = to_np(want)
        if shape and g.shape != w.shape:
            self._violate(f"{message}: shape {g.shape}, expected {w.shape}")
            raise Stop()
        with np.errstate(all="ignore"):
            good = np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if not good:
            with np.errstate(all="ignore"):
                err = np.max(np.abs(g - w)) if g.shape == w.shape and g.size else float("nan")
            self._violate(
                f"{message}: got {short(g)}, expected {short(w)} (max abs diff {err:.3g})"
            )
            raise Stop()

    def raises(self, excs, fn, message):
        """fn must raise one of excs (any Exception type if excs is Exception)."""
        self.count("comparisons")
        try:
            out = fn()
        except excs:
            return
        except Exception as exc:
            self._violate(f"{message}: raised {type(exc).__name__}: {exc}")
            raise Stop()
        self._violate(f"{message}: no exception, returned {out!r:.200}")
        raise Stop()

    def dump(self, path):
        with open(path, "w") as f:
            json.dump(
                {
                    "violations": self.violations,
                    "errors": self.errors,
                    "counts": self.counts,
                    "samples": self.samples,
                    "distinct": sorted(self.distinct),
                },
                f,
            )


def _alarm(signum, frame):
    raise CaseTimeout()


def digest(obj):
    return hashlib.blake2b(repr(canon(obj)).encode(), digest_size=8).hexdigest()


def canon(obj):
    """Canonical printable form; floats rounded so that states merge."""
    if isinstance(obj, (str, bytes, int, bool, type(None))):
        return obj
    if isinstance(obj, float):
        return f"{obj:.9g}"
    if isinstance(obj, dict):
        return tuple(sorted((canon(k), canon(v)) for k, v in obj.items()))
    if isinstance(obj, (list, tuple)):
        return tuple(canon(o) for o in obj)
    if isinstance(obj, (set, frozenset)):
        return tuple(sorted(repr(canon(o)) for o in obj))
    a = to_np(obj)
    if a.dtype == object:
        return repr(obj)
    return (a.shape, tuple(canon(x) for x in a.reshape(-1).tolist()))


def to_np(x):
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    return np.asarray(x)


def short(a):
    s = np.array2string(np.asarray(a), precision=8, threshold=12, edgeitems=3)
    return " ".join(s.split())[:300]
