"""Scripted Gaussian generator: the environment of the noise generators.

Every source of Gaussian draws that allantools may use (numpy's legacy
functions, Generator and RandomState objects, the random module) is replaced
by one script z_0, z_1, ...; the explorer chooses the script.  A generator that
is a linear filter of its draws is decided for *every* outcome by running it on
the zero script and on every basis script: `response` returns the matrix L with
output = L z.  Only the law is judged (L L^T), so the order in which an
implementation takes its draws does not matter.
"""
import random
import sys
import types
import numpy as np

REAL = {k: getattr(np.random, k) for k in ("randn", "normal", "standard_normal", "default_rng", "RandomState", "Generator")}
REAL_PY = {k: getattr(random, k) for k in ("gauss", "normalvariate")}


class Script(object):
    def __init__(self, z):
        self.z = z              # callable: index -> value
        self.n = 0

    def take(self, size):
        if size is None or (isinstance(size, tuple) and not size):
            self.n += 1
            if isinstance(self.z, np.ndarray):
                return float(self.z[self.n - 1]) if self.n <= len(self.z) else 0.0
            return float(self.z(self.n - 1))
        shape = tuple(np.empty(size).shape)
        cnt = int(np.prod(shape)) if shape else 1
        if isinstance(self.z, np.ndarray):
            v = self.z[self.n:self.n + cnt].astype(float)
            v = np.concatenate((v, np.zeros(cnt - len(v)))).reshape(shape)
        else:
            v = np.array([float(self.z(self.n + k)) for k in range(cnt)], dtype=float).reshape(shape)
        self.n += cnt
        return v


class FakeGen(object):
    def __init__(self, s, *a, **k):
        self._s = s

    def standard_normal(self, size=None, dtype=float, out=None):
        return self._s.take(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape or None
        return loc + scale * self._s.take(size)

    def randn(self, *dims):
        return self._s.take(None if not dims else tuple(dims))

    def seed(self, *a):
        pass


class scripted(object):
    """with scripted(z) as s: every Gaussian draw is taken from z; s.n counts them."""

    def __init__(self, z):
        self.s = Script(z)

    def __enter__(self):
        s, g = self.s, FakeGen(self.s)
        new = {"randn": g.randn, "normal": g.normal, "standard_normal": g.standard_normal,
               "default_rng": lambda *a, **k: g, "RandomState": lambda *a, **k: g}
        py = {"gauss": lambda mu=0.0, sigma=1.0: mu + sigma * s.take(None),
              "normalvariate": lambda mu=0.0, sigma=1.0: mu + sigma * s.take(None)}
        self.undo = []
        for k, v in new.items():
            self.undo.append((np.random, k, getattr(np.random, k)))
            setattr(np.random, k, v)
        for k, v in py.items():
            self.undo.append((random, k, getattr(random, k)))
            setattr(random, k, v)
        # names imported directly into the modules under test
        table = [(REAL[k], v) for k, v in new.items() if k in REAL] + [(REAL_PY[k], v) for k, v in py.items()]
        for name, mod in list(sys.modules.items()):
            if (name == "allantools" or name.startswith("allantools.")) and isinstance(mod, types.ModuleType):
                for k, v in list(vars(mod).items()):
                    if isinstance(v, (REAL["Generator"], REAL["RandomState"])) and not isinstance(v, type):
                        self.undo.append((mod, k, v))
                        setattr(mod, k, g)
                        continue
                    for old, nv in table:
                        if v is old or (callable(v) and not isinstance(v, type) and v == old):
                            self.undo.append((mod, k, v))
                            setattr(mod, k, nv)
        return s

    def __exit__(self, *a):
        for o, k, v in reversed(self.undo):
            setattr(o, k, v)


def zero(k):
    return 0.0


def basis(j):
    return lambda k: 1.0 if k == j else 0.0


def table(v):
    return lambda k: v[k] if k < len(v) else 0.0


def dense(seed=1):
    """A fixed script of small integers without structure."""
    return lambda k: float(((k + 7) * (k + 3) * 2654435761 * (seed + 1) >> 7) % 13 - 6)


def response(c, f):
    """L with f() = L z for every script z, by running f on every basis script."""
    with scripted(zero) as s:
        c.call()
        y0 = np.array(f(), dtype=float)
    n = s.n
    c.check(np.all(y0 == 0), "the output for all-zero draws is not zero", got=y0)
    L = np.zeros((len(y0), n))
    for j in range(n):
        with scripted(basis(j)) as s:
            c.call()
            y = np.array(f(), dtype=float)
        c.check(y.shape == y0.shape and s.n == n, "length or number of draws depends on the draws")
        L[:, j] = y
    return L


def packed(c, f, width=45):
    """The same matrix for a filter with coefficients 0 and 1: `width` draws of sizes 2^0, 2^1, ... at a time, twice in
    opposite orders; every sum is exact, so that the bits of the output are the coefficients.  Any doubt: response()."""
    with scripted(zero) as s:
        c.call()
        y0 = np.array(f(), dtype=float)
    n = s.n
    c.check(np.all(y0 == 0), "the output for all-zero draws is not zero", got=y0)
    both = []
    for back in (False, True):
        L = np.zeros((len(y0), n))
        for a in range(0, n, width):
            k = np.arange(a, min(a + width, n))
            e = np.arange(len(k))[::-1] if back else np.arange(len(k))
            z = np.zeros(n)
            z[k] = 2.0 ** e
            with scripted(table(z)) as s:
                c.call()
                y = np.array(f(), dtype=float)
            c.check(y.shape == y0.shape and s.n == n, "length or number of draws depends on the draws")
            if not np.all((y >= 0) & (y < 2.0 ** len(k)) & (y == np.floor(y))):
                return response(c, f)
            L[:, k] = (y.astype(np.int64)[:, None] >> e[None, :]) & 1
        both.append(L)
    if not np.array_equal(*both):
        return response(c, f)
    return both[0]


def linear(c, f, L, z, what, rtol=1e-9):
    """f on the script z is L z."""
    with scripted(table(z)) as s:
        c.call()
        y = np.array(f(), dtype=float)
    c.check(s.n == L.shape[1], "%s: number of draws depends on the draws" % what)
    w = L.dot(np.asarray(z, dtype=float)[:L.shape[1]])
    c.close(y, w, "%s: not a linear combination of the draws" % what, rtol=rtol, atol=rtol * float(np.max(np.abs(w)) if len(w) else 0) + 1e-300)


def same_law(c, L, want, what, rtol=1e-9, **info):
    """L L^T = covariance `want`."""
    got = L.dot(L.T)
    s = float(np.max(np.abs(want))) if want.size else 0.0
    # relative to the standard deviations of the two points
    d = np.sqrt(np.abs(np.diag(want)))
    tol = rtol * np.outer(d, d) + 1e-15 * s if want.size else 0.0
    c.compared += int(want.size)
    if got.shape != want.shape:
        c.fail("%s: number of points" % what, got=got.shape, want=want.shape, **info)
    if want.size and not np.all(np.abs(got - want) <= tol):
        c.fail("%s: covariance of the points" % what, got=got, want=want, **info)


def same_draws(c, w, z, used, what, tol=1e-3, **info):
    """The values w are draws of the script, each draw at most once, in any order (signs may all be reversed)."""
    w = np.sort(np.asarray(w, dtype=float))
    pool = np.asarray(z[:used], dtype=float)
    c.check(used >= len(w), "%s: fewer draws than independent values" % what, draws=used, values=len(w), **info)
    best = None
    for a, b in ((w, pool), (w, -pool), (np.abs(w), np.abs(pool))):
        src = np.sort(b)
        a = np.sort(a)
        if len(src) == len(a):
            bad = int(np.sum(np.abs(a - src) > tol))
        else:
            pos = np.clip(np.searchsorted(src, a), 0, len(src) - 1)
            near = np.minimum(np.abs(src[pos] - a), np.abs(src[np.maximum(pos - 1, 0)] - a))
            bad = int(np.sum(near > tol))
        best = bad if best is None else min(best, bad)
    c.compared += len(w)
    c.check(best == 0, "%s: not the documented filter of the draws" % what, wrong=best, got=w[:6], **info)
