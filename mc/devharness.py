"""Harness builders shared by the checks that compare one deviation with its definition."""
import numpy as np
from . import devcheck as dc
from .refs import deck, fdeck


def allm(N):
    return list(range(1, N + 1))


def words(name, nmax, alpha):
    def fn(c):
        N = c.choose("N", range(2, nmax + 1))
        x = c.word("x", alpha, N)
        f = name
        dc.compare(c, f, x, 1.0, "phase", "all", allm(N))
    return fn


def wordsfreq(name, nmax, alpha):
    def fn(c):
        N = c.choose("N", range(2, nmax + 1))
        y = c.word("y", alpha, N)
        dc.compare(c, name, np.array(y, dtype=float), 2.0, "freq", "all", allm(N + 1))
    return fn


def quad(name, nmax):
    """Value on e_i and e_i+e_j for all i<=j: fixes the quadratic form dev^2 for every series of length N."""
    def fn(c):
        N = c.choose("N", range(3, nmax + 1))
        i = c.choose("i", range(N))
        j = c.choose("j", range(i, N))
        x = np.zeros(N)
        x[i] += 1.0
        if j != i:
            x[j] += 1.0
        dc.compare(c, name, x, 1.0, "phase", "all", allm(N))
    return fn


def sizes(name, sizelist, kinds=("white", "walk")):
    def fn(c):
        N = c.choose("N", sizelist)
        if N < 2:
            return
        kind = c.choose("series", list(kinds))
        dt = c.choose("data_type", ["phase", "freq"])
        d = fdeck(kind, N)
        n = N + 1 if dt == "freq" else N
        dc.compare(c, name, d, 1.0, dt, "all", allm(n), atolf=1e-11)
    return fn


def large(name, sizelist, limit=None):
    """Listed lengths x a spread of averaging factors; the longest ones with one series per data type."""
    def fn(c):
        N = c.choose("N", sizelist)
        kind, dt = c.choose("series", [("white", "phase"), ("walk", "phase"), ("walk", "freq")] if N <= 20000 else
                            [("walk", "phase"), ("white", "freq")])
        d = fdeck(kind, N, 5)
        ms = sorted(set([1, 2, 3, 5, 7, 8, 10, 16, 31, 64, 100, 127, 128, 255, 256, 257, 500, 512, 999, 1000, 1023, 1024,
                         4095, 4096, 10000, N // 10, N // 7, N // 5, N // 4, N // 3 - 1, N // 3, N // 2 - 1, N // 2]))
        ms = [m for m in ms if 0 < m < N]
        if N > 200000:
            ms = ms[::3] + [N // 5]
        if limit:
            ms = [m for m in ms if m * N <= limit]
        dc.compare(c, name, d, 1.0, dt, [float(m) for m in ms], ms, atolf=1e-11)
    return fn


def few(name, mlist, span=3, width=5, kinds=("white", "walk"), near=2):
    """Long averaging factors with only a few terms: N = span*m - 1 ... span*m + width."""
    def fn(c):
        m = c.choose("m", mlist)
        N = span * m + c.choose("N-%dm" % span, list(range(-1, width + 1)))
        if N < 2:
            return
        kind = c.choose("series", list(kinds))
        dt = c.choose("data_type", ["phase", "freq"])
        d = fdeck(kind, N, 11)
        ms = [k for k in range(m - near, m + near + 1) if k > 0]
        dc.compare(c, name, d, 2.0, dt, [k / 2.0 for k in ms], ms, atolf=1e-11)
    return fn


def config(name, Ns):
    """Sampling rates x data types x tau requests x scales x offsets x containers, two departures at a time."""
    def fn(c):
        N = c.choose("N", Ns)
        rate = c.choose("rate", dc.RATES, dev=True)
        dt = c.choose("data_type", ["phase", "freq"], dev=True)
        kind = c.choose("series", ["white", "walk", "drift"], dev=True)
        taus = c.choose("taus", ["all", None, "octave", "decade", "list", "array", "single", "unsorted", "wild"], dev=True)
        sc = c.choose("scale", [0, -40, 40, -120, 100], dev=True)
        off = c.choose("offset", [0, 1, 1000000, -250], dev=True)
        box = c.choose("container", ["float", "int", "list", "strided", "reversed", "readonly", "fortran", "tuple", "bigendian", "int16", "int32"], dev=True)
        d = [v + off for v in deck(kind, N)]
        if box in ("int16", "int32") and max(abs(v) for v in d) > 3000:
            return
        if not box.startswith("int"):
            d = [float(v) * 2.0 ** sc for v in d]
        arr = np.array(d)
        if box == "list":
            a = list(d)
        elif box == "tuple":
            a = tuple(d)
        elif box == "bigendian":
            a = arr.astype(">f8")
        elif box in ("int16", "int32"):
            a = arr.astype(box)
        elif box == "strided":
            b = np.empty(2 * N, dtype=arr.dtype)
            b[::2], b[1::2] = arr, 77
            a = b[::2]
        elif box == "reversed":
            a = arr[::-1].copy()[::-1]
        elif box == "readonly":
            a = arr.copy()
            a.flags.writeable = False
        elif box == "fortran":
            a = np.array([arr, arr + 1], order="F")[0]
        else:
            a = arr
        n = N + 1 if dt == "freq" else N
        t = {"list": [m / rate for m in (1, 2, 3, 4, 6, 9)], "array": np.array([m / rate for m in (1, 3, 5, 8)]),
             "single": [2 / rate], "unsorted": [m / rate for m in (5, 1, 4, 4, 2)],
             "wild": [m / rate for m in (0, -1, 3, n, n + 5, 1, 2.3, 3.4)]}.get(taus, taus)
        ms = dc.ms_of_taus(t, rate, n)
        dc.compare(c, name, a, rate, dt, t, ms, atolf=1e-11)
    return fn


def offset(name, Ns, offs):
    """Tiny structure on a huge offset: every step of the computation is exact in binary64, so the small deviation has
    to come out as it does without the offset."""
    def fn(c):
        N = c.choose("N", Ns)
        off = c.choose("offset", offs)
        i = c.choose("i", sorted(set([0, 1, 2, 3, N // 3, N // 2, N - 4, N - 2, N - 1])) if N > 30 else range(N))
        x = np.zeros(N)
        x[i] += 2.0 ** max(c.choose("size", [0, -8, -20, -28]), np.ceil(np.log2(max(abs(off), 1.0))) - 48)
        ms = [m for m in ([1, 2, 3, 4, 5, 8] if N > 30 else range(1, N)) if m < N]
        res = dc.call(c, name, x + off, 1.0, "phase", [float(m) for m in ms])
        dc.compare(c, name, x, 1.0, "phase", None, ms, atolf=1e-14 if name not in SUMS else max(1e-14, 1e-15 * abs(off) / np.max(x) if np.max(x) < 1 else 0), res=res)
    return fn


SUMS = ("mdev", "tdev", "pdev")     # sums of samples: rounding of the size of the offset
