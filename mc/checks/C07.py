"""C07: gradev with gaps and its error bars."""
import math
import numpy as np
import allantools as at
from ..engine import Harness
from .. import refs
from ..refs import deck, fdeck

NAN = float("nan")
TYPES = {"wp": 2, "fp": 1, "wf": 0, "ff": -1, "rf": -2, "unknown": None}


def edf_of(N, m, alpha):
    try:
        e = refs.edf_simple(N, m, alpha)
    except (ValueError, ZeroDivisionError):
        return None
    return e if e > 0.05 else None


def check(c, x, rate, taus, ms, ci=None, noise=None, errors=True):
    kw = {}
    if ci is not None:
        kw["ci"] = ci
    if noise is not None:
        kw["noisetype"] = noise
    arr = x if isinstance(x, list) else np.array(x, dtype=float)
    rows = []
    for m in ms:
        r = refs.gradev(x, m, rate)
        if r is not None and r[1] > 1:
            rows.append((m,) + r)
    c.call()
    try:
        if rate != 1.0 or len(arr) % 2:      # half of the calls rely on the default rate
            kw["rate"] = rate
        res = at.gradev(arr, taus=taus, **kw)
    except UserWarning:
        c.check(not rows, "gradev refuses although two terms are present")
        return
    c.check(bool(rows), "gradev: a result although no averaging factor has two terms", res=res)
    m = np.array([r[0] for r in rows], dtype=float)
    c.close(res[0], m / rate, "gradev: taus", rtol=1e-12)
    c.close(res[3], [r[2] for r in rows], "gradev: n", rtol=0)
    dev = np.array([r[1] for r in rows], dtype=float)
    scale = np.nanmax(np.abs(np.array(x, dtype=float)))
    c.close(res[1], dev, "gradev: deviation", rtol=1e-9, atol=1e-12 * scale * rate)
    c.check(len(res[2]) == 2 and len(res[2][0]) == len(rows) == len(res[2][1]), "gradev: two error arrays")
    if errors:
        npres = int(np.sum(~np.isnan(np.array(x, dtype=float))))
        alpha = TYPES.get(noise or "wp")
        for q, (mm, d, n) in enumerate(rows):
            e = edf_of(npres, mm, alpha)
            if e is None:
                continue
            lo, hi = refs.chi2_bounds(d, e, 0.9 if ci is None else ci)
            tol = 1e-9 * float(d) + 1e-9 * hi * (1 if hi < 1e200 else 0)
            c.compared += 2
            gl, gh = float(res[2][0][q]), float(res[2][1][q])
            if not (abs(gl - (float(d) - lo)) <= tol + 1e-12 * scale * rate):
                c.fail("gradev: lower error bar", m=mm, got=gl, want=float(d) - lo, edf=e, n=n)
            if not (abs(gh - (hi - float(d))) <= tol + 1e-12 * scale * rate):
                c.fail("gradev: upper error bar", m=mm, got=gh, want=hi - float(d), edf=e, n=n)
    c.outcome(np.round(dev, 6).tolist(), [r[2] for r in rows])


def patterns(nmax, nmin=3):
    """Every set of missing samples."""
    def fn(c):
        N = c.choose("N", range(nmin, nmax + 1))
        gaps = c.word("missing", [0, 1], N)
        x = [float(v) for v in fdeck("walk", N, 3)]
        x = [NAN if g else v for g, v in zip(gaps, x)]
        if all(gaps):
            return
        check(c, x, 1.0, "all", range(1, N), errors=N <= 9)
    return fn


def words(nmax):
    def fn(c):
        N = c.choose("N", range(3, nmax + 1))
        x = c.word("x", [0.0, 1.0, NAN, -1.0], N)
        if all(math.isnan(v) for v in x):
            return
        check(c, x, 1.0, "all", range(1, N), errors=False)
    return fn


def blocks(ns):
    """One gap at every position and of every length, with and without a second single missing sample."""
    def fn(c):
        N = c.choose("N", ns)
        a = c.choose("start", range(N))
        n = c.choose("length", range(0, N - a))
        b = c.choose("second", [None, 0, N // 3, N - 1])
        x = [float(v) for v in deck("white", N, 3)]
        for k in range(a, a + n):
            x[k] = NAN
        if b is not None:
            x[b] = NAN
        if all(math.isnan(v) for v in x):
            return
        check(c, x, 2.0, "all", range(1, N), errors=False)
    return fn


def sparse(ns):
    """Long records of which only a few clusters are present."""
    def fn(c):
        N = c.choose("N", ns)
        w = c.choose("cluster", [3, 5, 9])
        k = c.choose("clusters", [1, 2, 3])
        d = c.choose("distance", [10, 33, N // 4, N // 3])
        s = c.choose("start", [0, 7])
        noise = c.choose("noise", ["wp", "fp", "wf", "ff", "rf"])
        x = [NAN] * N
        v = fdeck("walk", N, 3)
        for q in range(k):
            for i in range(s + q * d, min(N, s + q * d + w)):
                x[i] = float(v[i])
        ms = sorted(set([1, 2, 3, 4, d - 1, d, d + 1]))
        check(c, x, 1.0, [float(m) for m in ms], [m for m in ms if m < N], noise=noise)
    return fn


def periodic(ns):
    """Every period and phase of regularly missing samples."""
    def fn(c):
        N = c.choose("N", ns)
        p = c.choose("period", [2, 3, 4, 5, 7, 10])
        k = c.choose("phase", range(p))
        inv = c.choose("kept", ["others", "these"])
        x = [float(v) for v in fdeck("walk", N, 5)]
        x = [NAN if ((i % p == k) == (inv == "others")) else v for i, v in enumerate(x)]
        ms = [m for m in range(1, N) if m < 25 or m % 10 < 2]
        check(c, x, 1.0, [float(m) for m in ms], ms, errors=N < 60)
    return fn


def config(ns):
    def fn(c):
        N = c.choose("N", ns)
        noise = c.choose("noisetype", [None] + sorted(TYPES))
        ci = c.choose("ci", [None, 0.5, 0.6827, 0.8, 0.9, 0.95, 0.99, 0.999])
        gap = c.choose("gap", ["none", "two", "block", "ends"], dev=True)
        rate = c.choose("rate", [1.0, 10.0, 0.1, 1e-4, 1e6, 3.7, 7], dev=True)
        sc = c.choose("scale", [1.0, 1e-9, 1e6], dev=True)
        form = c.choose("container", ["array", "list"], dev=True)
        taus = c.choose("taus", ["all", None, "decade", "list"], dev=True)
        x = [float(v) * sc for v in fdeck("white", N, 11)]
        for k in {"none": [], "two": [3, N // 2], "block": range(5, 5 + N // 4), "ends": [0, 1, N - 1]}[gap]:
            x[k] = NAN
        t = [m / rate for m in (4, 1, 2, 3)] if taus == "list" else taus
        from ..devcheck import ms_of_taus
        check(c, x if form == "list" else np.array(x), rate, t, ms_of_taus(t, rate, N), ci, noise)
    return fn


def freq(ns):
    """Frequency input without inner gaps: as the integrated phase."""
    def fn(c):
        N = c.choose("N", ns)
        noise = c.choose("noisetype", sorted(TYPES))
        k1 = c.choose("NaN in front", [0, 2])
        y = [float(v) for v in fdeck("white", N, 11)]
        x = refs.integrate(y, 4.0)
        c.call(2)
        a = at.gradev(np.array([NAN] * k1 + y), rate=4.0, data_type="freq", taus="octave", noisetype=noise)
        b = at.gradev(np.array(x, dtype=float), rate=4.0, taus="octave", noisetype=noise)
        for q in (0, 1, 3):
            c.close(a[q], b[q], "gradev: frequency input", rtol=1e-9)
        for q in (0, 1):
            c.close(a[2][q], b[2][q], "gradev: error bars for frequency input", rtol=1e-7)
    return fn


def long(ns):
    """Long records with long gaps, at a spread of averaging factors."""
    def fn(c):
        N = c.choose("N", ns)
        gap = c.choose("gap", ["none", "tenth", "half", "every third", "scattered", "long and scattered", "ends"])
        kind, noise = c.choose("series", [("white", "wp"), ("walk", "rf"), ("white", "fp"), ("walk", "ff"), ("white", "wf")]
                              if N < 20000 or gap == "none" else [("walk", "rf"), ("white", "fp")])
        x = fdeck(kind, N, 3)
        if gap == "tenth":
            x[N // 3:N // 3 + N // 10] = NAN
        elif gap == "half":
            x[N // 4:3 * N // 4] = NAN
        elif gap == "every third":
            x[1::3] = NAN
        elif gap == "ends":
            x[:N // 8] = NAN
            x[-N // 9:] = NAN
        if "scattered" in gap:
            x[np.array(refs.lcg(4, N // 20, 0, N - 1))] = NAN
        if "long" in gap:
            x[N // 2:N // 2 + N // 7] = NAN
        ms = sorted(set(m for m in (1, 2, 3, 7, 10, 31, 32, 64, 99, 100, 101, 256, 500, 512, 1000, 1024, 4096, 10000, N // 10, N // 5, N // 4,
                                    N // 3, N // 2 - 1, N // 2) if 0 < m < N))
        check(c, x, 1.0, [float(m) for m in ms], ms, noise=noise)
    return fn


def harnesses(tier):
    T = tier == "thorough"
    return [Harness("patterns", patterns(15 if T else 13), doc="all subsets of missing samples"),
            Harness("words", words(8 if T else 7)),
            Harness("blocks", blocks([16, 25, 40] if T else [12, 17, 24])),
            Harness("sparse", sparse([120, 700, 5000] + ([60000] if T else []))),
            Harness("periodic", periodic([20, 41, 100, 200] + ([500, 1000] if T else []))),
            Harness("long", long([128, 256, 257, 500, 1000, 1024, 1025, 2049, 5000, 10001, 65537, 131073] + ([300001, 1000001] if T else []))),
            Harness("config", config([12, 30, 101] if T else [12, 33]), bound=2 if T else 1),
            Harness("freq", freq(list(range(6, 40)) if T else [6, 9, 16, 33, 100]))]


SPEC = dict(level="model_checking", harnesses=harnesses,
            rule="Every subset of missing samples, every word over {0,1,NaN,-1}, every single gap, noise types x confidences; distinct = "
                 "distinct (deviations, n).",
            assumptions=["error bars are judged where the EDF expression is positive", "missing samples inside frequency records are not judged",
                         "scipy.special inverse incomplete gamma function is trusted"])
