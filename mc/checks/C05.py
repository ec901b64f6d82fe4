"""C05: frequency input = integrated phase; conversions."""
import math
import numpy as np
import allantools as at
from ..engine import Harness
from .. import devcheck as dc, refs
from ..refs import LD, deck, fdeck

FUNCS = refs.ALL_FUNCS
NAN = float("nan")


def run(c, name, data, rate, dt, taus, other=None):
    c.call()
    try:
        if name == "gcodev":
            return at.gcodev(data, other, rate=rate, data_type=dt, taus=taus)
        return getattr(at, name)(data, rate=rate, data_type=dt, taus=taus)
    except UserWarning:
        return None


def same(c, name, a, b, what, rtol=1e-9, atol=0.0):
    if a is None or b is None:
        c.check(a is None and b is None, "%s: %s: only one of the two is refused" % (name, what))
        return
    for q, (u, v) in enumerate(zip(a, b)):
        u, v = np.asarray(u, dtype=float), np.asarray(v, dtype=float)
        c.close(u, v, "%s: %s: %s" % (name, what, ["taus", "deviation", "error", "n"][q]), rtol=rtol, atol=atol if q in (1, 2) else 0)
    c.outcome(name, np.round(np.asarray(a[1], dtype=float), 6).tolist())


def ends(sizes, maxnan):
    """k1 NaNs in front, k2 behind: ignored by every deviation."""
    def fn(c):
        name = c.choose("function", FUNCS + ["gradev", "gcodev"])
        N = c.choose("N", sizes)
        k1 = c.choose("NaN in front", range(maxnan + 1))
        k2 = c.choose("NaN behind", range(maxnan + 1))
        rate = c.choose("rate", [1.0, 10.0, 0.25])
        kind = c.choose("series", ["white", "walk"])
        y = [float(v) for v in fdeck(kind, N)]
        full = np.array([NAN] * k1 + y + [NAN] * k2)
        z = [float(v) for v in fdeck("white", N, 9)]
        zf = np.array([NAN] * k1 + z + [NAN] * k2)
        taus = "all"
        got = run(c, name, full, rate, "freq", taus, zf)
        if name in ("gradev", "gcodev"):
            x = np.array(refs.integrate(y, rate), dtype=float)
            w = np.array(refs.integrate(z, rate), dtype=float)
            ref = run(c, name, x, rate, "phase", taus, w)
            same(c, name, got, ref, "frequency with NaN ends against integrated phase", 1e-9, 1e-9)
        else:
            dc.compare(c, name, np.array(y), rate, "freq", taus, list(range(1, N + 2)), res="refused" if got is None else got, atolf=1e-11)
    return fn


def twins(sizes):
    """The same function on the frequency series and on the phase that it integrates to."""
    def fn(c):
        name = c.choose("function", FUNCS + ["gradev", "gcodev"])
        N = c.choose("N", sizes)
        rate = c.choose("rate", [1.0, 10.0, 0.25, 1.0 / 3])
        taus = c.choose("taus", ["all", None, "decade", "log10", "list"])
        if name in ("mtotdev", "ttotdev", "htotdev") and N > 40 and taus == "all":
            return
        y = fdeck("white", N, 3)
        z = fdeck("white", N, 9)
        x = np.array(refs.integrate(y, rate), dtype=float)
        w = np.array(refs.integrate(z, rate), dtype=float)
        t = [m / rate for m in (1, 2, 4, 5)] if taus == "list" else taus
        a = run(c, name, y, rate, "freq", t, z)
        b = run(c, name, x, rate, "phase", t, w)
        same(c, name, a, b, "frequency against integrated phase", 1e-8, 1e-10)
    return fn


def mean(sizes):
    """A mean frequency that is 10^9 .. 10^12 times the fluctuations must not spoil the result."""
    def fn(c):
        name = c.choose("function", FUNCS)
        N = c.choose("N", sizes)
        if N > 50 and name in ("mtotdev", "ttotdev", "htotdev", "theo1", "pdev"):
            return
        mu = c.choose("mean", [0.0, 1e3, 1e7, -1e7, 1e9])
        if name == "htotdev" and abs(mu) > 1e7:
            return
        rate = c.choose("rate", [1.0, 16.0])
        k1 = c.choose("NaN in front", [0, 1])
        k2 = c.choose("NaN behind", [0, 2])
        f = np.array(deck("white", N, 4), dtype=float) / 1024.0
        y = np.array([NAN] * k1 + list(mu + f) + [NAN] * k2)
        ms = [m for m in range(1, N + 2) if m < 12 or m % 7 == 0]
        got = run(c, name, y, rate, "freq", [m / rate for m in ms])
        rows = refs.expect(name, f, rate, "freq", ms)
        if got is None or not rows:
            c.check(got is None and not rows, "%s: refusal" % name)
            return
        c.close(got[0], np.array([r[0] for r in rows]) / rate, "%s: taus" % name, rtol=1e-12)
        atol = 1e-16 * abs(mu) * 40 * (N / rate if name in refs.TIME_UNITS else 1)
        want = np.array([r[1] for r in rows], dtype=float)
        c.close(got[1], want, "%s: deviation with mean frequency %g" % (name, mu), rtol=1e-7, atol=atol)
        c.close(got[3], [r[3] for r in rows], "%s: n" % name, rtol=0)
        c.outcome(name, np.round(want, 6).tolist())
    return fn


def trimming(nmax):
    """Every pattern of NaN over up to nmax samples."""
    def fn(c):
        N = c.choose("N", range(1, nmax + 1))
        pat = c.word("x", [1.5, NAN, 0.0], N)
        if all(math.isnan(v) for v in pat):
            return
        form = c.choose("form", ["array", "list"])
        a = np.array(pat) if form == "array" else list(pat)
        c.call()
        got = at.trim_data(a)
        i = 0
        while math.isnan(pat[i]):
            i += 1
        j = N
        while math.isnan(pat[j - 1]):
            j -= 1
        c.close(got, pat[i:j], "trim_data", rtol=0)
        c.outcome(pat[i:j])
    return fn


def conversions(nmax):
    def fn(c):
        N = c.choose("N", range(1, nmax + 1))
        k1 = c.choose("NaN in front", [0, 1, 3])
        k2 = c.choose("NaN behind", [0, 1, 2])
        v = c.word("y", [0, 1, -2], N)
        form = c.choose("form", ["array", "list", "int"], dev=True)
        rate = c.choose("rate", [1.0, 10, 0.1, 3.7, 1e6], dev=True)
        if form == "int" and (k1 or k2):
            return
        full = [NAN] * k1 + [float(q) for q in v] + [NAN] * k2
        a = dict(array=np.array(full), list=full, int=np.array(v))[form] if form != "int" else np.array(v)
        c.call()
        x = at.frequency2phase(a, rate)
        ref = refs.integrate(v, rate)
        c.close(x, ref, "frequency2phase", rtol=1e-12, atol=1e-14 * N / rate)
        c.check(len(x) == N + 1 and x[0] == 0, "frequency2phase: starts at 0, one sample longer")
        c.call()
        y = at.phase2frequency(x, rate)
        mu = np.mean(np.array(v, dtype=float))
        c.close(y, np.array(v) - mu, "phase2frequency undoes frequency2phase", rtol=1e-9, atol=1e-11)
        c.call()
        y2 = at.phase2frequency(np.array(v, dtype=float) if form == "array" else v, rate)
        c.close(y2, [(v[i + 1] - v[i]) * rate for i in range(N - 1)], "phase2frequency", rtol=1e-12)
        v0 = c.choose("v0", [1.0, 5e6, 0.5, 10])
        c.call()
        c.close(at.phase2radians(np.array(v) if form != "list" else v, v0), [2 * math.pi * v0 * q for q in v], "phase2radians", rtol=1e-12)
        c.outcome(v, rate)
    return fn


def fractional(nmax):
    def fn(c):
        N = c.choose("N", range(1, nmax + 1))
        v = c.word("f", [10.0, 11.0, 9.5, -3.0], N)
        mf = c.choose("mean_frequency", [None, -1, 10.0, 5e6, 9, -2.0, 0.25])
        form = c.choose("form", ["array", "list"])
        mu = sum(v) / N if mf in (None, -1) else mf
        if abs(mu) < 1e-3:
            return
        c.call()
        a = np.array(v) if form == "array" else list(v)
        got = at.frequency2fractional(a) if mf is None else at.frequency2fractional(a, mf) if N % 2 else at.frequency2fractional(a, mean_frequency=mf)
        c.close(got, [(q - mu) / mu for q in v], "frequency2fractional", rtol=1e-9, atol=1e-14)
        c.outcome(v, mf)
    return fn


TOPS = {"int8": 120, "uint8": 250, "int16": 30000, "uint16": 60000, "int32": 2 * 10 ** 9, "uint32": 4 * 10 ** 9, "int64": 4 * 10 ** 15, "uint64": 4 * 10 ** 15}


def readings(nmax):
    """Counter readings as integer arrays of every width, with parameters of every numeric type."""
    def fn(c):
        kind = c.choose("dtype", sorted(TOPS))
        top = TOPS[kind]
        lo = -top if kind[0] == "i" else 0
        N = c.choose("N", range(2, nmax + 1))
        v = c.word("f", [top, top - 1, lo, 7], N)
        a = np.array(v, dtype=kind)
        par = c.choose("parameter", [100, 10000000, 3, np.int64(100), np.uint32(5000000), np.float32(0.5), 9e6, -40])
        c.call(5)
        sc = 1e-15 * (top / abs(float(par)) + 1)
        c.close(at.frequency2fractional(a, par), [float((LD(q) - LD(par)) / LD(par)) for q in v], "frequency2fractional", rtol=1e-12, atol=4 * sc, mean=par)
        mu = sum(LD(q) for q in v) / N
        if abs(mu) > 1e-3 * top:
            c.close(at.frequency2fractional(a), [float((LD(q) - mu) / mu) for q in v], "frequency2fractional", rtol=1e-9, atol=1e-11)
        if not isinstance(par, np.float32):
            c.close(at.phase2radians(a, par), [2 * math.pi * float(par) * float(q) for q in v], "phase2radians", rtol=1e-12, atol=0, v0=par)
        c.close(at.phase2frequency(a, par), [float((LD(v[i + 1]) - LD(v[i])) * LD(par)) for i in range(N - 1)], "phase2frequency", rtol=1e-12, atol=0)
        c.close(at.frequency2phase(a, par), refs.integrate([float(q) for q in v], float(par)), "frequency2phase", rtol=1e-11, atol=1e-14 * N * top / abs(float(par)))
        c.close(at.trim_data(a), v, "trim_data", rtol=0)
        c.outcome(kind, v, float(par))
    return fn


def longconv(sizes):
    def fn(c):
        N = c.choose("N", sizes)
        rate = c.choose("rate", [1.0, 10.0, 1e-3])
        mu = c.choose("mean", [0.0, 1e7, -3.0])
        k1 = c.choose("NaN in front", [0, 2])
        k2 = c.choose("NaN behind", [0, 3])
        f = np.array(deck("white", N, 8), dtype=float) / 64
        c.call()
        x = at.frequency2phase(np.array([NAN] * k1 + list(mu + f) + [NAN] * k2), rate)
        c.close(x, refs.integrate(mu + f, rate), "frequency2phase", rtol=1e-7, atol=(1e-13 + 1e-15 * abs(mu)) * N / rate)
        c.call()
        c.close(at.phase2frequency(x, rate), f - np.mean(f), "phase2frequency undoes frequency2phase", rtol=1e-6, atol=1e-6 + 1e-9 * abs(mu))
        p = fdeck("walk", N, 2)
        c.call(2)
        c.close(at.phase2frequency(p, rate), np.diff(p) * rate, "phase2frequency", rtol=1e-12)
        c.close(at.phase2radians(p, 3.5), 7.0 * math.pi * p, "phase2radians", rtol=1e-12)
        c.close(at.trim_data(np.array([NAN] * k1 + list(p) + [NAN] * k2)), p, "trim_data", rtol=0)
        q = np.array(p)
        q[N // 2] = NAN
        c.close(at.trim_data(np.array([NAN] * k1 + list(q) + [NAN] * k2)), q if N > 2 else q, "trim_data keeps inner NaN", rtol=0) if N > 2 else None
        c.outcome(N)
    return fn


def smallmeans(sizes):
    """Means that are a small fraction of the samples: the integrated phase is closed (it returns to 0) whatever their size."""
    def fn(c):
        N = c.choose("N", sizes)
        e = c.choose("mean / amplitude", [10.0 ** -k for k in range(1, 15)] + [0.5, 0.03, 3e-5])
        sign = c.choose("sign", [1, -1])
        rate = c.choose("rate", [1.0, 10.0])
        kind = c.choose("series", ["alternating", "white"])
        k1 = c.choose("NaN in front", [0, 2])
        if kind == "alternating":
            f = np.array([(-1.0) ** k for k in range(N)]) * (1 if N % 2 == 0 else 0.5)
        else:
            f = np.array(deck("white", N, 8), dtype=float)
            f = f - np.mean(f)
            f /= max(np.max(np.abs(f)), 1e-300)
        y = f + sign * e
        c.call()
        x = at.frequency2phase(np.concatenate(([NAN] * k1, y)), rate)
        z = y.astype(LD)
        c.close(x, np.concatenate(([0], np.cumsum(z - np.mean(z)))).astype(float) / rate, "frequency2phase", rtol=1e-9, atol=2e-15 * N / rate, mean=e)
        c.outcome(N, e, sign, kind)
    return fn


def verylong(sizes):
    """Long records: conversions and the deviations that stay cheap."""
    def fn(c):
        N = c.choose("N", sizes)
        mu, rate, k1, k2 = c.choose("mean, rate, NaN at the ends", [(0.0, 1.0, 0, 0), (1e7, 10.0, 3, 2), (-2.5, 0.1, 0, 1)])
        f = np.array(deck("white", N, 8), dtype=float) / 64
        y = np.concatenate(([NAN] * k1, mu + f, [NAN] * k2))
        y0 = y.copy()
        ref = refs.integrate(f, rate)
        big = float(np.max(np.abs(ref)))
        c.call()
        x = at.frequency2phase(y, rate)
        c.close(x, ref, "frequency2phase", rtol=1e-6, atol=1e-9 * big + 4e-16 * abs(mu) * N / rate)
        c.call()
        c.close(at.phase2frequency(x, rate), f - np.mean(f), "phase2frequency undoes frequency2phase", rtol=1e-6, atol=1e-7 + 1e-9 * abs(mu))
        c.call(3)
        p = fdeck("walk", N, 2)
        c.close(at.phase2radians(p, 3.5), 7.0 * math.pi * p, "phase2radians", rtol=1e-12)
        c.close(at.trim_data(y), y[k1:len(y) - k2] if k2 else y[k1:], "trim_data", rtol=0)
        fr = f + 10.0
        c.close(at.frequency2fractional(fr), (fr - np.mean(fr)) / np.mean(fr), "frequency2fractional", rtol=1e-9, atol=1e-12)
        c.close(at.frequency2fractional(fr, 8.0), (fr - 8.0) / 8.0, "frequency2fractional", rtol=1e-9, atol=1e-12)
        for name in ("adev", "oadev", "tierms"):
            c.call()
            got = getattr(at, name)(y, rate=rate, data_type="freq", taus=[1 / rate, 7 / rate, 1000 / rate])
            rows = refs.expect(name, f, rate, "freq", [1, 7, 1000])
            c.close(got[1], [float(r[1]) for r in rows], "%s of a long frequency record" % name, rtol=1e-6, atol=1e-8 * abs(mu) * 1e-6)
            c.close(got[3], [r[3] for r in rows], "%s: n" % name, rtol=0)
        c.check(np.array_equal(y, y0, equal_nan=True), "the record given was changed")
        c.outcome(N, mu)
    return fn


def rates(ns):
    """Sampling rates of all magnitudes, also those that no short binary fraction represents."""
    def fn(c):
        rate = c.choose("rate", [1e-12, 1e-9, 7e-7, 3e-4, 1 / 3600.0, 1 / 86400.0, 0.0099, 49.9, 1234.567, 44100, 1e9, 1e15])
        N = c.choose("N", ns)
        f = fdeck("white", N, 11)
        c.call(2)
        x = at.frequency2phase(f, rate)
        c.close(x, refs.integrate(f, rate), "frequency2phase", rtol=1e-11, atol=1e-14 * N / rate, rate=rate)
        c.close(at.phase2frequency(x, rate), f - np.mean(f), "phase2frequency undoes frequency2phase", rtol=1e-9, atol=1e-10, rate=rate)
        p = fdeck("walk", N, 5)
        c.close(at.phase2frequency(p, rate), np.diff(p) * rate, "phase2frequency", rtol=1e-12, atol=0, rate=rate)
        ms = [1, 2, 4, 6]
        for name in FUNCS if N < 40 else ("oadev", "mdev", "totdev", "mtie"):
            for taus in ([m / rate for m in ms], "octave"):
                a = run(c, name, f, rate, "freq", taus, f[::-1].copy())
                b = run(c, name, x, rate, "phase", taus, np.array(refs.integrate(f[::-1], rate), dtype=float))
                same(c, name, a, b, "frequency against integrated phase, rate %r" % rate, 1e-9, 1e-12 * min(1.0, 1 / rate))
        c.outcome(rate, N)
    return fn


def harnesses(tier):
    T = tier == "thorough"
    return [Harness("ends", ends([11, 12, 23] + ([31] if T else []), 4 if T else 3)),
            Harness("twins", twins(list(range(4, 24)) + [33, 64, 100] + ([128, 200, 257] if T else []))),
            Harness("mean", mean([12, 21, 40, 200] + ([37, 1000] if T else []))),
            Harness("trim", trimming(8 if T else 7)),
            Harness("conversions", conversions(6 if T else 5), bound=2 if T else 1),
            Harness("readings", readings(5 if T else 4)),
            Harness("fractional", fractional(5 if T else 4)),
            Harness("long", longconv(list(range(1, 70)) + [100, 1000, 1024, 4097, 20000] + ([32769, 262145] if T else []))),
            Harness("small means", smallmeans([2, 10, 101, 1000, 10000] + ([100000] if T else []))),
            Harness("rates", rates([5, 13, 20] + ([32, 64] if T else []))),
            Harness("very long", verylong([65537, 100001, 131073, 300001, 1000001] + ([2097153] if T else [])))]


SPEC = dict(level="model_checking", harnesses=harnesses,
            rule="All NaN patterns up to the bound, all counts of NaN at the two ends, all frequency words, means up to 1e12 times the "
                 "fluctuations, every deviation; distinct = distinct result.",
            assumptions=["missing samples inside a frequency record are not judged (only at its ends)"])
