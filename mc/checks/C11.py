"""C11: noise identification."""
import math
import numpy as np
import allantools as at
from allantools import ci as atci
from ..engine import Harness
from .. import refs
from ..refs import LD, deck, fdeck


def judge(c, x, af, dt, dmin, dmax, form="array", what="", tol=1e-6):
    r = refs.noise_id(x, af, dt, dmin, dmax)
    arr = np.array(x, dtype=float)
    if form == "readonly":
        arr.flags.writeable = False
    c.call()
    kw = dict(data_type=dt, dmin=dmin, dmax=dmax)
    if form == "defaults" or ((dmin, dmax) == (0, 2) and len(arr) % 2 == 0):
        kw = {} if dt == "phase" else dict(data_type=dt)
    try:
        got = at.autocorr_noise_id(arr, af, **kw)
    except Exception:
        if r is not None:                # any exception refuses fewer than 30 points
            raise
        return None
    c.check(r is not None, "autocorr_noise_id accepts fewer than 30 averaged points", N=len(arr), af=af, got=got)
    if r[4] < 1e-6:
        return None
    c.check(len(got) == 4, "autocorr_noise_id: four results")
    c.equal(int(got[2]), r[2], "%sautocorr_noise_id: number of differences" % what, rho=r[3])
    c.close(got[3], r[3], "%sautocorr_noise_id: rho" % what, rtol=tol, atol=tol / 10)
    c.close(got[1], r[1], "%sautocorr_noise_id: alpha" % what, rtol=tol, atol=tol)
    c.check(got[0] == r[0] and float(got[0]).is_integer(), "%sautocorr_noise_id: integer alpha" % what, got=got, want=r)
    c.outcome(r[0], r[2], round(r[3], 6))
    return got


def colours(ns, afs):
    def fn(c):
        b = c.choose("phase spectrum exponent", [2, 1, 0.5, 0, -0.5, -1, -1.5, -2, -2.5, -3, -4, -5, -6])
        N = c.choose("N", ns)
        af = c.choose("af", afs)
        dt = c.choose("data_type", ["phase", "freq"])
        dmin, dmax = c.choose("dmin, dmax", [(0, 2), (0, 3), (1, 2), (0, 0), (2, 2), (1, 1), (2, 3), (0, 1), (3, 3)])
        seed = c.choose("seed", [1, 2])
        x = refs.colour(b, N + 1, seed)
        x = np.diff(x) if dt == "freq" else x[:N]
        judge(c, x, af, dt, dmin, dmax)
    return fn


def longcolours(ns):
    def fn(c):
        N = c.choose("N", ns)
        b = c.choose("phase spectrum exponent", [2, 0.6, 0, -1, -1.5, -2, -3, -4])
        af = c.choose("af", sorted(set(a for a in (1, 2, 9, 16, 31, 32, 33, 50, 64, 99, 100, 101, 128, 257, 300, 1000, 2000, N // 100, N // 31, N // 30,
                                                   N // 30 + 1, N // 29) if 0 < a <= N // 25)))
        dt = c.choose("data_type", ["phase", "freq"])
        dmin, dmax = c.choose("dmin, dmax", [(0, 2), (0, 3)])
        x = refs.colour(b, N + 1, 3)
        x = np.diff(x) if dt == "freq" else x[:N]
        judge(c, x, af, dt, dmin, dmax)
    return fn


def integrated(ns):
    """Series integrated up to seven times: the limit on the number of differences decides, whatever it is."""
    def fn(c):
        N = c.choose("N", ns)
        k = c.choose("times integrated", range(8))
        af = c.choose("af", [1, 2])
        dt = c.choose("data_type", ["phase", "freq"])
        dmin, dmax = c.choose("dmin, dmax", [(0, 3), (0, 4), (0, 5), (0, 6), (4, 4), (1, 5), (0, 8)])
        x = fdeck("white", N, 6)
        for _ in range(k):
            x = np.cumsum(x - np.mean(x))
        # how far rounding of the samples moves the answer: the steep ones are differences of large numbers
        a, b = refs.noise_id(x, af, dt, dmin, dmax), refs.noise_id(x + 1e-14 * np.max(np.abs(x)) * np.array(deck("white", N, 8)), af, dt, dmin, dmax)
        if a is not None and (a[2] != b[2] or a[0] != b[0] or abs(a[3] - b[3]) > 1e-3):
            return
        judge(c, x, af, dt, dmin, dmax, tol=1e-6 if a is None else 1e-6 + 10 * abs(a[3] - b[3]))
    return fn


def threshold(ns):
    """Lengths around 30 averaged points."""
    def fn(c):
        N = c.choose("N", ns)
        af = c.choose("af", [1, 2, 3, 4, 5, 7, 10])
        dt = c.choose("data_type", ["phase", "freq"])
        kind = c.choose("series", ["white", "walk"])
        form = c.choose("form", ["array", "readonly", "defaults"])
        judge(c, fdeck(kind, N, 4), af, dt, 0, 2, form)
    return fn


def impulses(ns):
    """One or two impulses at every position."""
    def fn(c):
        N = c.choose("N", ns)
        i = c.choose("i", range(N))
        j = c.choose("j", range(i, N, 5))
        dt = c.choose("data_type", ["phase", "freq"])
        x = np.zeros(N)
        x[i] += 1.0
        x[j] += 1.0
        judge(c, x, 1, dt, 0, 2)
    return fn


def invariance(ns):
    def fn(c):
        N = c.choose("N", ns)
        kind = c.choose("b", [1, 0, -1, -2, -3, -4])
        dt = c.choose("data_type", ["phase", "freq"])
        af = c.choose("af", [1, 2, 5])
        op = c.choose("change", ["scale 1e-9", "scale -4", "scale 1e6", "offset", "trend", "quadratic"])
        x = refs.colour(kind, N + 1, 5)
        x = np.diff(x) if dt == "freq" else x[:N]
        s = max(1e-3, np.std(x))
        k = np.arange(N, dtype=float)
        if op == "quadratic" and dt == "freq":
            return
        y = {"scale 1e-9": x * 1e-9, "scale -4": -4 * x, "scale 1e6": 1e6 * x, "offset": x + 30 * s, "trend": x + 0.5 * s * k, "quadratic": x + s * 0.01 * k * k}[op]
        if refs.noise_id(x, af, dt)[4] < 1e-4:
            return
        # a linear frequency trend is removed after averaging; a phase trend after decimation: both exactly
        c.call(2)
        a = at.autocorr_noise_id(x, af, data_type=dt)
        b = at.autocorr_noise_id(y, af, data_type=dt)
        c.equal((a[0], a[2]), (b[0], b[2]), "noise identification changes with %s" % op)
        c.close(b[1], a[1], "noise identification changes with %s" % op, rtol=1e-5, atol=1e-5)
        c.outcome(a[0], a[2], op)
    return fn


def acfwords(nmax):
    def fn(c):
        N = c.choose("N", range(2, nmax + 1))
        x = c.word("x", [0.0, 1.0, -1.0], N)
        if min(x) == max(x):
            return
        c.call()
        got = atci.lag1_acf(np.array(x))
        c.close(got, refs.lag1(x), "lag1_acf", rtol=1e-9, atol=1e-12)
        c.outcome(round(float(got), 9))
    return fn


def acfsizes(ns):
    def fn(c):
        N = c.choose("N", ns)
        kind = c.choose("series", ["white", "walk", "drift"])
        off = c.choose("offset", [0, 100])
        x = fdeck(kind, N, 7) + off
        c.call()
        got = atci.lag1_acf(x)
        c.close(got, refs.lag1(x), "lag1_acf", rtol=1e-9, atol=1e-12)
        c.outcome(round(float(got), 9))
    return fn


def ratios(ns):
    def fn(c):
        N = c.choose("N", ns)
        kind = c.choose("series", ["white", "walk", "drift"])
        rate = c.choose("rate", [1.0, 10.0, 0.25, 1000.0, 3, 1e-4, 1e7])
        x = fdeck(kind, N, 9)
        for af in range(1, N) if N < 200 else [1, 2, 3, 8, 31, 64, 100, 333, N // 10, N // 4, N // 3 - 1]:
            a = refs.adev(refs.ld(x), af, rate)
            m = refs.mdev(refs.ld(x), af, rate)
            if a is None or a[2] < 2 or a[0] * af <= 1e-9 * rate * np.max(np.abs(x)):
                continue
            if m is not None and m[2] > 1:
                c.call()
                c.close(atci.rn(x, af, rate), (m[0] / a[0]) ** 2, "rn(af=%d)" % af, rtol=1e-8)
            y = refs.block_average(np.diff(refs.ld(x)) * LD(rate), af)
            v = np.sum((y - np.sum(y) / len(y)) ** 2) / (len(y) - 1)
            c.call()
            c.close(atci.b1(x, af, rate), v / a[0] ** 2, "b1(af=%d)" % af, rtol=1e-8)
        c.outcome(N, kind)
    return fn


def theory():
    """Theoretical ratios and boundaries for all noise types, averaging factors and lengths."""
    def fn(c):
        what = c.choose("what", ["b1", "rn"])
        if what == "b1":
            N = c.choose("N", list(range(2, 80)) + [100, 128, 1000, 12345, 1000000])
            form = c.choose("form", [int, float])
            mus = {0: -2, -1: -2, -2: -1, -3: 0, -4: 1, -5: 2, -6: 3}

            def th(mu):
                n = LD(N)
                if mu == 0:
                    return n * np.log(n) / (2 * (n - 1) * np.log(LD(2)))
                return n * (1 - n ** mu) / (2 * (n - 1) * (1 - LD(2) ** mu))
            for b, mu in mus.items():
                c.call(2)
                c.equal(atci.b_to_mu(b), mu, "b_to_mu(%d)" % b)
                c.close(atci.b1_theory(form(N), mu), th(mu), "b1_theory(N=%d, mu=%d)" % (N, mu), rtol=1e-9)
            for mu in (0.5, -0.5, -1.5, 1.5):
                c.call()
                c.close(atci.b1_theory(form(N), mu), th(LD(mu)), "b1_theory(N=%d, mu=%g)" % (N, mu), rtol=1e-9)
            prev = None
            for b in (0, -1, -2, -3, -4, -5):
                c.call()
                v = float(atci.b1_boundary(b, form(N)))
                lo, hi = float(th(mus[b - 1])), float(th(mus[b]))
                c.close(v, math.sqrt(lo * hi), "b1_boundary(%d, N=%d)" % (b, N), rtol=1e-9)
                if N > 2:
                    c.check(min(lo, hi) * (1 - 1e-9) <= v <= max(lo, hi) * (1 + 1e-9) and (prev is None or v >= prev), "b1 boundaries out of order", b=b)
                prev = v
            c.outcome(N)
        else:
            af = c.choose("af", list(range(1, 130)) + [256, 1000, 1024, 100000])
            av = (LD("1.038") + 3 * np.log(refs.PI * af)) / (4 * refs.PI ** 2)
            mv = 3 * np.log(LD(256) / 27) / (8 * refs.PI ** 2)
            th = {0: LD(1) / af, -1: mv / av, -2: LD(1), -3: LD(1), -4: LD(1)}
            for b, w in th.items():
                c.call()
                c.close(atci.rn_theory(af, b), w, "rn_theory(af=%d, b=%d)" % (af, b), rtol=1e-9)
            for b in (0, -1, -2, -3):
                c.call()
                c.close(atci.rn_boundary(af, b), np.sqrt(th[b] * th[b - 1]), "rn_boundary(af=%d, b=%d)" % (af, b), rtol=1e-9)
            if af > 1:
                b0, b1 = float(atci.rn_boundary(af, 0)), float(atci.rn_boundary(af, -1))
                c.check(float(th[0]) < b0 < float(th[-1]) < b1 < 1, "rn boundaries out of order", af=af)
            c.outcome(af)
    return fn


def trends(ns):
    """detrend: the residual of the least-squares polynomial, 1 by default, for series of every kind."""
    def fn(c):
        N = c.choose("N", ns)
        deg = c.choose("deg", [None, 0, 1, 2, 3])
        kind = c.choose("series", ["white", "walk", "drift", "impulse"])
        dt = c.choose("container", ["array", "integers", "list"])
        x = np.zeros(N) if kind == "impulse" else np.array(deck(kind, N, 6), dtype=float)
        if kind == "impulse":
            x[N // 3] = 1.0
        g = 1 if deg is None else deg
        if N <= g + 1:
            return
        t = (np.arange(N) - refs.LD(N - 1) / 2) / refs.LD(N)
        basis = []
        for k in range(g + 1):                  # Gram-Schmidt twice over 1, t, t^2, ...
            v = t ** k
            for _ in range(2):
                for b in basis:
                    v = v - b * np.sum(v * b)
            basis.append(v / np.sqrt(np.sum(v * v)))
        w = x.astype(refs.LD)
        for _ in range(2):
            for b in basis:
                w = w - b * np.sum(w * b)
        arg = {"array": x, "integers": x.astype(np.int64), "list": [int(v) for v in x]}[dt]
        c.call()
        got = atci.detrend(arg) if deg is None else atci.detrend(arg, deg)
        c.check(len(got) == N, "detrend: length")
        c.close(np.asarray(got, dtype=float), w.astype(float), "detrend(deg=%s)" % deg, rtol=0, atol=1e-9 * float(np.max(np.abs(x)) + 1))
        c.outcome(N, deg, kind)
    return fn


def harnesses(tier):
    T = tier == "thorough"
    return [Harness("colours", colours([30, 64, 200, 333] + ([1000, 1024] if T else []), [1, 2, 3, 4, 6] + ([8, 10, 16] if T else []))),
            Harness("colours long", longcolours([1000, 1025, 2049, 4097, 10007] + ([32769, 65537, 100003] if T else [65537]))),
            Harness("detrend", trends([3, 4, 5, 8, 15, 30, 31, 64, 100, 257, 1000, 4096, 4097, 20001] + ([100003, 1000000] if T else []))),
            Harness("integrated", integrated([64, 90, 201, 512] + ([1000, 4000] if T else []))),
            Harness("threshold", threshold(list(range(26, 68)) + [89, 90, 91, 117, 118, 119, 120, 121, 146, 150, 151, 209, 210, 211, 290, 291, 292, 300, 301])),
            Harness("impulses", impulses([30, 31, 37] if T else [30, 33])),
            Harness("invariance", invariance([160, 301])),
            Harness("lag1 words", acfwords(8 if T else 7)),
            Harness("lag1 sizes", acfsizes(list(range(2, 100)) + [1000])),
            Harness("ratios", ratios(list(range(4, 100 if T else 40)) + [64, 100, 128, 1000, 5000, 20001])),
            Harness("theory", theory())]


SPEC = dict(level="model_checking", harnesses=harnesses,
            rule="Colours x lengths x averaging factors x differencing limits, every length around the 30-point limit, impulses at every "
                 "position, all words for the lag-1 function, all noise types for the theory; distinct = distinct (alpha, d, rho).",
            assumptions=["series within 1e-6 of a decision threshold are not judged"])
