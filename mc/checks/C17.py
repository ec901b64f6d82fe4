"""C17: three-cornered hat and Groslambert codeviation."""
import numpy as np
import allantools as at
from ..engine import Harness
from .. import refs, devcheck as dc
from ..refs import LD, deck, fdeck

FUN = ["adev", "oadev", "hdev", "ohdev", "mdev", "tdev", "totdev", "pdev"]


def hat_rows(fun, ab, bc, ca, rate, ms):
    out = []
    rows = [refs.expect(fun, d, rate, "phase", ms) for d in (ab, bc, ca)]
    for a, b, k in zip(*rows):
        v = (LD(a[1]) ** 2 + LD(k[1]) ** 2 - LD(b[1]) ** 2) / 2
        s = max(LD(a[1]) ** 2, LD(k[1]) ** 2, LD(b[1]) ** 2)
        out.append((a[0], v, a[3], s))
    return out


def hat_compare(c, fun, ab, bc, ca, rate, taus, ms, func=None):
    c.call()
    rows = hat_rows(fun, ab, bc, ca, rate, ms)
    try:
        r = at.three_cornered_hat_phase(ab, bc, ca, rate, taus, func or getattr(at, fun))
    except UserWarning:
        c.check(not rows, "three-cornered hat refused although averaging factors remain")
        c.outcome("refused")
        return
    c.check(len(rows) > 0, "three-cornered hat: a result although nothing remains")
    c.check(len(r) == 4, "three-cornered hat: four results")
    c.close(r[0], [q[0] / float(rate) for q in rows], "three-cornered hat: taus", rtol=1e-12)
    c.close(r[3], [q[2] for q in rows], "three-cornered hat: n", rtol=0)
    d, e = np.asarray(r[1], dtype=float), np.asarray(r[2], dtype=float)
    c.check(d.shape == e.shape == (len(rows),), "three-cornered hat: lengths")
    for k, (m, v, n, s) in enumerate(rows):
        tol = 1e-10 * s
        c.compared += 2
        want = float(max(v, LD(0)))
        c.check(abs(float(d[k]) ** 2 - want) <= tol, "three-cornered hat: variance of clock A", m=m, got=d[k] ** 2, want=want)
        c.check(not (v < -tol) or d[k] == 0, "three-cornered hat: negative variance is not 0", m=m, got=d[k])
        c.close(e[k], d[k] / np.sqrt(float(n)), "three-cornered hat: error", rtol=1e-9, m=m)
    c.outcome(fun, np.round(d, 6).tolist())


def hat_words(n, alpha):
    """All triples of words."""
    def fn(c):
        fun = c.choose("function", ["adev", "oadev", "ohdev"])
        ab, bc, ca = (np.array(c.word(k, alpha, n), dtype=float) for k in ("ab", "bc", "ca"))
        hat_compare(c, fun, ab, bc, ca, 1.0, "all", dc.ms_of_taus("all", 1.0, n))
    return fn


def hat_pairs(n, alpha):
    """All pairs of words against three reference words."""
    def fn(c):
        bc = c.choose("bc", [[0, 0, 0, 0, 0], [0, 1, -1, 1, 0], [4, -3, 0, 5, 5]])[:n]
        ab, ca = (np.array(c.word(k, alpha, n), dtype=float) for k in ("ab", "ca"))
        hat_compare(c, "oadev", ab, np.array(bc, dtype=float), ca, 2.0, "all", dc.ms_of_taus("all", 2.0, n))
    return fn


def hat_configs(ns):
    def fn(c):
        fun = c.choose("function", FUN)
        N = c.choose("N", ns)
        rate = c.choose("rate", [1.0, 0.1, 12.0, 1e6, 1e-5, 7])
        taus = c.choose("taus", ["all", "octave", "decade", None, "list"])
        kinds = c.choose("noise of the pairs", [("white", "walk", "drift"), ("walk", "white", "impulse"), ("white", "white", "white"), ("drift", "walk", "walk")])
        sc = c.choose("scale", [1.0, 2.0 ** -30, 2.0 ** -60, 2.0 ** -110, 2.0 ** 40])
        a, b, k = (fdeck(kd, N, i + 1) * sc for i, kd in enumerate(kinds))
        t = [3 / rate, 1 / rate, 2 / rate] if taus == "list" else taus
        hat_compare(c, fun, a, b, k, rate, t, dc.ms_of_taus(t, rate, N))
    return fn


def hat_delegates(c):
    """Any function with the library's signature: called with phase data, the rate and the taus given."""
    taus = c.choose("taus", ["all", None, [1.0, 2.0]])
    rate = c.choose("rate", [1.0, 4.0])
    dev = [c.choose("deviation %d" % k, [0.0, 1.0, 3.0, 2.0 ** -12, 2.0 ** -20]) for k in range(3)]
    data = [np.arange(5.0) + k for k in range(3)]
    seen = []

    def spy(data, rate=1.0, data_type="phase", taus=None):
        seen.append((data, rate, data_type, taus))
        i = int(data[0])
        return np.array([1.0, 2.0]), np.array([dev[i], 2 * dev[i]]), np.array([9.0, 9.0]), np.array([4 + i, 9 + i])
    c.call()
    t, d, e, n = at.three_cornered_hat_phase(data[0], data[1], data[2], rate, taus, spy)
    c.check(len(seen) == 3 and sorted(int(s[0][0]) for s in seen) == [0, 1, 2], "the function is called once for each pair", got=seen)
    for s in seen:
        c.check(s[1] == rate and s[2] == "phase" and s[3] is taus, "arguments of the function", got=s[1:])
    v = max(0.0, (dev[0] ** 2 + dev[2] ** 2 - dev[1] ** 2) / 2)
    s = 1e-15 * max(dev) ** 2
    c.close(np.asarray(d) ** 2, [v, 4 * v], "variance of clock A", rtol=1e-12, atol=4 * s)
    c.close(e, np.asarray(d) / np.sqrt([4.0, 9.0]), "errors from the counts of AB", rtol=1e-12)
    c.close(n, [4, 9], "counts of AB", rtol=0)
    c.close(t, [1.0, 2.0], "taus of AB", rtol=0)
    c.outcome(dev)


def hat_clocks(ns):
    """Closed triangles of three clocks: with two noise-free clocks the third is returned exactly, and the
    cyclic permutations give the three variances whose pairwise sums are those of the pairs."""
    def fn(c):
        N = c.choose("N", ns)
        fun = c.choose("function", ["oadev", "mdev", "ohdev"])
        noisy = c.choose("noisy clocks", ["A", "B", "C", "ABC"])
        ck = {k: fdeck("walk", N, i + 3) * (k in noisy) for i, k in enumerate("ABC")}
        ab, bc, ca = ck["A"] - ck["B"], ck["B"] - ck["C"], ck["C"] - ck["A"]
        f = getattr(at, fun)
        c.call(7)
        A = at.three_cornered_hat_phase(ab, bc, ca, 1.0, "octave", f)
        B = at.three_cornered_hat_phase(bc, ca, ab, 1.0, "octave", f)
        C = at.three_cornered_hat_phase(ca, ab, bc, 1.0, "octave", f)
        alone = f(ck["A"], rate=1.0, taus="octave")
        if len(noisy) == 1:
            for k, r in zip("ABC", (A, B, C)):
                want = alone[1] if k == "A" and noisy == "A" else f(ck[k], rate=1.0, taus="octave")[1]
                c.close(r[1], want, "clock %s with %s noisy" % (k, noisy), rtol=1e-6, atol=1e-9 * float(np.max(want)) if k in noisy else 1e-6)
        vab = f(ab, rate=1.0, taus="octave")[1] ** 2
        va, vb = A[1] ** 2, B[1] ** 2
        ok = (A[1] > 0) & (B[1] > 0)
        c.close((va + vb)[ok], vab[ok], "variances of A and B do not add up to that of AB", rtol=1e-7)
        c.outcome(N, fun, noisy)
    return fn


def hat_gaps(ns):
    """With gradev the pairs may have different numbers of differences: counts and errors are those of AB."""
    def fn(c):
        N = c.choose("N", ns)
        rate = c.choose("rate", [1.0, 4.0])
        gaps = [c.choose("gap of %s" % p, [None, 0, N // 2, N - 2]) for p in ("AB", "BC", "CA")]
        width = c.choose("width", [1, 2])
        d = [fdeck(kd, N, i + 1) for i, kd in enumerate(("walk", "white", "drift"))]
        for x, g in zip(d, gaps):
            if g is not None:
                x[g:g + width] = np.nan
        ms = [1, 2, 3]
        rows = [[refs.gradev(x, m, rate) for m in ms] for x in d]
        if any(r is None for p in rows for r in p):
            return
        c.call()
        r = at.three_cornered_hat_phase(d[0], d[1], d[2], rate, [m / rate for m in ms], at.gradev)
        c.close(r[0], [m / rate for m in ms], "gaps: taus", rtol=1e-12)
        c.close(r[3], [q[1] for q in rows[0]], "gaps: counts of AB", rtol=0)
        dev = np.asarray(r[1], dtype=float)
        for k in range(3):
            v = (rows[0][k][0] ** 2 + rows[2][k][0] ** 2 - rows[1][k][0] ** 2) / 2
            s = max(float(rows[p][k][0]) ** 2 for p in range(3))
            c.check(abs(dev[k] ** 2 - float(max(v, 0))) <= 1e-10 * s, "gaps: variance of clock A", m=ms[k], got=dev[k] ** 2, want=v)
        c.close(r[2], dev / np.sqrt([float(q[1]) for q in rows[0]]), "gaps: errors from the counts of AB", rtol=1e-9)
        c.outcome(N, gaps, width)
    return fn


# ---- gcodev ---------------------------------------------------------------------
def gco_rows(x, y, rate, ms):
    out = []
    x, y = refs.ld(x), refs.ld(y)
    for m in ms:
        n = len(x) - 2 * m
        if n >= 2:
            u = x[2 * m:] - 2 * x[m:-m] + x[:-2 * m]
            v = y[2 * m:] - 2 * y[m:-m] + y[:-2 * m]
            s = np.sum(u * v)
            a = np.sqrt(np.sum(u * u) * np.sum(v * v))
            f = LD(rate) / m
            out.append((m, float(abs(s) / (2 * n) * f * f), n, float(a / (2 * n) * f * f)))
    return out


def gco_compare(c, a, b, rate, dt, taus, ms):
    x, y = (a, b) if dt == "phase" else (refs.integrate(np.asarray(a, float), rate), refs.integrate(np.asarray(b, float), rate))
    rows = gco_rows(x, y, rate, ms)
    c.call()
    try:
        r = at.gcodev(a, b, rate=rate, data_type=dt, taus=taus)
    except UserWarning:
        c.check(not rows, "gcodev refused although averaging factors remain")
        c.outcome("refused")
        return None
    c.check(len(rows) > 0 and len(r) == 4, "gcodev: a result although nothing remains")
    c.close(r[0], [q[0] / float(rate) for q in rows], "gcodev: taus", rtol=1e-12)
    c.close(r[3], [q[2] for q in rows], "gcodev: n", rtol=0)
    d = np.asarray(r[1], dtype=float)
    for k, (m, v, n, s) in enumerate(rows):
        tol = 1e-10 * s + 1e-18 * (float(np.max(np.abs(x)) * np.max(np.abs(y)))) * (rate / m) ** 2
        c.compared += 1
        c.check(abs(d[k] ** 2 - v) <= tol, "gcodev: covariance", m=m, got=d[k] ** 2, want=v, rate=rate, data_type=dt)
    c.close(r[2], d / np.sqrt([float(q[2]) for q in rows]), "gcodev: error", rtol=1e-9)
    c.outcome(np.round(d, 6).tolist())
    return r


def gco_words(n, alpha):
    def fn(c):
        dt = c.choose("data_type", ["phase", "freq"])
        a, b = (np.array(c.word(k, alpha, n), dtype=float) for k in "ab")
        N = n + (dt == "freq")
        ms = dc.ms_of_taus("all", 1.0, N)
        r = gco_compare(c, a, b, 1.0, dt, "all", ms)
        if r is not None:
            c.call(2)
            s = at.gcodev(b, a, rate=1.0, data_type=dt, taus="all")
            c.close(s[1], r[1], "gcodev is not symmetric", rtol=1e-12)
            if a.tolist() == b.tolist():
                o = at.oadev(a, rate=1.0, data_type=dt, taus="all")
                for k in range(4):
                    c.close(r[k], o[k], "gcodev of a series with itself is not oadev", rtol=1e-9)
    return fn


def gco_configs(ns):
    def fn(c):
        N = c.choose("N", ns)
        dt = c.choose("data_type", ["phase", "freq"])
        rate = c.choose("rate", [1.0, 0.1, 12.0, 3.7, 1e-4, 7])
        taus = c.choose("taus", ["all", "octave", "decade", None, "list", "default"])
        kinds = c.choose("noise", [("white", "walk"), ("walk", "white"), ("drift", "impulse"), ("walk", "constant"), ("walk", "same")])
        sc = c.choose("scale", [1.0, 2.0 ** -40, 2.0 ** -100])
        a = fdeck(kinds[0], N, 1) * sc
        b = a.copy() if kinds[1] == "same" else np.full(N, 3.0) if kinds[1] == "constant" else fdeck(kinds[1], N, 2)
        n = N + (dt == "freq")
        t = [3 / rate, 1 / rate, 2 / rate] if taus == "list" else taus
        if taus == "default":
            t = None
        r = gco_compare(c, a, b, rate, dt, t, dc.ms_of_taus(t, rate, n))
        if r is None:
            return
        if kinds[1] == "constant":
            c.check(np.all(np.asarray(r[1]) <= 1e-12 * np.max(np.abs(a)) * rate), "gcodev with a noise-free series is not 0", got=r[1])
        if taus == "default":
            c.call()
            q = at.gcodev(a, b, rate, dt)
            c.check(all(np.array_equal(u, v) for u, v in zip(q, r)), "default taus")
            if dt == "phase" and rate == 1.0:
                q = at.gcodev(a, b)
                c.check(all(np.array_equal(u, v) for u, v in zip(q, r)), "default arguments")
    return fn


def gco_bilinear(n, alpha):
    """gcodev(a, k a) = sqrt|k| oadev(a); adding phase offsets and drifts to either series changes nothing."""
    def fn(c):
        a = np.array(c.word("a", alpha, n), dtype=float)
        k = c.choose("factor", [1.0, -1.0, 4.0, -0.25])
        lin = c.choose("offset, drift", [(0, 0), (3, 0), (1, -2)])
        c.call(2)
        t = np.arange(n)
        g = at.gcodev(a + lin[0] + lin[1] * t, k * a - lin[1] + lin[0] * t, taus="all")
        o = at.oadev(a, taus="all")
        c.close(g[1], np.sqrt(abs(k)) * o[1], "gcodev(a, k a)", rtol=1e-9, atol=1e-12)
        c.outcome(a.tolist(), k, lin)
    return fn


def longrec(ns):
    """Long records at a spread of averaging factors."""
    def fn(c):
        N = c.choose("N", ns)
        what = c.choose("function", ["gcodev", "adev", "oadev", "mdev", "hdev", "totdev"])
        kinds = c.choose("noise", [("white", "walk", "white"), ("walk", "walk", "white")])
        a, b, k = (fdeck(kd, N, i + 1) for i, kd in enumerate(kinds))
        ms = sorted(set(m for m in (1, 2, 5, 16, 31, 64, 100, 101, 256, 500, 1000, 1024, 4096, N // 10, N // 4, N // 3, N // 2 - 1) if 0 < m < N))
        t = [float(m) for m in ms]
        if what == "gcodev":
            gco_compare(c, a, b, 1.0, c.choose("data_type", ["phase", "freq"]), t, ms)
        else:
            hat_compare(c, what, a, b, k, 1.0, t, ms)
    return fn


def harnesses(tier):
    T = tier == "thorough"
    return [Harness("hat words", hat_words(5 if T else 4, [0, 1] if not T else [0, 1]), doc="all triples of binary words"),
            Harness("hat ternary words", hat_pairs(5 if T else 4, [0, 1, -2])),
            Harness("hat configurations", hat_configs(list(range(4, 40, 3)) if T else [5, 12, 33])),
            Harness("long", longrec([100, 129, 257, 1000, 1025, 4097, 10001, 65537, 131073] + ([300001, 1000001] if T else []))),
            Harness("hat gaps", hat_gaps([24, 25, 40] if T else [24])),
            Harness("hat delegation", hat_delegates),
            Harness("hat clocks", hat_clocks(list(range(8, 60)) if T else [8, 9, 16, 25, 40])),
            Harness("gcodev words", gco_words(6 if T else 5, [0, 1] if not T else [0, 1, -2]), doc="all pairs of words"),
            Harness("gcodev ternary words", gco_words(4, [0, 1, -2])),
            Harness("gcodev configurations", gco_configs(list(range(4, 60, 2)) if T else [4, 5, 8, 20, 41])),
            Harness("gcodev bilinear", gco_bilinear(8 if T else 6, [0, 1, -2]))]


SPEC = dict(level="model_checking", harnesses=harnesses,
            rule="All triples and pairs of words, all configurations; compared with the combination of 80-bit references. distinct = distinct result vector.",
            assumptions=["the sign of the covariance is dropped by gcodev (documented: magnitude)", "the two series of gcodev have equal lengths"])
