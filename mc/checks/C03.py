"""C03: MTIE / TIE rms = brute force over windows."""
import numpy as np
import allantools as at
from ..engine import Harness
from .. import devcheck as dc, refs
from ..devharness import words, wordsfreq, sizes, large, config, allm
from ..refs import deck, fdeck


def spikes(name, nmax):
    """One maximum and one minimum at every pair of positions, on flat and sloping baselines, ties included."""
    def fn(c):
        N = c.choose("N", range(2, nmax + 1))
        i = c.choose("max at", range(N))
        j = c.choose("min at", range(N))
        slope = c.choose("slope", [0, 1, -1])
        h = c.choose("height", [1, 100])
        x = np.arange(N) * float(slope)
        x[i] += h
        x[j] -= h
        res = dc.compare(c, name, x, 1.0, "phase", "all", allm(N))
        if res is not None and name == "mtie":
            c.check(bool(np.all(np.diff(res[1]) >= 0)), "mtie decreases with tau", dev=res[1])
    return fn


def permutations(nmax):
    """Every ordering of N distinct values: all positions of the extrema of all windows."""
    def fn(c):
        N = c.choose("N", range(2, nmax + 1))
        rest, x = list(range(N)), []
        for k in range(N):
            v = c.choose("x%d" % k, list(rest))
            rest.remove(v)
            x.append(float(v * v))
        for name in ("mtie", "tierms"):
            res = dc.compare(c, name, np.array(x), 1.0, "phase", "all", allm(N))
            if res is not None and name == "mtie":
                c.check(bool(np.all(np.diff(res[1]) >= 0)), "mtie decreases with tau", dev=res[1])
        fast(c, x)
    return fn


def fast(c, x, box=list, rate=1.0):
    n = 2 ** int(np.floor(np.log2(len(x))))
    c.call()
    try:
        res = at.mtie_phase_fast(box(x), rate=rate)
    except UserWarning:
        c.check(n < 4, "mtie_phase_fast refuses %d points" % len(x))
        return
    pre = refs.ld(x[:n])
    K = n.bit_length() - 1
    want, ns = [], []
    for k in range(1, K + 1):
        w = 2 ** k
        want.append(float(refs.mtie(pre, w - 1, 1.0)[0]))
        ns.append(n - w + 1)
    keep = [q for q in range(K) if ns[q] > 1]
    c.close(res[1], [want[q] for q in keep], "mtie_phase_fast: window excursions", rtol=1e-12, n=n)
    c.close(res[3], [ns[q] for q in keep], "mtie_phase_fast: number of windows", rtol=0)
    # documented relation with mtie on the same samples
    if keep:
        ref = at.mtie(np.array(pre, dtype=float), taus=[2.0 ** (q + 1) - 1 for q in keep])
        c.call()
        c.close(res[1], ref[1], "mtie_phase_fast and mtie disagree", rtol=1e-12)


def fastwords(nmax, alpha):
    def fn(c):
        N = c.choose("N", range(4, nmax + 1))
        fast(c, c.word("x", alpha, N))
    return fn


def fastspikes(nmax):
    def fn(c):
        N = c.choose("N", range(4, nmax + 1))
        i = c.choose("max at", range(N))
        j = c.choose("min at", range(N))
        x = [0.0] * N
        x[i] += 3
        x[j] -= 2
        fast(c, x, np.array)
    return fn


def fastsizes(sizelist):
    def fn(c):
        N = c.choose("N", sizelist)
        kind = c.choose("series", ["white", "walk", "drift"])
        fast(c, fdeck(kind, N), np.array, c.choose("rate", [1.0, 10.0]))
    return fn


def fastlarge(sizelist):
    """Long records: window extremes by doubling."""
    def fn(c):
        N = c.choose("N", sizelist)
        x = fdeck(c.choose("series", ["white", "walk"]), N, 4)
        n = 1 << (N.bit_length() - 1)
        c.call()
        res = at.mtie_phase_fast(x, rate=1.0)
        hi, lo, want, ns = x[:n], x[:n], [], []
        for k in range(n.bit_length() - 1):
            h = 2 ** k
            hi, lo = np.maximum(hi[:-h], hi[h:]), np.minimum(lo[:-h], lo[h:])
            want.append(float(np.max(hi - lo)))
            ns.append(len(hi))
        keep = [q for q in range(len(ns)) if ns[q] > 1]
        c.close(res[1], [want[q] for q in keep], "mtie_phase_fast: window excursions", rtol=1e-12, n=n)
        c.close(res[3], [ns[q] for q in keep], "mtie_phase_fast: number of windows", rtol=0)
        c.outcome(N)
    return fn


def lonely(sizelist, limit):
    """One maximum and one minimum m samples apart in a long record: only one window of m+1 samples holds both."""
    def fn(c):
        N = c.choose("N", sizelist)
        m = c.choose("m", sorted(set(v for v in [1, 2, 7, 100, 1023, 1024, 4096, 5000, 10001, N // 4, N // 2, N - 2] if v < N - 1 and v * N <= limit)))
        i = c.choose("start", sorted(set(v for v in [0, 1, 2, 3, 1023, 4095, 4096, 8191, 10000, 65535, 65536, (N - m) // 2, (N - m) // 2 + 1, N - m - 2, N - m - 1]
                                         if v + m < N)))
        x = np.zeros(N)
        x[i], x[i + m] = 1.0, -1.0
        c.call()
        t, d, e, n = at.mtie(x, taus=[float(k) for k in (m - 1, m) if k])
        c.close(d, ([1.0] if m > 1 else []) + [2.0], "mtie: the only window with both extremes", rtol=0, N=N, m=m, start=i)
        c.close(n, [N - k for k in (m - 1, m) if k], "mtie: n", rtol=0)
        c.call()
        v = at.tierms(x, taus=[float(m)])[1]
        k = (2.0 ** 2) + sum(1.0 for j in (i - m, i + m) if 0 <= j < N - m) + 0.0
        c.close(v[0] ** 2 * (N - m), k, "tierms of two impulses", rtol=1e-9, N=N, m=m, start=i)
        c.outcome(N, m, i)
    return fn


def fastints(nmax):
    """Integer samples of every width, up to the extremes of the type."""
    def fn(c):
        dt = c.choose("dtype", ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "float32"])
        N = c.choose("N", [4, 5, 8][:nmax])
        i = np.iinfo(dt) if dt != "float32" else None
        alpha = [i.min, 0, i.max] if i and i.bits < 64 else [-2 ** 53, 0, 2 ** 53] if i else [-2.0 ** 100, 0, 2.0 ** 100]
        fast(c, c.word("x", alpha[:2] if N == 8 else alpha, N), lambda v: np.array(v, dtype=dt))
    return fn


def harnesses(tier):
    T = tier == "thorough"
    hs = []
    for f in ("mtie", "tierms"):
        hs += [Harness("words/" + f, words(f, 9 if T else 7, [0, 1, -1])),
               Harness("words2/" + f, words(f, 13 if T else 10, [0, 1])),
               Harness("wordsfreq/" + f, wordsfreq(f, 8 if T else 6, [0, 1, -1])),
               Harness("spikes/" + f, spikes(f, 24 if T else 12)),
               Harness("sizes/" + f, sizes(f, range(2, 301 if T else 131), ("white", "walk", "drift"))),
               Harness("large/" + f, large(f, [257, 512, 513, 1000, 1024, 1025, 2500, 4097, 10000] + ([30000, 65537, 100001, 300001, 1000001] if T else
                                                                                                        [65537, 131073, 300001]),
                                           limit=(100000000 if T else 11000000) if f == "mtie" else None)),
               Harness("config/" + f, config(f, [12, 17]), bound=3 if T else 2)]
    hs += [Harness("lonely windows", lonely([4099, 20001, 70003] + ([131075, 300007] if T else []), 4e9 if T else 3.6e8)),
           Harness("permutations", permutations(8 if T else 6)),
           Harness("fast/words", fastwords(9 if T else 8, [0, 1, -1])),
           Harness("fast/integers", fastints(3 if T else 2)),
           Harness("fast/large", fastlarge([4096, 4097, 8191, 10000, 32769] + ([65537, 100000, 300001] if T else []))),
           Harness("fast/spikes", fastspikes(34 if T else 18)),
           Harness("fast/sizes", fastsizes(list(range(4, 140)) + [255, 256, 257, 511, 512, 513, 1000, 1024, 2049] + ([5000, 16384] if T else [])))]
    return hs


SPEC = dict(level="model_checking", harnesses=harnesses,
            rule="All words over {0,1,-1}, all orderings of N distinct values, every pair of positions of one maximum and one minimum, every "
                 "length with every window; distinct = distinct vector of deviations.",
            assumptions=["lengths above the sweep are covered at the listed values only",
                         "mtie_phase_fast is judged on its window excursions and counts (its tau labels are documented as incomplete)"])
