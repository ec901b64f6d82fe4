"""C02: total deviations and Theo1 = published definitions."""
from ..engine import Harness
from ..devharness import words, wordsfreq, quad, sizes, large, few, config

# name: (word length over {0,1,-1}, over {0,1}, freq words, basis N, sweep N, large N list, limit on N*m)
QUICK = dict(
    totdev=(7, 10, 6, 22, range(2, 131), [257, 512, 513, 1000, 1024, 1025, 2049, 4096, 10000, 32769, 65537, 100000, 131073, 300001], None),
    mtotdev=(6, 8, 5, 11, list(range(2, 34)) + [36, 37, 40, 41], [64, 99, 100, 101, 128, 151, 257, 513, 1001, 1025, 2049, 2601, 5001], 5300),
    ttotdev=(6, 7, 5, 10, list(range(2, 28)) + [31, 36], [64, 99, 100, 101, 128, 257, 513, 1025, 2601], 2700),
    htotdev=(6, 8, 5, 11, list(range(2, 34)) + [36, 37, 40, 41], [64, 99, 100, 101, 128, 151, 257, 513, 1001, 1025, 2049, 2601, 5001], 5300),
    theo1=(6, 8, 6, 14, list(range(2, 45)) + [50, 51, 64, 65], [99, 100, 128, 150, 257, 513, 1001, 2049, 4100, 10001], 40000))
THOROUGH = dict(
    totdev=(9, 13, 8, 40, range(2, 401), [513, 1000, 1025, 4096, 10000, 32769, 100000, 1000000], None),
    mtotdev=(8, 11, 7, 18, range(2, 91), [99, 100, 128, 257, 400, 600, 1000, 2049, 4100, 10001], 30000),
    ttotdev=(8, 10, 6, 15, range(2, 61), [99, 128, 257, 400, 1025, 2049], 15000),
    htotdev=(8, 11, 7, 18, range(2, 91), [99, 100, 128, 257, 400, 600, 1000, 2049, 4100, 10001], 30000),
    theo1=(8, 11, 7, 22, range(2, 131), [150, 257, 513, 1000, 2000, 4100, 10001, 65537], 300000))

FEW = dict(totdev=[64, 100, 128, 129, 257, 400, 600], mtotdev=[22, 32, 33, 50, 64, 65, 100, 129, 150],
           ttotdev=[22, 32, 33, 50, 64, 65, 100, 129], htotdev=[22, 32, 33, 50, 64, 65, 100, 129, 150],
           theo1=[64, 66, 100, 128, 130, 200, 256, 258, 400, 600])

FAR = dict(totdev=[1023, 1024, 1025, 2050, 5000, 10001, 33000, 100003], mtotdev=[200, 257, 513, 700, 1100, 2050], ttotdev=[257, 700, 1100],
           htotdev=[200, 257, 513, 700, 1100, 2050], theo1=[800, 1026, 2050, 4098, 10002, 20000])
FAR_T = dict(totdev=[300007], mtotdev=[3001, 4098, 6000], ttotdev=[2050, 4098], htotdev=[3001, 4098, 6000], theo1=[33000, 66000, 131080])


def harnesses(tier):
    T = tier == "thorough"
    hs = []
    for f, (w3, w2, wf, q, sw, lg, lim) in sorted((THOROUGH if T else QUICK).items()):
        hs.append(Harness("words/" + f, words(f, w3, [0, 1, -1]), doc="N=2..%d over {0,1,-1}, all m" % w3))
        hs.append(Harness("words2/" + f, words(f, w2, [0, 1]), doc="N=2..%d over {0,1}, all m" % w2))
        hs.append(Harness("wordsfreq/" + f, wordsfreq(f, wf, [0, 1, -1]), doc="frequency words N<=%d, rate 2" % wf))
        hs.append(Harness("quad/" + f, quad(f, q), doc="basis of the quadratic form, N<=%d, all m" % q))
        hs.append(Harness("sizes/" + f, sizes(f, list(sw)), doc="every N up to %d, every m, phase and frequency" % max(sw)))
        hs.append(Harness("large/" + f, large(f, lg, lim), doc="N in %s, m with N*m <= %s" % (lg, lim)))
        span = 1 if f in ("theo1", "totdev") else 3
        ml = sorted(set(FEW[f] + (list(range(2, 40)) + [100, 128, 200, 256] if T else [])))
        hs.append(Harness("few/" + f, few(f, ml, span, 5 if T else 3), doc="averaging factors %s with few terms" % ml))
        ml = FAR[f] + ((FAR_T[f]) if T else [])
        hs.append(Harness("far/" + f, few(f, ml, span, 1, ["walk"], 1 if f != "totdev" else 2), doc="averaging factors %s with few terms" % ml))
        hs.append(Harness("config/" + f, config(f, [14, 19, 31] if T else [14, 19]), bound=3 if T and f == "totdev" else 2,
                          doc="configuration space, deviation bound"))
    return hs


SPEC = dict(level="model_checking", harnesses=harnesses,
            rule="As C01: words, basis pairs, one witness series per length, configuration departures. Distinct = distinct "
                 "vector of deviations.",
            assumptions=["dev^2 is a quadratic form of the data (no data-dependent branch) beyond the enumerated words",
                         "lengths and averaging factors above the sweeps are covered at the listed values only",
                         "agreement to 1e-9 relative of a reference in 80-bit arithmetic"])
