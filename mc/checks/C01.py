"""C01: difference-based deviations = published estimators."""
from ..engine import Harness
from ..devharness import words, wordsfreq, quad, sizes, large, few, config, offset

FUNCS = ["adev", "oadev", "mdev", "tdev", "hdev", "ohdev", "pdev"]

FEW = [16, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 200, 255, 256, 257, 300]


def harnesses(tier):
    T = tier == "thorough"
    hs = []
    A3, A2 = [0, 1, -1], [0, 1]
    for f in FUNCS:
        hs.append(Harness("words/" + f, words(f, 9 if T else 7, A3), doc="N=2..%d over {0,1,-1}, all m" % (9 if T else 7)))
        hs.append(Harness("words2/" + f, words(f, 13 if T else 10, A2), doc="N<=%d over {0,1}, all m" % (13 if T else 10)))
        hs.append(Harness("wordsfreq/" + f, wordsfreq(f, 8 if T else 6, A3), doc="frequency words over {0,1,-1}, rate 2"))
        if f != "pdev":
            hs.append(Harness("quad/" + f, quad(f, 40 if T else 22), doc="basis of the quadratic form, N<=%d, all m" % (40 if T else 22)))
            hs.append(Harness("sizes/" + f, sizes(f, range(2, 401 if T else 131)), doc="every N, every m, phase and frequency"))
            hs.append(Harness("large/" + f, large(f, [257, 300, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2500, 4096, 5000, 8191,
                                                      8193, 10000, 16385, 32768, 65537, 100000, 131073, 300001] + ([524289, 1000001] if T else [1000001] if f in ("mdev", "adev") else []))))
        else:
            hs.append(Harness("quad/" + f, quad(f, 20 if T else 13), doc="basis of the quadratic form, all m"))
            hs.append(Harness("sizes/" + f, sizes(f, range(2, 121 if T else 61)), doc="every N, every m, phase and frequency"))
            hs.append(Harness("large/" + f, large(f, [128, 257, 513, 1000, 1025, 2048, 4097, 10001, 33000, 65537, 131073], limit=1000000 if T else 140000)))
        if f != "pdev":
            offs = [2.0 ** 30, -2.0 ** 40] + ([2.0 ** 53, -2.0 ** 53, 2.0 ** 20, -2.0 ** 12] if f in ("adev", "oadev", "hdev", "ohdev") else [])
            hs.append(Harness("offset/" + f, offset(f, [7, 12, 25, 100] + ([1000] if len(offs) > 2 else []), offs),
                              doc="one impulse on an offset of up to 2^53"))
        ml = FEW + (list(range(2, 60)) + [333, 512, 777, 1024] if T else [])
        hs.append(Harness("few/" + f, few(f, sorted(set(ml)), 3 if f in ("mdev", "tdev", "hdev", "ohdev") else 2),
                          doc="averaging factors %s with few terms" % ml))
        hs.append(Harness("config/" + f, config(f, [12, 17, 40] if T else [12, 17]), bound=3 if T else 2,
                          doc="configuration space, deviation bound"))
    return hs


SPEC = dict(level="model_checking", harnesses=harnesses,
            rule="Series: all words over small alphabets, all basis pairs e_i+e_j, one witness series per length; all averaging "
                 "factors; configuration departures up to the bound. Distinct = distinct vector of deviations.",
            assumptions=["dev^2 is a quadratic form of the data (no data-dependent branch) beyond the enumerated words",
                         "lengths above the sweep are covered at the listed values only",
                         "agreement to 1e-9 relative of a reference in 80-bit arithmetic"])
