"""C06: invariances and relations."""
import numpy as np
import allantools as at
from ..engine import Harness
from .. import refs
from ..refs import deck, fdeck

FUNCS = refs.ALL_FUNCS + ["gradev", "gcodev"]
SLOW = ("mtotdev", "ttotdev", "htotdev")
SYMMETRIC = ["oadev", "mdev", "tdev", "ohdev", "totdev", "mtotdev", "ttotdev", "htotdev", "theo1", "mtie", "tierms", "gradev", "gcodev"]


def run(c, name, x, rate, dt, taus="all"):
    c.call()
    try:
        if name == "gcodev":
            return at.gcodev(x, x[::-1] * 1.0 if isinstance(x, np.ndarray) else x, rate=rate, data_type=dt, taus=taus)
        return getattr(at, name)(x, rate=rate, data_type=dt, taus=taus)
    except UserWarning:
        return None


def related(c, name, what, a, b, tf=1.0, df=1.0, atol=1e-9):
    if a is None or b is None:
        c.check(a is None and b is None, "%s, %s: only one of the two is refused" % (name, what))
        return
    c.close(b[0], np.asarray(a[0]) * tf, "%s, %s: taus" % (name, what), rtol=1e-12)
    if name == "gcodev":      # square root of a covariance that may cancel to zero
        atol = 1e6 * atol
    c.close(b[1], np.asarray(a[1]) * df, "%s, %s: deviation" % (name, what), rtol=1e-8, atol=atol)
    if name == "gradev":
        # the distances are differences of two nearly equal numbers for large n
        for q in (0, 1):
            c.close(b[2][q], np.asarray(a[2][q]) * df, "%s, %s: error" % (name, what), rtol=1e-6, atol=max(atol, 1e-12))
    else:
        c.close(b[2], np.asarray(a[2]) * df, "%s, %s: error" % (name, what), rtol=1e-8, atol=atol)
    c.close(b[3], a[3], "%s, %s: n" % (name, what), rtol=0)
    c.outcome(name, what, np.round(np.asarray(a[1], dtype=float), 6).tolist())


OPS = ["offset 1", "offset -1000", "offset 1e6", "negate", "scale 8", "scale 2^-60", "scale -3", "scale 1e-9", "scale 3.3e11", "ramp 1", "ramp -50",
       "drift 1", "drift -3", "reverse", "rate 10", "rate 0.25", "rate 1e6", "rate 1/3", "rate 3e9", "rate 1e-9", "rate 1/86400"]


def transform(c, name, x, op, dt, rate=1.0):
    """Transformed data and rate, with the factors for tau and deviation; None when not claimed."""
    N = len(x)
    k = np.arange(N, dtype=float)
    kind, _, arg = op.partition(" ")
    time_units = name in refs.TIME_UNITS
    if kind == "offset":
        if dt == "freq" and float(arg) > 1e5 and name in SLOW:
            return None
        return x + float(arg), rate, 1.0, 1.0
    if kind == "negate":
        return -x, rate, 1.0, 1.0
    if kind == "scale":
        s = {"8": 8.0, "2^-60": 2.0 ** -60, "-3": -3.0, "1e-9": 1e-9, "3.3e11": 3.3e11}[arg]
        return x * s, rate, 1.0, abs(s)
    if kind == "ramp":
        if dt == "freq":
            return (x + float(arg) * k, rate, 1.0, 1.0) if name in ("hdev", "ohdev", "htotdev") else None
        if name in ("mtie", "tierms") or name == "gcodev":
            return None
        return x + float(arg) * k, rate, 1.0, 1.0
    if kind == "drift":
        if dt == "freq" or name not in ("hdev", "ohdev", "htotdev"):
            return None
        return x + float(arg) * k * k, rate, 1.0, 1.0
    if kind == "reverse":
        if name not in SYMMETRIC:
            return None
        return x[::-1].copy(), rate, 1.0, 1.0
    if kind == "rate":
        r = {"1/3": 1.0 / 3, "1/86400": 1.0 / 86400}.get(arg) or float(arg)
        if dt == "freq":
            return x, rate * r, 1.0 / r, (1.0 / r if time_units else 1.0)
        return x, rate * r, 1.0 / r, (1.0 if time_units else r)
    raise ValueError(op)


def check(c, name, x, op, dt, rate=1.0, taus="all"):
    t = transform(c, name, x, op, dt, rate)
    if t is None:
        return
    x2, rate2, tf, df = t
    a = run(c, name, x, rate, dt, taus)
    b = run(c, name, x2, rate2, dt, taus)
    big = max(np.max(np.abs(x)) * df, np.max(np.abs(x2)))
    atol = 3e-13 * big * max(1.0, (rate2 if dt == "phase" else 1.0 / min(1.0, rate2)))
    if dt == "freq":
        atol *= len(x)
    related(c, name, op, a, b, tf, df, atol)


def words(nmax, alpha, funcs):
    def fn(c):
        name = c.choose("function", funcs)
        op = c.choose("change", OPS)
        dt = c.choose("data_type", ["phase", "freq"])
        N = c.choose("N", [nmax])
        x = np.array(c.word("x", alpha, N), dtype=float)
        check(c, name, x, op, dt)
    return fn


def sizes(ns, slowns):
    def fn(c):
        name = c.choose("function", FUNCS)
        op = c.choose("change", OPS)
        dt = c.choose("data_type", ["phase", "freq"])
        N = c.choose("N", slowns if name in SLOW else [n for n in ns if n <= 60] if name in ("pdev", "theo1") else ns)
        kind = c.choose("series", ["white", "walk"])
        rate = c.choose("rate", [1.0, 4.0])
        check(c, name, fdeck(kind, N, 6), op, dt, rate)
    return fn


def pairs_of_ops(ns):
    """Two transformations one after the other."""
    def fn(c):
        name = c.choose("function", FUNCS)
        N = c.choose("N", ns)
        dt = c.choose("data_type", ["phase", "freq"])
        ops = ["offset -1000", "negate", "scale 8", "ramp 1", "drift 1", "reverse", "rate 10", "rate 1/3"]
        o1 = c.choose("first change", ops)
        o2 = c.choose("second change", ops)
        x = fdeck("white", N, 7)
        t1 = transform(c, name, x, o1, dt)
        if t1 is None:
            return
        t2 = transform(c, name, t1[0], o2, dt, t1[1])
        if t2 is None:
            return
        a = run(c, name, x, 1.0, dt)
        b = run(c, name, t2[0], t2[1], dt)
        atol = 1e-11 * max(np.max(np.abs(x)) * t1[3] * t2[3], np.max(np.abs(t2[0]))) * max(1, t2[1]) * (N if dt == "freq" else 1)
        related(c, name, o1 + " + " + o2, a, b, t1[2] * t2[2], t1[3] * t2[3], atol)
    return fn


def identity(c, x, rate, dt, taus):
    def get(name):
        return run(c, name, x, rate, dt, taus)

    def sub(r, m1=True):
        keep = np.round(np.asarray(r[0]) * rate) == 1
        return [np.asarray(r[q])[keep] if q != 2 else None for q in (0, 1, 2, 3)]

    def same(a, b, what, rt=1e-9):
        for q in (0, 1, 3):
            c.close(a[q], b[q], what, rtol=rt, atol=1e-11 * np.max(np.abs(x)) * max(1, rate) * len(x) if q == 1 else 0)

    md, td = get("mdev"), get("tdev")
    if md is not None or td is not None:
        same((md[0], np.asarray(md[0]) * md[1] / np.sqrt(3), None, md[3]), td, "tdev = tau*mdev/sqrt(3)")
    if len(x) < 60:
        mt, tt = get("mtotdev"), get("ttotdev")
        if mt is not None or tt is not None:
            same((mt[0], np.asarray(mt[0]) * mt[1] / np.sqrt(3), None, mt[3]), tt, "ttotdev = tau*mtotdev/sqrt(3)")
    oa, gr = get("oadev"), (get("gradev") if len(x) < 33 or taus != "all" else None)
    if len(x) < 33 or taus != "all":
        if oa is not None or gr is not None:
            same(oa, gr, "gradev = oadev on gap-free data")
    one = [1.0 / rate]
    taus_all, taus = taus, one
    N = len(x) + (dt == "freq")
    res = {n: run(c, n, x, rate, dt, one) for n in ("adev", "oadev", "mdev", "pdev", "hdev", "ohdev", "htotdev")}
    if N >= 4:
        for n in ("oadev", "mdev", "pdev"):
            same(res["adev"], res[n], "adev = %s at m = 1" % n)
            c.close(res["adev"][2], res[n][2], "adev = %s at m = 1 (error)" % n, rtol=1e-8, atol=1e-11 * np.max(np.abs(x)) * max(1, rate) * len(x))
    if N >= 5:
        same(res["hdev"], res["ohdev"], "hdev = ohdev at m = 1")
        same(res["hdev"], res["htotdev"], "hdev = htotdev at m = 1")
    c.outcome(N, None if oa is None else np.round(oa[1], 6).tolist())


def idwords(nmax, alpha):
    def fn(c):
        N = c.choose("N", range(4, nmax + 1))
        dt = c.choose("data_type", ["phase", "freq"])
        x = np.array(c.word("x", alpha, N), dtype=float)
        identity(c, x, 1.0, dt, "all")
    return fn


def idsizes(ns):
    def fn(c):
        N = c.choose("N", ns)
        dt = c.choose("data_type", ["phase", "freq"])
        kind = c.choose("series", ["white", "walk", "drift"])
        rate = c.choose("rate", [1.0, 10.0, 0.3])
        taus = c.choose("taus", ["all", None, "decade"])
        identity(c, fdeck(kind, N, 8), rate, dt, taus)
    return fn


def harnesses(tier):
    T = tier == "thorough"
    fast = [f for f in FUNCS if f not in SLOW]
    return [Harness("words", words(7 if T else 5, [0, 1, -1], fast), doc="words of length %d x 18 changes" % (7 if T else 5)),
            Harness("words slow", words(8 if T else 7, [0, 1], list(SLOW))),
            Harness("sizes", sizes((list(range(4, 60)) + [64, 65, 100, 127, 128, 129, 200, 256, 300, 513]) if T else [4, 5, 6, 7, 8, 9, 10, 12, 13, 15, 16, 19, 24, 31, 32, 33, 50, 65, 128, 200], [7, 10, 16, 23] + ([31, 40] if T else []))),
            Harness("two changes", pairs_of_ops([9, 16] + ([23, 30] if T else []))),
            Harness("relations/words", idwords(7 if T else 5, [0, 1, -1])),
            Harness("relations/sizes", idsizes(list(range(4, 50)) + [64, 100, 128] + ([500, 1000] if T else [300])))]


SPEC = dict(level="model_checking", harnesses=harnesses,
            rule="All words of the stated length and one witness series per length, each with every transformation (and every pair of "
                 "transformations); distinct = distinct (function, transformation, deviations).",
            assumptions=["pdev, adev and hdev are not required to be symmetric under time reversal (they skip end points by definition)"])
