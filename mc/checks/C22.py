"""C22: too short or invalid input is refused; every row rests on n >= 2."""
import numpy as np
import allantools as at
from allantools import ci
from ..engine import Harness
from .. import devcheck as dc, refs
from ..refs import deck, fdeck

FUNCS = refs.ALL_FUNCS + ["gradev", "gcodev", "three_cornered_hat_phase"]
SLOW = ("mtotdev", "ttotdev", "htotdev")


def count(name, N, m, dt):
    """Number of terms that N phase points allow at averaging factor m (0 when the estimator excludes m)."""
    if m < 1 or m >= N:
        return 0
    if name == "adev":
        return max(0, -((2 * m - N) // m)) if N > 2 * m else 0
    if name == "hdev":
        return -((3 * m - N) // m) if N > 3 * m else 0
    if name in ("oadev", "gradev", "gcodev", "three_cornered_hat_phase", "pdev"):
        return max(0, N - 2 * m)
    if name == "ohdev":
        return max(0, N - 3 * m)
    if name in ("mdev", "tdev"):
        return max(0, N - 3 * m + 1)
    if name == "totdev":
        return max(0, N - 2)
    if name in ("mtotdev", "ttotdev"):
        return N - 3 * m + 1 if 3 * m <= N else 0
    if name == "htotdev":
        if m == 1:
            return N - 3 if N >= 4 else 0
        return N - 3 * m if 3 * m <= N - 1 else 0
    if name == "theo1":
        return (N - m) * m // 2 if m % 2 == 0 else 0
    return N - m            # mtie, tierms


def run(c, name, d, rate, dt, taus):
    c.call()
    if name == "gcodev":
        return at.gcodev(d, np.asarray(d)[::-1] * 1.0, rate=rate, data_type=dt, taus=taus)
    if name == "three_cornered_hat_phase":
        e = np.asarray(d)[::-1] * 1.0
        return at.three_cornered_hat_phase(d, e, -np.asarray(d) - e, rate, taus, at.oadev)
    return getattr(at, name)(d, rate=rate, data_type=dt, taus=taus)


def judge(c, name, d, rate, dt, taus, ms):
    N = len(d) + (dt == "freq")
    want = [(m, count(name, N, m, dt)) for m in sorted(set(ms))]
    want = [(m, n) for m, n in want if n >= 2]
    try:
        res = run(c, name, d, rate, dt, taus)
    except UserWarning:
        c.check(not want, "%s: refused although %s have two terms" % (name, [m for m, n in want][:9]), N=N, taus=taus)
        c.outcome(name, N, "refused")
        return
    c.check(len(res) == 4, "%s: a result is (taus, deviations, errors, ns)" % name)
    t, dev, err, ns = res
    t, dev, ns = [np.asarray(v, dtype=float) for v in (t, dev, ns)]
    errs = [np.asarray(e, dtype=float) for e in (err if name == "gradev" else [err])]
    c.check(len(t) > 0, "%s: an empty result" % name, N=N, taus=taus)
    c.check(len(want) > 0, "%s: a result although no averaging factor has two terms" % name, N=N, taus=taus, res=res)
    c.check(t.ndim == 1 and t.shape == dev.shape == ns.shape and all(e.shape == t.shape for e in errs),
            "%s: lengths of taus, deviations, errors and n differ" % name, shapes=[t.shape, dev.shape, ns.shape] + [e.shape for e in errs])
    c.check(bool(np.all(ns >= 2)), "%s: a row rests on fewer than two terms" % name, n=ns)
    c.close(t, [m / rate for m, n in want], "%s: taus of the rows with two terms" % name, rtol=1e-12)
    c.close(ns, [n for m, n in want], "%s: n" % name, rtol=0)
    c.check(bool(np.all(np.isfinite(dev)) and np.all(dev >= 0)), "%s: a deviation is negative or not finite" % name, dev=dev)
    c.check(all(bool(np.all(np.isfinite(e)) and np.all(e >= 0)) for e in errs), "%s: an error is negative or not finite" % name, err=errs)
    c.outcome(name, N, dt, [w[0] for w in want])


def types_of(name):
    return ["phase"] if name == "three_cornered_hat_phase" else ["phase", "freq"]


def lengths(nmax, slowmax):
    """Every length from 2 up x kind of samples x data type x tau request."""
    def fn(c):
        name = c.choose("function", FUNCS)
        dt = c.choose("data_type", types_of(name))
        N = c.choose("N", range(2, (slowmax if name in SLOW else nmax) + 1))
        kind = c.choose("series", ["white", "walk", "zeros", "constant", "tiny", "huge"])
        n = N + (dt == "freq")
        rq = c.choose("taus", ["all", "octave", "decade", None, "last", "beyond", "mixed"])
        d = {"white": lambda: fdeck("white", N, 21), "walk": lambda: fdeck("walk", N, 21),
             "zeros": lambda: np.zeros(N), "constant": lambda: np.full(N, -3.25), "tiny": lambda: np.array(deck("white", N, 22)) * 1e-130,
             "huge": lambda: np.array(deck("white", N, 22)) * 1e130}[kind]()
        if kind in ("zeros", "constant", "tiny", "huge") and (rq not in ("all", "mixed") or N > 20):
            return
        t = {"last": [n - 1.0], "beyond": [float(n), n + 3.0], "mixed": [n / 2.0, -1.0, 0.0, 1.0, 2.0, n + 1.0, float(n - 1)]}.get(rq, rq)
        if isinstance(t, list):
            ms = [int(np.rint(v)) for v in t]
        else:
            ms = dc.ms_of_taus(t, 1.0, n)
        judge(c, name, d, 1.0, dt, t, ms)
    return fn


def single(nmax, slowmax):
    """Every single averaging factor of every length."""
    def fn(c):
        name = c.choose("function", FUNCS)
        dt = c.choose("data_type", types_of(name))
        N = c.choose("N", range(2, (slowmax if name in SLOW else nmax) + 1))
        m = c.choose("m", range(0, N + 3))
        rate = c.choose("rate", [1.0, 10.0, 1e-3, 1e-9, 2e9])
        judge(c, name, np.array(deck("walk", N, 23), dtype=float), rate, dt, [m / rate], [m])
    return fn


def words(nmax, alpha):
    def fn(c):
        name = c.choose("function", FUNCS)
        dt = c.choose("data_type", types_of(name))
        N = c.choose("N", range(2, nmax + 1))
        d = np.array(c.word("x", alpha, N), dtype=float)
        n = N + (dt == "freq")
        judge(c, name, d, 1.0, dt, "all", range(1, n + 1))
    return fn


def gaps(nmax):
    """All patterns of missing samples: gradev keeps only averaging factors with two complete terms."""
    def fn(c):
        N = c.choose("N", range(3, nmax + 1))
        have = c.word("present", [True, False], N)
        d = np.array([v if h else np.nan for v, h in zip(deck("walk", N, 24), have)], dtype=float)
        want = []
        for m in range(1, N):
            k = sum(1 for i in range(N - 2 * m) if have[i] and have[i + m] and have[i + 2 * m])
            if k >= 2:
                want.append((m, k))
        c.call()
        try:
            t, dev, (lo, hi), ns = at.gradev(d, rate=1.0, data_type="phase", taus="all")
        except UserWarning:
            c.check(not want, "gradev: refused although there are complete terms", present=have)
            return
        c.close(t, [m for m, k in want], "gradev: averaging factors with two complete terms", present=have)
        c.close(ns, [k for m, k in want], "gradev: n", rtol=0)
        c.check(len(dev) == len(lo) == len(hi) == len(want), "gradev: lengths", got=[len(dev), len(lo), len(hi)])
        # error bars: NaN when edf_simple has no positive value for so few present samples
        ok = np.array([sum(have) > 2 * m for m, k in want])
        for a in (dev, np.asarray(lo)[ok], np.asarray(hi)[ok]):
            c.check(bool(np.all(np.isfinite(a)) and np.all(np.asarray(a) >= 0)), "gradev: not finite or negative", got=a)
        c.outcome(have)
    return fn


def refused(c, what, f, kinds=(Exception,)):
    c.call()
    try:
        r = f()
    except kinds as e:
        c.compared += 1
        c.outcome(what, type(e).__name__)
        return
    c.fail("%s is accepted" % what, result=r)


def invalid(c):
    """Zero rate and unknown data types."""
    name = c.choose("function", [f for f in FUNCS if f != "three_cornered_hat_phase"])
    N = c.choose("N", [5, 16])
    d = np.array(deck("walk", N, 25), dtype=float)
    taus = c.choose("taus", ["all", None, [1.0, 2.0], np.array([1.0])])
    what = c.choose("fault", ["rate 0", "rate 0.0", "rate -0.0", "rate int64", "rate float32", "rate float64", "rate uint8", "rate array", "rate False", "Phase", "frequency", "", "FREQ", "phas", "y", None, 3, "ph ase", "freq "])
    box = c.choose("container", [np.array, list])
    if isinstance(what, str) and what.startswith("rate"):
        dt = c.choose("data_type", ["phase", "freq"])
        rate = {"rate 0": 0, "rate 0.0": 0.0, "rate -0.0": -0.0, "rate int64": np.int64(0), "rate float32": np.float32(0), "rate float64": np.float64(0),
                "rate uint8": np.uint8(0), "rate array": np.array(0.0), "rate False": False}[what]
        refused(c, "%s(rate=%r)" % (name, rate), lambda: run(c, name, box(d), rate, dt, taus))
    else:
        refused(c, "%s(data_type=%r)" % (name, what), lambda: run(c, name, box(d), 1.0, what, taus))


def dataset(c):
    """The same refusals reach the caller of Dataset.compute and leave no made-up result."""
    name = c.choose("function", refs.ALL_FUNCS + ["gradev"])
    fault = c.choose("fault", ["short", "rate 0", "data_type", "taus"])
    d = np.array(deck("walk", 2 if fault == "short" else 12, 26), dtype=float)
    ds = at.Dataset(d, 0.0 if fault == "rate 0" else 1.0, "fase" if fault == "data_type" else "phase", [500.0] if fault == "taus" else "all")
    if fault == "short" and any(count(name, 2, m, "phase") >= 2 for m in (1, 2)):
        return
    refused(c, "Dataset.compute(%s) with %s" % (name, fault), lambda: ds.compute(name), (UserWarning,) if fault in ("short", "taus") else (Exception,))
    c.check(all(ds.out[k] is None for k in ("taus", "stat", "stat_err", "stat_n")), "Dataset keeps a result of a refused call", out=ds.out)


def devtypes(c):
    x = np.array(deck("walk", 120, 27), dtype=float)
    dev = c.choose("dev_type", ["totdev", "mtotdev", "htotdev", "theo1", "mtie", "tierms", "pdev", "gradev", "foo", "", "ADEV", "adev ", "avar", None, 1])
    dt = c.choose("data_type", ["phase", "freq"])
    af = c.choose("af", [1, 2])
    refused(c, "confidence_interval_noiseID(dev_type=%r)" % dev, lambda: ci.confidence_interval_noiseID(x, 1.0, af, dev_type=dev, data_type=dt))


def fewpoints(nmax):
    """Noise identification on every series length and averaging factor: refused exactly below 30 averaged points."""
    def fn(c):
        af = c.choose("af", [1, 2, 3, 4, 7])
        dt = c.choose("data_type", ["phase", "freq"])
        N = c.choose("N", range(max(4, 2 * af), nmax * af + 3))
        kind = c.choose("series", ["white", "walk"])
        who = c.choose("entry", ["autocorr_noise_id", "adev", "oadev", "mdev", "hdev", "ohdev"])
        x = np.array(deck(kind, N, 28), dtype=float)
        M = -(-N // af) if dt == "phase" else N // af
        if who == "autocorr_noise_id":
            f = lambda: at.autocorr_noise_id(x, af, data_type=dt)
        else:
            f = lambda: at.confidence_interval_noiseID(x, 1.0, af, dev_type=who, data_type=dt)
        if M < 30:
            refused(c, "%s on %d averaged points" % (who, M), f)
        else:
            c.call()
            try:
                r = f()
            except (NotImplementedError, AssertionError):
                if who == "autocorr_noise_id":
                    raise
                return          # an exponent outside the range of the EDF formulas is refused
            c.check(all(np.isfinite(v) for v in r), "%s on %d averaged points: not finite" % (who, M), got=r)
            c.outcome(who, N, af, np.round(np.array(r, dtype=float), 8).tolist())
    return fn


def harnesses(tier):
    T = tier == "thorough"
    return [Harness("lengths", lengths(120 if T else 40, 30 if T else 16)),
            Harness("single factors", single(40 if T else 17, 24 if T else 13)),
            Harness("words", words(9 if T else 7, [0, 1])), Harness("words3", words(6 if T else 4, [0, 1, -1])),
            Harness("gaps", gaps(15 if T else 11)),
            Harness("invalid", invalid), Harness("dataset", dataset), Harness("dev types", devtypes), Harness("few points", fewpoints(36 if T else 32))]


SPEC = dict(level="model_checking", harnesses=harnesses,
            rule="All lengths, averaging factors, words and gap patterns within the bounds for every deviation; distinct = distinct (function, length, rows kept).",
            assumptions=["series of 0 or 1 points are not judged", "samples up to 1e130 (squares representable)"])
