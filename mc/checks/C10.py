"""C10: confidence intervals."""
import math
import numpy as np
import allantools as at
from ..engine import Harness
from .. import refs, edfref

SIGMA = math.erf(1 / math.sqrt(2))
CIS = [None, 0.5, 0.6, SIGMA, 0.683, 0.75, 0.8, 0.9, 0.95, 0.975, 0.99, 0.999, 0.9999, 0.999999, 1 - 1e-8, 1 - 1e-10]
EDFS = [0.3, 0.5, 0.9, 1, 1.5, 2, 2.7, 3, 5, 7.31, 10, 20, 33.3, 50, 99, 100, 101, 200, 500, 999.5, 1000, 3000, 1e4, 1e5, 1e6, 1.5e7, 2e8]


def interval(devs, edfs):
    def fn(c):
        dev = c.choose("dev", devs)
        edf = c.choose("edf", edfs)
        ci = c.choose("ci", CIS)
        form = c.choose("form", ["plain", "numpy", "keywords"])
        c.call()
        if form == "keywords":
            lo, hi = at.confidence_interval(dev=dev, edf=edf, **({} if ci is None else dict(ci=ci)))
        else:
            a = (dev, edf) if form == "plain" else (np.float64(dev), np.float64(edf))
            lo, hi = at.confidence_interval(*a) if ci is None else at.confidence_interval(*(a + (ci,)))
        p = SIGMA if ci is None else ci
        wl, wh = refs.chi2_bounds(dev, edf, p)
        c.close([lo, hi], [wl, wh], "confidence_interval", rtol=2e-8 if p < 0.99999 else 1e-5)
        c.check(0 <= lo <= hi, "confidence_interval: order")
        if p >= 0.6 and edf >= 1 and dev > 0:
            c.check(lo < dev < hi, "confidence_interval does not bracket the deviation", lo=lo, hi=hi)
        c.outcome(lo, hi)
    return fn


def monotone(devs):
    """Widens with confidence and with falling EDF."""
    def fn(c):
        dev = c.choose("dev", devs)
        edf = c.choose("edf", EDFS)
        prev = None
        for p in CIS[1:]:
            c.call()
            lo, hi = at.confidence_interval(dev, edf, p)
            if prev is not None and p != 0.683:
                c.check(lo <= prev[0] * (1 + 1e-9) and hi >= prev[1] * (1 - 1e-9), "interval does not widen with confidence", p=p, edf=edf)
            prev = (lo, hi)
        p = c.choose("ci", CIS[3:])
        prev = None
        for e in EDFS:
            if e < 2:
                continue
            c.call()
            lo, hi = at.confidence_interval(dev, e, p) if p else at.confidence_interval(dev, e)
            if prev is not None:
                c.check(hi - lo <= (prev[1] - prev[0]) * (1 + 1e-9), "interval does not shrink with edf", p=p, edf=e)
            prev = (lo, hi)
        c.outcome(lo, hi)
    return fn


TYPES = ["adev", "oadev", "mdev", "tdev", "hdev", "ohdev"]
BS = [0.6, 0, -0.5, -1, -2, -3, -4, -5, -6]


def series(b, N, dt, seed):
    x = refs.colour(b, N + 1, seed) * 1e-9
    return np.diff(x) if dt == "freq" else x[:N]


def noiseid(ns, afs, bound_ci, bs=BS, dts=("phase", "freq")):
    """Every deviation type x noise colour x averaging factor x data type against the composition of the reference steps."""
    def fn(c):
        dev_type = c.choose("dev_type", TYPES)
        dt = c.choose("data_type", list(dts))
        b = c.choose("phase spectrum exponent", bs)
        N = c.choose("N", ns)
        af = c.choose("af", afs)
        ci = c.choose("ci", bound_ci, dev=True)
        form = c.choose("af as", ["int", "float", "numpy"], dev=True)
        x = series(b, N, dt, 1 + len(dev_type))
        hd = dev_type in ("hdev", "ohdev")
        r = refs.noise_id(x, af, dt, 0, 3 if hd else 2)
        a = {"int": af, "float": float(af), "numpy": np.int64(af)}[form]
        kw = {} if ci is None else dict(ci=ci)
        if r is None:
            c.call()
            try:
                got = at.confidence_interval_noiseID(x, 1e-9, a, dev_type=dev_type, data_type=dt, **kw)
            except NotImplementedError:
                return
            c.fail("confidence_interval_noiseID on fewer than 30 averaged points", got=got)
        alpha, margin = r[0], r[4]
        d = 3 if hd else 2
        if margin < 1e-5 or alpha > 2 or alpha + 2 * d <= 1 or alpha < -4:
            return
        n = N if dt == "phase" else N + 1
        vals, case = edfref.edf(alpha, d, af, n, dev_type in ("oadev", "mdev", "tdev", "ohdev"), dev_type in ("mdev", "tdev"))
        if not vals:
            return
        c.call()
        got = at.confidence_interval_noiseID(x, 2.5e-9, a, dev_type=dev_type, data_type=dt, **kw)
        p = SIGMA if ci is None else ci
        want = [refs.chi2_bounds(2.5e-9, float(v), p) for v in vals]
        ok = any(abs(got[0] - w[0]) <= 1e-6 * w[0] and abs(got[1] - w[1]) <= 1e-6 * w[1] for w in want)
        c.check(ok, "confidence_interval_noiseID: not the interval of the identified noise type", got=got, want=want, alpha=alpha, edf=[float(v) for v in vals],
                case=case, n=n, af=af)
        c.outcome(dev_type, dt, alpha, case, round(float(vals[0]), 6))
    return fn


def defaults():
    def fn(c):
        b = c.choose("b", [0, -2, -4])
        af = c.choose("af", [1, 4])
        x = series(b, 300, "phase", 3)
        c.call(3)
        g1 = at.confidence_interval_noiseID(x, 1.0, af)
        g2 = at.confidence_interval_noiseID(x, 1.0, af, "adev", "phase", SIGMA)
        c.close(g1, g2, "defaults of confidence_interval_noiseID", rtol=1e-12)
        bad = c.choose("unsupported", ["mtotdev", "totdev", "theo1", "xyz", "ADEV", "pdev", "mtie"])
        try:
            g = at.confidence_interval_noiseID(x, 1.0, af, dev_type=bad)
        except NotImplementedError:
            return
        c.fail("confidence_interval_noiseID accepts dev_type %s" % bad, got=g)
    return fn


def harnesses(tier):
    T = tier == "thorough"
    devs = [1.0, 3.7e-12, 1e5, 1e-20, 0.0, 1e-60, 1e40]
    return [Harness("interval", interval(devs, EDFS + ([k / 4.0 for k in range(2, 400)] if T else [k / 2.0 for k in range(2, 60)])), doc="dev x edf x confidence"),
            Harness("monotone", monotone(devs[:2])),
            Harness("noise id", noiseid([95, 300, 640, 1025] + ([2000, 10007] if T else []), [1, 2, 3, 4, 8, 10, 20, 32] + ([5, 16, 33, 50, 64, 100, 300] if T else []),
                                        [None, 0.9, 0.5, 0.95, 0.999]), bound=2 if T else 1),
            Harness("noise id long", noiseid([2500, 10007, 33000], [1, 7, 33, 64, 100, 300], [None], [0, -1, -2, -4], ["phase"] if not T else ["phase", "freq"]), bound=0),
            Harness("defaults", defaults())]


SPEC = dict(level="model_checking", harnesses=harnesses,
            rule="dev x edf x confidence grid; deviation type x data type x noise colour x length x averaging factor; distinct = distinct "
                 "(type, data type, identified noise, EDF case, EDF) or interval.",
            assumptions=["confidence factors below 0.5 are not judged (the function treats p and 1-p alike)",
                         "series within 1e-5 of a noise-identification threshold, or identified outside the range of the EDF algorithm, are not judged",
                         "scipy.special inverse incomplete gamma functions are trusted"])
