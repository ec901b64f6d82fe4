"""C18: ITU-T masks: every segment, both sides of every boundary, all number types."""
import fractions
import numpy as np
import allantools as at
from allantools import mask
from ..engine import Harness

NS = 1e-9
# (upper limit of the segment in s, a, b): limit = a + b*tau, in ns (G.811 table 1/2, G.8272 tables 1-4, G.8272.1 tables 1/2)
TABLE = {
    "prc_tdev": [(100, 3, 0), (1000, 0, 0.03), (None, 30, 0)],
    "prc_mtie": [(1000, 25, 0.275), (None, 290, 0.01)],
    "eprtc_tdev": [(30e3, 1, 0), (300e3, 0, 3.33333e-5), (None, 10, 0)],
    "eprtc_mtie": [(1, 4, 0), (100, 3.89, 0.11114), (400000, 15, 0.0375e-3), (None, 30, 0)],
    "prtcA_tdev": [(100, 3, 0), (1000, 0, 0.03), (None, 30, 0)],
    "prtcB_tdev": [(100, 1, 0), (500, 0, 0.01), (None, 5, 0)],
    "prtcA_mtie": [(273, 25, 0.275), (None, 100, 0)],
    "prtcB_mtie": [(54.5, 25, 0.275), (None, 40, 0)],
}
NAMES = sorted(TABLE)


def want(name, tau):
    """The limits allowed at tau: one, or the two that meet if tau is a boundary."""
    tau = float(tau)
    out, low = [], 0.0
    for hi, a, b in TABLE[name]:
        if low <= tau and (hi is None or tau <= hi):
            out.append(a * NS + b * NS * tau)
        low = hi
    return out


def value(c, name, tau):
    c.call()
    v = getattr(mask, name)(tau)
    c.check(np.ndim(v) == 0 and np.isfinite(v), "%s: not a number" % name, got=v, tau=tau)
    return float(v)


def judge(c, name, tau):
    v = value(c, name, tau)
    w = want(name, tau)
    c.compared += 1
    if not any(abs(v - x) <= 1e-9 * x for x in w):
        c.fail("%s: wrong limit" % name, tau=float(tau), got=v, want=w)
    return v


def boundaries():
    return sorted({float(s[0]) for t in TABLE.values() for s in t if s[0]})


def grid(per_decade):
    """A geometric grid over all taus, cut in blocks."""
    def fn(c):
        name = c.choose("mask", NAMES)
        dec = c.choose("decade", list(range(-9, 13)))
        last = None
        for k in range(per_decade):
            tau = 10.0 ** (dec + k / float(per_decade))
            v = judge(c, name, tau)
            if last is not None:
                # non-decreasing within the rounding of the published coefficients
                c.check(v >= last * (1 - 1e-3), "%s decreases" % name, tau=tau, got=v, before=last)
            last = v
        c.outcome(name, dec)
    return fn


def edges(c):
    """Every boundary of every mask and its neighbours, in every number type."""
    name = c.choose("mask", NAMES)
    b = c.choose("boundary", boundaries() + [54.0, 55.0, 0.1, 10.0, 10000.0, 1e5, 1e6, 272.0, 274.0, 3e5 + 1, 4e5 - 1])
    step = c.choose("step", ["-ulp", "0", "+ulp", "-1e-9", "+1e-9", "-0.1 %", "+0.1 %", "-1", "+1"])
    ty = c.choose("type", ["float", "int", "float64", "float32", "int64", "0-d array", "Fraction"])
    t = {"-ulp": np.nextafter(b, 0), "0": b, "+ulp": np.nextafter(b, np.inf), "-1e-9": b * (1 - 1e-9), "+1e-9": b * (1 + 1e-9),
         "-0.1 %": b * 0.999, "+0.1 %": b * 1.001, "-1": b - 1, "+1": b + 1}[step]
    if t <= 0:
        return
    if ty in ("int", "int64"):
        if t != int(t):
            return
        t = int(t) if ty == "int" else np.int64(t)
    elif ty == "float32":
        t = np.float32(t)
        v = value(c, name, t)
        w = want(name, t)
        c.check(any(abs(v - x) <= 1e-6 * x for x in w), "%s: wrong limit" % name, tau=float(t), got=v, want=w)
        return
    elif ty == "Fraction":
        t = float(fractions.Fraction(t))
    else:
        t = {"float": float, "float64": np.float64, "0-d array": np.array}[ty](t)
    judge(c, name, t)
    c.outcome(name, b, step, ty)


def integers(top):
    """Every whole number of seconds up to `top`."""
    def fn(c):
        name = c.choose("mask", NAMES)
        block = c.choose("block of 1000 s", list(range(top // 1000)))
        last = 0.0
        for t in range(1000 * block or 1, 1000 * (block + 1)):
            v = judge(c, name, t)
            c.check(v >= last * (1 - 1e-3), "%s decreases" % name, tau=t)
            last = v
        c.outcome(name, block)
    return fn


def multiples(count):
    """Whole minutes, hours, days, weeks, years, thousands and thirds of seconds."""
    def fn(c):
        name = c.choose("mask", NAMES)
        unit = c.choose("unit", [60, 3600, 86400, 604800, 31557600, 100, 1000, 10000, 0.1, 0.125, 1.0 / 3])
        block = c.choose("block", list(range(count)))
        last = 0.0
        for k in range(1000 * block or 1, 1000 * (block + 1) + 1):
            v = judge(c, name, k * unit)
            c.check(v >= last * (1 - 1e-3), "%s decreases" % name, tau=k * unit, got=v, before=last)
            last = v
        c.outcome(name, unit, block)
    return fn


def order(per_decade):
    """PRTC-B is never looser than PRTC-A; ePRTC never looser than PRTC-A."""
    def fn(c):
        kind = c.choose("kind", ["tdev", "mtie"])
        dec = c.choose("decade", list(range(-3, 8)))
        for k in range(per_decade):
            tau = 10.0 ** (dec + k / float(per_decade))
            a, b = value(c, "prtcA_" + kind, tau), value(c, "prtcB_" + kind, tau)
            c.check(b <= a * (1 + 1e-12), "PRTC-B above PRTC-A", tau=tau, A=a, B=b)
        c.outcome(kind, dec)
    return fn


def harnesses(tier):
    T = tier == "thorough"
    return [Harness("grid", grid(20000 if T else 1000), doc="geometric grid over 22 decades"),
            Harness("edges", edges), Harness("integers", integers(450000 if T else 12000)),
            Harness("multiples", multiples(400 if T else 8), doc="multiples of the usual units"),
            Harness("order", order(5000 if T else 500))]


SPEC = dict(level="model_checking", harnesses=harnesses,
            rule="Every mask on a geometric grid over all taus, at and around every boundary, at every whole second. distinct = block or boundary explored.",
            assumptions=["the published coefficients are rounded: at 273 s (PRTC-A MTIE) and 100 s (ePRTC MTIE) the segments meet within 0.1 %"])
