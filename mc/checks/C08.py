"""C08: real-time statistics = batch statistics after every sample."""
import numpy as np
import allantools as at
from ..engine import Harness
from .. import refs
from ..refs import LD, deck, fdeck

CLASSES = {"oadev": "oadev_realtime", "ohdev": "ohdev_realtime", "tdev": "tdev_realtime"}
LISTS = [[1], [1, 2], [2, 1], [1, 2, 3], [3], [2, 4, 1, 3], [2, 1, 2], [1, 1], [3, 3, 3, 1]]


class Model(object):
    """Reference: the list of phase points, statistics recomputed from scratch."""

    def __init__(self, stat, afs, tau0, auto_ppd=None):
        self.stat, self.afs, self.tau0, self.ppd = stat, afs, tau0, auto_ppd
        self.x = []

    def phase(self, v):
        self.x.append(LD(v))

    def frequency(self, f):
        if not self.x:
            self.x.append(LD(0))
        self.x.append(self.x[-1] + LD(f) * LD(self.tau0))

    def value(self, af, stat=None):
        need = {"oadev": 2 * af + 1, "ohdev": 3 * af + 1, "tdev": 3 * af, "mdev": 3 * af}[stat or self.stat]
        if len(self.x) < need:
            return None
        f = {"oadev": refs.oadev, "ohdev": refs.ohdev, "tdev": refs.tdev, "mdev": refs.mdev}[stat or self.stat]
        return f(np.array(self.x, dtype=LD), af, LD(1) / LD(self.tau0))[0]


def make(c, stat, afs, tau0, ppd=None, defaults=False):
    c.call()
    cls = getattr(at, CLASSES[stat])
    if defaults:
        return cls(), Model(stat, [1], 1.0)
    if ppd is not None:
        return cls(auto_afs=True, tau0=tau0, pts_per_decade=ppd), Model(stat, None, tau0, ppd)
    return cls(afs=afs, tau0=tau0), Model(stat, [int(a) for a in afs], tau0)


def grid(ppd, top):
    out, k = [], 0
    while True:
        v = int(np.rint(LD(10) ** (LD(k) / ppd)))
        if v > top:
            return out
        if not out or v > out[-1]:
            out.append(v)
        k += 1


def compare(c, dev, mod, batch=False, what=""):
    afs = [int(a) for a in dev.afs] if mod.afs is None else mod.afs
    if mod.afs is None:
        N = len(mod.x)
        g = grid(mod.ppd, max(N, 10))
        c.check(afs == g[:len(afs)], "automatic averaging factors", got=afs, want=g, N=N, ppd=mod.ppd)
        need = [a for a in g if mod.value(a) is not None]
        c.check(len(afs) >= max(1, len(need)), "automatic averaging factors: one with data is missing", got=afs, want=need, N=N)
    t = np.asarray(dev.taus(), dtype=float)
    c.close(t, np.array(afs, dtype=float) * mod.tau0, "%staus()" % what, rtol=1e-12)
    d = np.array(dev.devs(), dtype=float)
    c.check(len(d) == len(afs), "%sdevs(): one value per averaging factor" % what)
    c.close(np.array(dev.dev, dtype=float), d, "%s.dev and devs()" % what, rtol=0)
    md = np.array(dev.mdev(), dtype=float) if mod.stat == "tdev" else None
    scale = float(max([abs(v) for v in mod.x] + [0]))
    c.close(np.array(dev.devs(), dtype=float), d, "%squeries change the deviations" % what, rtol=0)
    if md is not None:
        c.close(np.array(dev.mdev(), dtype=float), md, "%smdev() asked twice" % what, rtol=0)
    for q, af in enumerate(afs):
        w = mod.value(af)
        if w is None:
            continue
        f = 1.0 if mod.stat == "tdev" else 1.0 / (af * mod.tau0)
        c.compared += 1
        if not abs(d[q] - w) <= 1e-9 * w + 1e-9 * scale * f:
            c.fail("%s%s_realtime differs from the batch value" % (what, mod.stat), af=af, N=len(mod.x), got=d[q], want=w,
                   x=[float(v) for v in mod.x][:40])
        if md is not None:
            wm = mod.value(af, "mdev")
            if not abs(md[q] - wm) <= 1e-9 * wm + 1e-9 * scale / (af * mod.tau0):
                c.fail("tdev_realtime.mdev() differs from mdev", af=af, N=len(mod.x), got=md[q], want=wm)
    if batch:
        x = np.array(mod.x, dtype=float)
        for q, af in enumerate(afs):
            n = len(x) - {"oadev": 2 * af, "ohdev": 3 * af, "tdev": 3 * af - 1}[mod.stat]
            if n > 1:
                c.call()
                b = getattr(at, mod.stat)(x, rate=1.0 / mod.tau0, taus=[af * mod.tau0])
                c.close(d[q], b[1][0], "%s%s_realtime differs from %s()" % (what, mod.stat, mod.stat), rtol=1e-8,
                        atol=1e-9 * scale / (mod.tau0 if mod.stat != "tdev" else 1))
    c.outcome(mod.stat, np.round(d, 6).tolist())


def step(c, dev, mod, op):
    kind, v = op
    c.call()
    if kind == "p":
        dev.add_phase(v)
        mod.phase(v)
    elif kind == "f":
        dev.add_frequency(v)
        mod.frequency(v)
    elif kind == "q":
        dev.devs(), dev.taus()
        if mod.stat == "tdev":
            dev.mdev()


def words(length, ops):
    """All operation sequences; the statistics are compared after every operation."""
    def fn(c):
        stat = c.choose("class", sorted(CLASSES))
        conf = c.choose("afs", ["default"] + LISTS[1:4] + [[2, 1, 2]] + ["auto 4", "auto 1"])
        tau0 = c.choose("tau0", [1.0, 0.5]) if conf != "default" else 1.0
        if conf == "default":
            dev, mod = make(c, stat, [1], 1.0, defaults=True)
        elif isinstance(conf, str):
            dev, mod = make(c, stat, None, tau0, int(conf.split()[1]))
        else:
            dev, mod = make(c, stat, list(conf), tau0)
        for k in range(length):
            op = c.choose("op%d" % k, ops)
            step(c, dev, mod, op)
            compare(c, dev, mod)
    return fn


def two(length):
    """Two instances of any classes and configurations, every interleaving of their operations."""
    def fn(c):
        confs = [("oadev", None), ("tdev", [1, 2]), ("ohdev", "auto"), ("oadev", "auto"), ("tdev", None)]
        pair = []
        for i in (0, 1):
            stat, conf = c.choose("instance %d" % i, confs)
            if conf is None:
                pair.append(make(c, stat, [1], 1.0, defaults=True))
            elif conf == "auto":
                pair.append(make(c, stat, None, 0.5, 4))
            else:
                pair.append(make(c, stat, conf, 2.0))
        vals = [[5, 3, 4, 4, 1, 0, 7, 7], [0, 0, 2, -1, 3, 9, 1, 1]]
        cnt = [0, 0]
        for k in range(length):
            i = c.choose("turn%d" % k, [0, 1])
            v = vals[i][cnt[i]]
            cnt[i] += 1
            step(c, pair[i][0], pair[i][1], ("f" if (cnt[i] + i) % 3 == 0 else "p", v))
        for i in (0, 1):
            compare(c, pair[i][0], pair[i][1], what="instance %d: " % i)
    return fn


def runs(nmax, every):
    """Long runs in every configuration: compared after every sample."""
    def fn(c):
        stat = c.choose("class", sorted(CLASSES))
        conf = c.choose("afs", ["auto %d" % p for p in (1, 2, 3, 4, 5, 7, 10, 20, 25, 40, 100)] + LISTS + [[5, 10, 7], [1, 10, 30], list(range(1, 22)), list(range(20, 0, -1))])
        tau0 = c.choose("tau0", [1.0, 0.1, 3.0, 86400.0])
        mode = c.choose("input", ["phase", "frequency", "mixed"])
        form = c.choose("afs given as", ["list", "array"]) if not isinstance(conf, str) else "list"
        if isinstance(conf, str):
            dev, mod = make(c, stat, None, tau0, int(conf.split()[1]))
        else:
            dev, mod = make(c, stat, np.array(conf) if form == "array" else list(conf), tau0)
        vals = [float(v) for v in fdeck("white", nmax, 3)]
        for k, v in enumerate(vals):
            kind = {"phase": "p", "frequency": "f", "mixed": "pf"[(k // 3) % 2]}[mode]
            step(c, dev, mod, (kind, v))
            if k < 40 or k % every == 0 or k == nmax - 1:
                compare(c, dev, mod, batch=(k % (7 * every) == 0 or k == nmax - 1))
    return fn


def long(ns):
    def fn(c):
        stat = c.choose("class", sorted(CLASSES))
        ppd = c.choose("points per decade", [1, 3, 4, 10, 30])
        N = c.choose("N", ns)
        dev, mod = make(c, stat, None, 1.0, ppd)
        vals = [float(v) for v in fdeck("walk", N, 4)]
        for k, v in enumerate(vals):
            step(c, dev, mod, ("p", v))
            if k in (20, 21, 200, 201, 202, 300, 301, 2000, 2001, 2002, 2999, 3000) or k == N - 1:
                compare(c, dev, mod, batch=True)
    return fn


TOPS = {"int8": 120, "uint8": 250, "int16": 30000, "uint16": 60000, "int32": 2 * 10 ** 9, "uint32": 4 * 10 ** 9, "int64": 10 ** 12, "uint64": 10 ** 12,
        "float32": 4096, "float64": 4096, "int": 10 ** 12, "bool": 1}


def types(length):
    """Samples and tau0 of every numeric type, up to the ends of its range: the same values as for floats."""
    def fn(c):
        stat = c.choose("class", sorted(CLASSES))
        kind = c.choose("type", sorted(TOPS))
        conf = c.choose("afs", ["list", "array", "array32", "auto"])
        tau0 = c.choose("tau0", [1, 10, np.int64(3), np.int32(100), np.float32(0.5), 1e3])
        top = TOPS[kind]
        f = {"int": int, "bool": bool}.get(kind) or getattr(np, kind)
        vals = [f(0), f(top), f(-top) if kind[0] in "if" else f(top // 2)]
        x = [vals[v] for v in c.word("x", [0, 1, 2], length)]
        op = c.choose("input", ["p", "f", "mixed"] if kind != "float32" else ["p"])      # frequencies in float32 are integrated in float32
        if conf == "auto":
            dev, mod = make(c, stat, None, tau0, 4)
        else:
            dev, mod = make(c, stat, {"list": [1, 2], "array": np.array([2, 1]), "array32": np.array([1, 2], dtype=np.int32)}[conf], tau0)
        # a constant record in front and behind, so that every averaging factor has terms
        seq = [x[0]] * 2 + x + [x[-1], x[0]] * 3
        for k, v in enumerate(seq):
            step(c, dev, mod, (op if op != "mixed" else "pf"[k % 2], v))
            if k > 4:
                compare(c, dev, mod)
    return fn


def fixedlong(ns):
    """Long runs with short and long averaging factors side by side, compared around the sizes where buffers would wrap."""
    def fn(c):
        stat = c.choose("class", sorted(CLASSES))
        N = c.choose("N", ns)
        afs = c.choose("afs", [[1, 3, 50], [1000, 7, 2], "long"])
        if afs == "long":
            afs = [N // 5, 1, N // 3 - 1, N // 4]
        tau0 = c.choose("tau0", [1.0, 1e-9])
        kind = c.choose("input", ["p", "f"])
        dev, mod = make(c, stat, list(afs), tau0)
        vals = [float(v) for v in fdeck("white" if kind == "f" else "walk", 997, 4)]
        marks = set(q + k for q in (256, 512, 1000, 1024, 2048, 4096, 5000, 8192, 10000, 16384, 32768, 65536) for k in (-1, 0, 1, 2)) | set([N - 1, N - 7])
        last = None
        for k in range(N):
            v = vals[k % 997] + (k // 997) * (1 if kind == "p" else 0)
            step(c, dev, mod, (kind, v))
            if k + 1 in marks:
                compare(c, dev, mod)
                last = k
        compare(c, dev, mod, batch=N < 20000)
    return fn


def exact(stat, x, af):
    """Deviation at tau0 = 1 of whole-numbered phase, with exact sums (n, dev)."""
    if stat == "oadev":
        w = x[2 * af:] - 2 * x[af:-af] + x[:-2 * af]
        k = 2.0 * af * af
    elif stat == "ohdev":
        w = x[3 * af:] - 3 * x[2 * af:-af] + 3 * x[af:-2 * af] - x[:-3 * af]
        k = 6.0 * af * af
    else:
        s = np.concatenate((np.zeros(1, dtype=np.int64), np.cumsum(x)))
        w = s[3 * af:] - 3 * s[2 * af:-af] + 3 * s[af:-2 * af] - s[:-3 * af]
        k = 6.0 * af * af
    return len(w), np.sqrt(np.sum(w.astype(LD) ** 2) / k / max(len(w), 1))


def big(ns):
    """Very long runs of whole-numbered samples (all sums are exact), at lengths around powers of 2 and 10."""
    def fn(c):
        stat = c.choose("class", sorted(CLASSES))
        N = c.choose("N", ns)
        conf = c.choose("afs", ["1", "third", "list", "auto 1", "auto 3"])
        kind = c.choose("input", ["p", "f"])
        cls = getattr(at, CLASSES[stat])
        afs = {"1": [1], "third": [N // 3 - 3], "list": [N // 4, 10, N // 5, 1024]}.get(conf)
        dev = cls(afs=list(afs)) if afs else cls(auto_afs=True, pts_per_decade=int(conf[-1]))
        x = np.tile(np.array([int(v) for v in fdeck("white", 9973, 4)], dtype=np.int64), N // 9973 + 1)[:N]
        if kind == "f":
            y = x[:-1]
            x = np.concatenate((np.zeros(1, dtype=np.int64), np.cumsum(y)))
        marks = set(q + k for q in [2 ** p for p in range(11, 21)] + list(range(10000, N, 10000)) for k in (-1, 1, 3)) | set([N - 2, N])
        c.call(N)
        k = 0
        if kind == "f":
            feed, src = dev.add_frequency, [float(v) for v in y]
        else:
            feed, src = dev.add_phase, [float(v) for v in x]
        for v in src:
            feed(v)
            k += 1
            n = k + (kind == "f")
            if n in marks:
                a = [int(q) for q in dev.afs] if afs is None else afs
                if afs is None:
                    g = grid(int(conf[-1]), n)
                    need = [q for q in g if {"oadev": 2, "ohdev": 3, "tdev": 3}[stat] * q + 1 <= n]
                    c.check(a == g[:len(a)] and len(a) >= len(need), "automatic averaging factors of a long run", got=a, want=need, N=n)
                d = np.array(dev.devs(), dtype=float)
                md = np.array(dev.mdev(), dtype=float) if stat == "tdev" else None
                for q, af in enumerate(a):
                    if {"oadev": 2, "ohdev": 3, "tdev": 3}[stat] * af + 1 > n:
                        continue
                    m, w = exact(stat, x[:n], af)
                    c.close(d[q], w, "%s_realtime after %d points, averaging factor %d" % (stat, n, af), rtol=1e-9)
                    if md is not None:
                        c.close(md[q], w * np.sqrt(LD(3)) / af, "tdev_realtime.mdev() after %d points, averaging factor %d" % (n, af), rtol=1e-9)
                c.outcome(stat, conf, n, np.round(d, 6).tolist())
    return fn


def harnesses(tier):
    T = tier == "thorough"
    ops = [("p", 0), ("p", 1), ("p", -2), ("f", 1), ("q", 0)]
    return [Harness("operations", words(6 if T else 5, ops), doc="all words of %d operations" % (6 if T else 5)),
            Harness("operations binary", words(10 if T else 8, [("p", 0), ("p", 3)]), doc="all phase words"),
            Harness("operations frequency", words(8 if T else 6, [("f", 0), ("f", 1), ("f", -3)]), doc="all frequency words"),
            Harness("two instances", two(8 if T else 7)),
            Harness("runs", runs(300 if T else 70, 1 if T else 4)),
            Harness("types", types(4 if T else 3)),
            Harness("long fixed", fixedlong([300, 1100, 4500] + ([8300, 11000, 33000, 66000, 110000] if T else [9000]))),
            Harness("big", big([40500, 66000, 131100, 400000] if T else [40500]), doc="exact whole-numbered runs"),
            Harness("long", long([2100, 5000, 20500] if T else [650, 2100]))]


SPEC = dict(level="model_checking", harnesses=harnesses,
            rule="All sequences of operations (phase, frequency, query) on one instance, all interleavings of two instances, runs in every "
                 "configuration, compared after every operation; distinct = distinct vector of deviations.",
            assumptions=["values before the first complete term are not judged", "the reference recomputes from all points after every operation"])
