"""C04: tau requests -> averaging factors."""
import numpy as np
import allantools as at
from ..engine import Harness
from .. import devcheck as dc, refs
from ..refs import LD

FUNCS = refs.ALL_FUNCS + ["gradev", "gcodev"]
RATES = [1.0, 10.0, 0.1, 3.7, 1.0 / 3.0, 1000.0, 2, 1e-5, 1e7]


def keyword_ms(kw, N):
    """Averaging factors of a keyword, before the 0 < m < N selection; None where rounding is a near-tie."""
    if kw in ("octave", None) or (isinstance(kw, list) and not kw):
        return [2 ** k for k in range(60) if 2 ** k <= N]
    if kw == "all":
        return list(range(1, N + 1))
    if kw == "decade":
        return [f * 10 ** k for k in range(12) if 10 ** k <= N for f in (1, 2, 4)]
    if kw == "log10":
        n = int(10 * np.log10(N) + 1e-12)
        L = np.log10(LD(N))
        out = []
        for k in range(n):
            v = LD(10) ** (L * k / (n - 1)) if n > 1 else LD(1)
            if abs(v - np.floor(v) - LD("0.5")) < 1e-6:
                return None
            out.append(int(np.rint(v)))
        return out
    raise ValueError(kw)


def valid(ms, N, even=False, maximum_m=None):
    ms = sorted(set(m for m in ms if 0 < m < N and (maximum_m is None or m <= maximum_m)))
    return [m for m in ms if m % 2 == 0] if even else ms


def check_tg(c, N, rate, taus, ms, even=False, maximum_m=None, box=None):
    data = np.arange(N) * 3.0 if box is None else box(range(N))
    kw = {}
    if even:
        kw["even"] = True
    if maximum_m is not None:
        kw["maximum_m"] = maximum_m
    c.call()
    d, m, t = at.tau_generator(data, rate, taus=taus, **kw)
    want = valid(ms, N, even, maximum_m)
    c.close(m, want, "tau_generator: averaging factors", rtol=0, N=N, rate=rate, taus=taus)
    c.close(t, np.array(want, dtype=float) / rate, "tau_generator: taus", rtol=1e-12)
    c.close(d, np.asarray(data, dtype=float), "tau_generator: data", rtol=0)
    c.outcome(want)


def keywords(sizes):
    def fn(c):
        N = c.choose("N", sizes)
        kw = c.choose("taus", [None, [], "all", "octave", "decade", "log10"])
        if kw == "all" and N > 5000 and N not in (20001, 32769, 65537, 100001):
            return
        rate = c.choose("rate", RATES, dev=True)
        even = c.choose("even", [False, True], dev=True)
        mx = c.choose("maximum_m", [None, N / 3.0, N // 2, 1, 2], dev=True)
        ms = keyword_ms(kw, N)
        if ms is None:
            return
        if kw == "log10":
            good = valid(ms, N)
            for k in range(1, int(np.log10(N))):
                n = len([m for m in good if 10 ** k <= m < 10 ** (k + 1)])
                c.check(8 <= n <= 11, "log10 request: points per decade", n=n, N=N)
        check_tg(c, N, rate, kw, ms, even, mx)
    return fn


def request(c, N, units, rate, form):
    t = [u / rate for u in units]
    if form == "array":
        return np.array(t)
    if form == "intlist":
        return [int(v) for v in t]
    if form == "intarray":
        return np.array([int(v) for v in t])
    return t


def lists(nmax, length):
    """All request words over valid, fractional, zero, negative, boundary and too large entries."""
    def fn(c):
        N = c.choose("N", range(1, nmax + 1))
        n = c.choose("length", range(1, length + 1))
        units = c.word("tau/tau0 ", [1, 2, 0, -1, 0.4, 0.6, 1.4, N - 1, N, N + 1, 1e9], n)
        units = [u if u < 1e9 else c.choose("size", [1e9, 2.0 ** 31 + 1, 2.0 ** 32 + 1, 2.0 ** 33 + 2, 2.0 ** 16 + 1, 257.0, 1e17], dev=True) for u in units]
        rate = c.choose("rate", RATES, dev=True)
        form = c.choose("form", ["list", "array"], dev=True)
        even = c.choose("even", [False, True], dev=True)
        mx = c.choose("maximum_m", [None, 1, N / 3.0], dev=True)
        check_tg(c, N, rate, request(c, N, units, rate, form), [int(np.rint(u)) for u in units], even, mx)
    return fn


def nearest(sizes):
    """tau*rate off an integer by rounding errors or by up to 0.45: always the nearest factor."""
    def fn(c):
        rate = c.choose("rate", RATES + [9.765625e-4, 123456.789, 50.0, 1e-3, 1 / 7.0])
        off = c.choose("off", [0.0, 1e-9, -1e-9, 0.45, -0.45, 0.3])
        N = c.choose("N", sizes)
        step = max(1, N // 300)
        ms = list(range(1, N + 3, step))
        check_tg(c, N, rate, [(m + off) / rate for m in ms], ms)
        for m in ms[:40]:
            check_tg(c, N, rate, [m * (1.0 / rate)], [m])
    return fn


def wholes(length):
    """Requests of whole numbers in every integer type, as list, tuple, range and array, at rates that do not divide them."""
    def fn(c):
        N = c.choose("N", [7, 40])
        rate = c.choose("rate", [1.0, 2, 2.5, 0.3, 1.3, 3.7, 0.1, 1.0 / 3.0, 10.9, 1e-2, np.float64(2.6), np.int64(3), np.float32(1.5)])
        form = c.choose("form", ["list", "tuple", "range", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float16", "list of numpy", "mixed"])
        if form == "range":
            t = range(c.choose("start", [0, 1, 3]), c.choose("stop", [5, 12, 41]), c.choose("step", [1, 3]))
        else:
            n = c.choose("length", range(1, length + 1))
            t = c.word("tau ", [1, 2, 3, 5, 11, 12, 120], n)
            t = {"list": t, "tuple": tuple(t), "list of numpy": [np.int32(v) for v in t], "mixed": [v if i % 2 else float(v) for i, v in enumerate(t)]}.get(form, t)
            if form[0] in "uif" and form != "range":
                t = np.array(t, dtype=form)
        units = [LD(int(v)) * LD(float(rate)) for v in t]
        if any(abs(u - np.floor(u) - LD("0.5")) < 1e-5 for u in units):
            return
        check_tg(c, N, rate, t, [int(np.rint(u)) for u in units])
        x = np.array(refs.deck("white", N), dtype=float)
        want = [r[0] for r in refs.expect("oadev", x, float(rate), "phase", valid([int(np.rint(u)) for u in units], N))]
        c.call()
        try:
            got = at.oadev(x, rate=rate, taus=t)[0]
        except UserWarning:
            got = []
        c.close(got, np.array(want, dtype=float) / float(rate), "oadev: taus of the result", rtol=1e-12, request=t)
    return fn


def functions(length):
    """Every deviation on every request word: rows = requested valid factors that have two terms."""
    def fn(c):
        name = c.choose("function", FUNCS)
        N = c.choose("N", [9, 12])
        dt = c.choose("data_type", ["phase", "freq"])
        n = c.choose("length", range(1, length + 1))
        units = c.word("tau/tau0 ", [1, 2, 3, 0, -2, 1.3, 4, 6, N - 2, N + 1], n)
        rate = c.choose("rate", [1.0, 10.0, 0.3], dev=True)
        form = c.choose("form", ["list", "array"], dev=True)
        x = np.array(refs.deck("white", N), dtype=float)
        t = request(c, N, units, rate, form)
        ms = [int(np.rint(u)) for u in units]
        np_ = N + 1 if dt == "freq" else N
        ref = "oadev" if name in ("gradev", "gcodev") else name
        want = [r[0] for r in refs.expect(ref, x, rate, dt, valid(ms, np_))]
        c.call()
        try:
            if name == "gcodev":
                res = at.gcodev(x, x * 2, rate=rate, data_type=dt, taus=t)
            else:
                res = getattr(at, name)(x, rate=rate, data_type=dt, taus=t)
            got = res[0]
        except UserWarning:
            got = []
        c.close(got, np.array(want, dtype=float) / rate, "%s: taus of the result" % name, rtol=1e-12, request=t)
        c.outcome(name, want)
    return fn


def fkeywords(sizes):
    def fn(c):
        name = c.choose("function", FUNCS)
        kw = c.choose("taus", [None, [], "all", "octave", "decade", "log10", "default"])
        N = c.choose("N", sizes)
        dt = c.choose("data_type", ["phase", "freq"])
        slow = name in ("mtotdev", "ttotdev", "htotdev", "theo1", "pdev")
        if slow and N > 41:
            return
        x = np.array(refs.deck("walk", N), dtype=float)
        n = N + 1 if dt == "freq" else N
        nk = N if (dt == "freq" and name == "htotdev") else n       # htotdev works on the frequency samples
        ms = keyword_ms("octave" if kw == "default" else kw, nk)
        if ms is None:
            return
        if dt == "phase" and name == "htotdev":
            ms = keyword_ms("octave" if kw == "default" else kw, N - 1)
            if ms is None:
                return
        ref = "oadev" if name in ("gradev", "gcodev") else name
        want = [r[0] for r in refs.expect(ref, x, 4.0, dt, valid(ms, n))]
        args = (x, x * 2) if name == "gcodev" else (x,)
        kws = dict(rate=4.0, data_type=dt)
        if kw != "default":
            kws["taus"] = kw
        c.call()
        try:
            got = getattr(at, name)(*args, **kws)[0]
        except UserWarning:
            got = []
        c.close(got, np.array(want, dtype=float) / 4.0, "%s: taus for keyword %r" % (name, kw), rtol=1e-12)
        c.outcome(name, want)
    return fn


def reduction(tops):
    def fn(c):
        top = c.choose("m up to", tops)
        n = c.choose("per decade", [1, 2, 3, 4, 5, 7, 10, 15, 20, 30, 50, 100])
        rate = c.choose("rate", [1.0, 10.0, 0.3])
        form = c.choose("form", ["float", "int", "list"], dev=True)
        ms = list(range(1, top + 1))
        a = dict(float=np.array(ms, dtype=float), int=np.array(ms), list=ms)[form]
        c.call()
        m, t = at.tau_reduction(a, rate, n)
        b = np.rint(n * np.log10(refs.ld(ms)))
        want = [ms[i] for i in range(top - 1) if b[i + 1] != b[i]]
        c.close(m, want, "tau_reduction: kept factors", rtol=0, top=top, n=n)
        c.close(t, np.array(want, dtype=float) / rate, "tau_reduction: taus", rtol=1e-12)
        for k in range(int(np.log10(top)) + 1):
            if 10 ** k > n:
                q = len([v for v in m if 10 ** k <= v < 10 ** (k + 1)])
                c.check(q <= n, "tau_reduction: more than n per decade", n=n, kept=q)
        # as used together with tau_generator
        c.call()
        d, m2, t2 = at.tau_generator(np.zeros(top + 1), rate, taus="all")
        c.call()
        m3, t3 = at.tau_reduction(m2, rate, n)
        c.close(m3, want, "tau_reduction after tau_generator", rtol=0)
        c.outcome(want)
    return fn


def huge(sizes):
    """Records of up to a hundred million samples: exact averaging factors at, below and above every power of 2 and 10."""
    def fn(c):
        N = c.choose("N", sizes)
        rate = c.choose("rate", [1.0, 10.0, 0.1])
        ms = sorted(set(max(1, 2 ** k + d) for k in range(1, 28) for d in (-1, 0, 1, 3)) | set(10 ** k + d for k in range(1, 9) for d in (-1, 0, 1)) |
                    set(N + d for d in (-2, -1, 0, 1)))
        data = np.zeros(N, dtype=np.int8)
        c.call()
        d, m, t = at.tau_generator(data, rate, [v / rate for v in ms])
        want = valid(ms, N)
        c.close(m, want, "tau_generator: averaging factors of a record of %d samples" % N, rtol=0)
        c.close(t, np.array(want, dtype=float) / rate, "tau_generator: taus", rtol=1e-12)
        for kw in ("octave", "decade"):
            c.call()
            d, m, t = at.tau_generator(data, rate, kw)
            want = valid(keyword_ms(kw, N), N)
            c.close(m, want, "tau_generator: keyword %s on %d samples" % (kw, N), rtol=0)
            c.close(t, np.array(want, dtype=float) / rate, "tau_generator: taus", rtol=1e-12)
        c.outcome(N, rate)
    return fn


def sparse(c):
    """tau_reduction on sparse lists of very long averaging factors."""
    n = c.choose("per decade", [1, 2, 3, 5, 10, 20])
    top = c.choose("up to 2^", [10, 20, 24, 30, 31, 32, 33, 40, 50])
    kind = c.choose("list", ["octave", "powers of 10", "neighbours"])
    rate = c.choose("rate", [1.0, 1e-3])
    ms = {"octave": [2 ** k for k in range(top + 1)], "powers of 10": [10 ** k for k in range(16) if 10 ** k <= 2 ** top] + [2 ** top + 7],
          "neighbours": sorted(set(max(1, 2 ** k + d) for k in range(top + 1) for d in (-1, 0, 1, 5)))}[kind]
    b = n * np.log10(refs.ld(ms))
    if np.any(np.abs(b - np.floor(b) - LD("0.5")) < 1e-9):
        return
    b = np.rint(b)
    want = [ms[i] for i in range(len(ms) - 1) if b[i + 1] != b[i]]
    c.call()
    m, t = at.tau_reduction(np.array(ms, dtype=float), rate, n)
    c.close(m, want, "tau_reduction of long averaging factors", rtol=0, ms=ms)
    c.close(t, np.array(want, dtype=float) / rate, "tau_reduction: taus", rtol=1e-12)
    c.outcome(want)


def harnesses(tier):
    T = tier == "thorough"
    edges = sorted(set(v for k in range(1, 17) for v in (2 ** k - 1, 2 ** k, 2 ** k + 1)) |
                   set(v for k in range(1, 6) for f in (1, 2, 4, 5) for v in (f * 10 ** k - 1, f * 10 ** k, f * 10 ** k + 1)))
    sizes = list(range(1, 1200 if T else 200)) + [e for e in edges if e >= (1200 if T else 200)]
    return [Harness("keywords", keywords(sizes), bound=2 if T else 1, doc="every N up to %d and around powers of 2 and 10" % (1199 if T else 199)),
            Harness("lists", lists(6 if T else 5, 4 if T else 3), bound=2 if T else 1, doc="all request words"),
            Harness("nearest", nearest([2, 3, 10, 100, 1000, 20000])),
            Harness("whole numbers", wholes(4 if T else 3), doc="integer types of tau requests"),
            Harness("functions", functions(3 if T else 2), bound=1, doc="every deviation on all request words"),
            Harness("function keywords", fkeywords(list(range(4, 45)) + [63, 64, 65, 99, 100, 101, 128])),
            Harness("reduction", reduction(list(range(2, 130)) + [199, 200, 256, 999, 1000, 1001, 2000] + ([10000, 20000] if T else [])), bound=1),
            Harness("huge", huge([2 ** 16 + 1, 2 ** 20, 10 ** 6, 2 ** 24 + 11] + ([2 ** 26 + 5, 10 ** 8] if T else []))),
            Harness("reduction of long factors", sparse)]


SPEC = dict(level="model_checking", harnesses=harnesses,
            rule="All request words over {valid, fractional, zero, negative, N-1, N, N+1, huge}; every keyword at every length in range; "
                 "distinct = distinct lists of averaging factors.",
            assumptions=["requests exactly half way between two averaging factors are not judged (either neighbour is nearest)",
                         "log10 requests whose grid falls within 1e-6 of a half are skipped"])
