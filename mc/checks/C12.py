"""C12: white, brown, violet, pink noise are the documented filters of independent unit draws."""
import numpy as np
import allantools as at
from allantools import noise
from ..engine import Harness
from .. import rng
from ..refs import lcg

PI = np.pi


def cov_white(n, b, fs):
    return np.eye(n) * (b * fs / 2.0)


def cov_brown(n, b, fs):
    k = np.arange(1, n + 1)
    return np.minimum.outer(k, k) * (b * 4 * PI ** 2 / (2.0 * fs))


def cov_violet(n, b, fs):
    return (2 * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1)) * (b * fs ** 3 / (8 * PI ** 2))


def cov_pink(n, depth):
    """Sum of `depth` held draws, one of them renewed per sample (the one given by the lowest set bit
    of the position within the block of `depth` samples), plus one fresh draw."""
    slots, nd, rows = list(range(depth)), depth, []
    for k in range(n):
        i = k % depth
        if i:
            bit = (i & -i).bit_length() - 1
            slots[bit] = nd
            nd += 1
        rows.append(slots + [nd])
        nd += 1
    R = np.zeros((n, nd))
    for k, r in enumerate(rows):
        R[k, r] = 1.0
    return R.dot(R.T)


COV = {"white": cov_white, "brown": cov_brown, "violet": cov_violet}
KW = {"white": "b0", "brown": "b_minus2", "violet": "b2"}


def scaled(ns):
    def fn(c):
        kind = c.choose("generator", sorted(COV))
        n = c.choose("points", ns)
        b = c.choose("level", [1.0, 1, 0.25, 7.0, 3e-22, 1e12, 1e-60])
        fs = c.choose("fs", [1.0, 1, 2, 0.1, 1000.0, 1 / 86400.0, 5e9, 1e-9])
        form = c.choose("arguments", ["positional", "keywords", "reordered keywords"])
        g = getattr(noise, kind)
        if form == "positional":
            f = lambda: g(n, b, fs)
        elif form == "keywords":
            f = lambda: g(num_points=n, fs=fs, **{KW[kind]: b})
        else:
            f = lambda: g(fs=fs, num_points=np.int64(n), **{KW[kind]: b})
        L = rng.response(c, f)
        rng.same_law(c, L, COV[kind](n, float(b), float(fs)), kind, n=n, level=b, fs=fs)
        rng.linear(c, f, L, [rng.dense(3)(k) for k in range(L.shape[1])], kind)
        c.outcome(kind, n, b, fs)
    return fn


def words(n):
    """Every outcome of the generator over an alphabet."""
    def fn(c):
        kind = c.choose("generator", ["white", "brown", "violet", "pink"])
        if kind == "pink":
            d = c.choose("depth", [1, 2])
            f = lambda: noise.pink(2, d)
        else:
            f = lambda: getattr(noise, kind)(n, 3.0, 0.5)
        L = rng.response(c, f)
        nd = L.shape[1]
        if nd > 8:
            # draws taken ahead of time and never used do not need enumeration
            nd = 8
        z = c.word("draw", [0, 1, -2], nd) + [0] * (L.shape[1] - nd)
        rng.linear(c, f, L, z, kind)
        c.outcome(kind, z)
    return fn


def defaults(c):
    """Default arguments."""
    kind = c.choose("generator", ["white", "brown", "violet", "pink", "iterpink", "white n", "brown n", "violet n", "pink n"])
    z = rng.dense(5)

    def run(f):
        with rng.scripted(z) as s:
            c.call()
            return np.array(f()), s.n
    pairs = {"white": (lambda: noise.white(), lambda: noise.white(1024, 1.0, 1.0), 1024),
             "brown": (lambda: noise.brown(), lambda: noise.brown(1024, 1.0, 1.0), 1024),
             "violet": (lambda: noise.violet(), lambda: noise.violet(1024, 1.0, 1.0), 1024),
             "pink": (lambda: noise.pink(), lambda: noise.pink(1024, 80), 1024),
             "iterpink": (lambda: take(noise.iterpink(), 50), lambda: take(noise.iterpink(20), 50), 50),
             "white n": (lambda: noise.white(77), lambda: noise.white(77, 1.0, 1.0), 77),
             "brown n": (lambda: noise.brown(77), lambda: noise.brown(77, 1.0, 1.0), 77),
             "violet n": (lambda: noise.violet(77), lambda: noise.violet(77, 1.0, 1.0), 77),
             "pink n": (lambda: noise.pink(77), lambda: noise.pink(77, 80), 77)}
    f, g, n = pairs[kind]
    a, na = run(f)
    b, nb = run(g)
    c.check(len(a) == n, "%s: number of points" % kind, got=len(a), want=n)
    c.equal(na, nb, "%s: default arguments" % kind)
    c.close(a, b, "%s: default arguments" % kind, rtol=1e-12)
    c.outcome(kind)


def fresh(c):
    """With the real generator: repeated calls never return the same values."""
    kinds = ["white", "brown", "violet", "pink"]
    seq = [c.choose("call %d" % k, kinds) for k in range(4)]
    seen = {}
    for k in seq:
        c.call()
        y = tuple(np.asarray(getattr(noise, k)(6)).tolist())
        c.check(y not in seen.setdefault(k, set()), "%s returned the same values twice" % k, got=y)
        seen[k].add(y)
    c.outcome(seq)


def take(it, n):
    return [next(it) for _ in range(n)]


def pink(ns, depths):
    def fn(c):
        n = c.choose("points", ns)
        d = c.choose("depth", depths)
        how = c.choose("through", ["pink", "iterpink"])
        if how == "pink":
            f = lambda: noise.pink(n, d)
        else:
            f = lambda: take(noise.iterpink(d), n)
        L = rng.response(c, f)
        rng.same_law(c, L, cov_pink(n, d), how, n=n, depth=d)
        rng.linear(c, f, L, [rng.dense(2)(k) for k in range(L.shape[1])], how)
        c.outcome(n, d)
    return fn


def history(length):
    """Any sequence of generator calls: the outputs are jointly independent and each has its law."""
    def fn(c):
        ops = [("white", 3), ("brown", 2), ("violet", 2), ("pink", 3), ("white", 2)]
        seq = [c.choose("call %d" % k, ops) for k in range(length)]

        def f():
            parts = []
            for kind, n in seq:
                parts.append(np.asarray(noise.pink(n, 2) if kind == "pink" else getattr(noise, kind)(n, 2.0, 4.0)))
            return np.concatenate(parts)
        L = rng.response(c, f)
        tot = sum(n for _, n in seq)
        want = np.zeros((tot, tot))
        p = 0
        for kind, n in seq:
            want[p:p + n, p:p + n] = cov_pink(n, 2) if kind == "pink" else COV[kind](n, 2.0, 4.0)
            p += n
        rng.same_law(c, L, want, "sequence of calls", seq=seq)
        c.outcome(seq)
    return fn


def interleaved(length):
    """Two pink sequences consumed in any interleaving."""
    def fn(c):
        d = [c.choose("depth 0", [2, 3]), c.choose("depth 1", [1, 3])]
        turns = [c.choose("turn %d" % k, [0, 1]) for k in range(length)]

        def f():
            its = [noise.iterpink(d[0]), noise.iterpink(d[1])]
            out = [[], []]
            for t in turns:
                out[t].append(next(its[t]))
            return np.array(out[0] + out[1])
        L = rng.response(c, f)
        n0, n1 = turns.count(0), turns.count(1)
        want = np.zeros((n0 + n1, n0 + n1))
        want[:n0, :n0] = cov_pink(n0, d[0])
        want[n0:, n0:] = cov_pink(n1, d[1])
        rng.same_law(c, L, want, "interleaved pink sequences", turns=turns, depth=d)
        c.outcome(turns, d)
    return fn


def long(ns):
    """Long records: undoing the documented filter gives back every draw once (in any order)."""
    def fn(c):
        n = c.choose("points", ns)
        kind = c.choose("generator", sorted(COV))
        b, fs = c.choose("level, fs", [(1.0, 1.0), (3.0, 0.25), (1e-22, 1000.0)])
        z = np.array(lcg(n % 97, n + 5, -500000, 500000))
        with rng.scripted(z) as s:
            c.call()
            y = np.asarray(getattr(noise, kind)(n, b, fs), dtype=float)
        c.equal(y.shape, (n,), "%s: number of points" % kind)
        if kind == "white":
            w = y / np.sqrt(b * fs / 2)
        elif kind == "brown":
            w = np.diff(np.concatenate(([0.0], y))) / np.sqrt(b * 4 * PI ** 2 / (2 * fs))
        else:       # all draws minus the first one
            w = np.concatenate(([0.0], np.cumsum(y))) / np.sqrt(b * fs ** 3 / (8 * PI ** 2))
        m = len(w)
        c.check(s.n >= m, "%s: fewer draws than points" % kind, draws=s.n, points=n)
        pool = z[:s.n].astype(float)
        sign = 1.0
        got = np.sort(w)
        best = None
        for sign in (1.0, -1.0):
            src = np.sort(sign * pool)
            if len(src) == m:
                off = np.median(got - src) if kind == "violet" else 0.0
                bad = int(np.sum(np.abs(got - src - off) > 1e-3))
            else:       # draws left over: those used are the ones that appear
                off = 0.0
                if kind == "violet":
                    off = -(sign * pool[0])
                pos = np.clip(np.searchsorted(src, got - off), 0, len(src) - 1)
                near = np.minimum(np.abs(src[pos] - (got - off)), np.abs(src[np.maximum(pos - 1, 0)] - (got - off)))
                bad = int(np.sum(near > 1e-3))
            best = bad if best is None else min(best, bad)
        c.check(best == 0, "%s: the points are not the documented filter of the draws" % kind, n=n, level=b, fs=fs, wrong=best,
                first=w[:5], draws=z[:5])
        c.outcome(kind, n, b, fs)
    return fn


def longpink(confs):
    """Long pink records and deep pools, all basis scripts."""
    def fn(c):
        n, d = c.choose("points, depth", confs)
        how = c.choose("through", ["pink", "iterpink"])
        f = (lambda: noise.pink(n, d)) if how == "pink" else (lambda: np.array(take(noise.iterpink(d), n)))
        L = (rng.packed if n > 1200 and d > 1200 else rng.response)(c, f)
        rng.same_law(c, L, cov_pink(n, d), how, n=n, depth=d)
        c.outcome(n, d)
    return fn


def harnesses(tier):
    T = tier == "thorough"
    return [Harness("scaled", scaled([0, 1, 2, 3, 5, 8, 13, 40] if T else [1, 2, 3, 6, 11]),
                    doc="lengths x levels x rates x ways of passing the arguments, all basis scripts"),
            Harness("words", words(7 if T else 6), doc="all scripts over {0, 1, -2}"),
            Harness("defaults", defaults),
            Harness("fresh", fresh, doc="all sequences of four calls, real generator"),
            Harness("pink", pink(list(range(1, 41)) if T else [1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33],
                                 list(range(1, 13)) + [16, 20, 33] if T else [1, 2, 3, 4, 5, 8, 9, 20]),
                    doc="lengths x depths, all basis scripts"),
            Harness("long", long([255, 256, 1000, 1024, 1025, 4097, 10001, 65537, 100003, 131073, 300001] +
                                 ([262144, 1000003, 2097153] if T else [1000003])), doc="lengths x levels, one dense script each"),
            Harness("long pink", longpink([(150, 80), (130, 33), (300, 5), (260, 128), (40, 300), (12, 600), (6, 1500), (150, 140), (300, 140), (260, 13), (1560, 1550), (2080, 2050)] +
                                               ([(600, 80), (1100, 17), (520, 300), (1100, 1050), (2100, 12), (4110, 4100)] if T else []))),
            Harness("history", history(5 if T else 3)),
            Harness("interleaved", interleaved(9 if T else 7))]


SPEC = dict(level="model_checking", harnesses=harnesses,
            rule="One execution = one configuration run on the zero script, on every basis script of the Gaussian generator and on dense scripts; "
                 "output = L z for all z, and L L^T compared with the documented law. distinct = distinct configuration or script.",
            assumptions=["the Gaussian draws come from numpy.random or random (replaced by the script)",
                         "linearity beyond the explored scripts follows from the zero, basis, word and dense scripts"])
