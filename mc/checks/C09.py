"""C09: equivalent degrees of freedom."""
import numpy as np
import allantools as at
from allantools import ci
from ..engine import Harness
from .. import edfref, refs

COMBOS = [(a, d) for d in (1, 2, 3) for a in (2, 1, 0, -1, -2, -3, -4) if a + 2 * d > 1]


def lengths(d, m, full):
    s = set([d * m + 2, d * m + 3, 2 * d * m + 2, (d + 1) * m, (d + 1) * m + 1, (d + 1) * m + 2, (2 * d + 1) * m, (2 * d + 1) * m + 1,
             (d + 2) * m + 3, 10 * m, 13 * m + 5, 30 * m + 7, 101 * m, 300 * m])
    if full:
        s |= set(k * m + j for k in range(d, 3 * d + 3) for j in (1, 2, 3)) | set([1000, 1001, 4096])
    return sorted(n for n in s if n > d * m + 1)


def one(c, alpha, d, m, N, ov, mod, rt):
    vals, case = edfref.edf(alpha, d, m, N, ov, mod)
    if not vals:
        return
    c.call()
    got = float(at.edf_greenhall(alpha, d, m, N, overlapping=ov, modified=mod))
    c.compared += 1
    if not any(abs(got - v) <= rt * abs(v) for v in vals):
        c.fail("edf_greenhall, case %s" % case, alpha=alpha, d=d, m=m, N=N, overlapping=ov, modified=mod, got=got, want=[float(v) for v in vals])
    if case in ("1.2", "1.3", "2.1b", "2.2", "2.3", "3.2", "3.3") and m <= 64:
        x = float(edfref.exact(alpha, d, m, N, ov, mod))
        c.check(abs(got / x - 1) < 0.05, "edf_greenhall: approximation far from the exact sum", alpha=alpha, d=d, m=m, N=N, got=got, exact=x, case=case)
    c.outcome(case, alpha, d, round(got, 9))


def greenhall(ms, full):
    def fn(c):
        alpha, d = c.choose("alpha, d", COMBOS)
        mod = c.choose("modified", [False, True])
        ov = c.choose("overlapping", [False, True])
        m = c.choose("m", ms)
        for N in lengths(d, m, full):
            one(c, alpha, d, m, N, ov, mod, 1e-9 + (1e-13 * m * m if alpha == 1 and not mod else 1e-10))
    return fn


def small(nmax):
    """Every (alpha, d, m, N) up to nmax samples."""
    def fn(c):
        alpha, d = c.choose("alpha, d", COMBOS)
        mod = c.choose("modified", [False, True])
        ov = c.choose("overlapping", [False, True])
        N = c.choose("N", range(3, nmax + 1))
        for m in range(1, (N - 2) // d + 1):
            one(c, alpha, d, m, N, ov, mod, 1e-9)
    return fn


def argtypes():
    """Arguments as they come out of the library: numpy scalars, floats; keyword and positional; verbose."""
    def fn(c):
        alpha, d = c.choose("alpha, d", COMBOS)
        m = c.choose("m", [1, 4, 40])
        N = c.choose("N", [150, 1000])
        mod, ov = c.choose("kind", [(False, False), (False, True), (True, True)])
        form = c.choose("form", ["float", "np.int64", "np.float64", "positional", "defaults", "verbose"])
        vals, case = edfref.edf(alpha, d, m, N, ov, mod)
        if not vals:
            return
        c.call()
        if form == "defaults":
            if mod or ov:
                return
            got = at.edf_greenhall(alpha, d, m, N)
        elif form == "positional":
            got = at.edf_greenhall(alpha, d, m, N, ov, mod)
        elif form == "verbose":
            got = at.edf_greenhall(alpha, d, m, N, ov, mod, True)
        else:
            t = {"float": float, "np.int64": np.int64, "np.float64": np.float64}[form]
            got = at.edf_greenhall(t(alpha), d, t(m), t(N), overlapping=ov, modified=mod)
        c.close(got, vals[0], "edf_greenhall with %s arguments" % form, rtol=1e-8)
    return fn


def simple(ms):
    """edf_greenhall_simple: the exact sum for any stride and filter factor."""
    def fn(c):
        alpha, d = c.choose("alpha, d", COMBOS)
        m = c.choose("m", ms)
        if not hasattr(ci, "edf_greenhall_simple"):      # not exported by the package
            return
        S = c.choose("S", [q for q in range(1, m + 1) if m % q == 0])
        F = c.choose("F", sorted(set([1, m])))
        for N in lengths(d, m, True):
            L = refs.LD(m) / F + m * d
            M = 1 + int(np.floor(refs.LD(S) * (N - L) / m))
            if M < 1:
                continue
            J = min(M, (d + 1) * S)
            w = 1 / (edfref.basic_sum(J, M, S, F, alpha, d) / (edfref.sz(0, F, alpha, d) ** 2 * M))
            c.call()
            got = ci.edf_greenhall_simple(alpha, d, m, S, F, N)
            c.close(got, w, "edf_greenhall_simple(alpha=%d, d=%d, m=%d, S=%d, F=%d, N=%d)" % (alpha, d, m, S, F, N),
                    rtol=1e-9 + (1e-13 * m * m if alpha == 1 else 1e-10))
        c.outcome(alpha, d, m, S, F)
    return fn


def tables(nlist):
    """SP1065 tables 5, 7, 8 for every m of every N in the list."""
    def fn(c):
        N = c.choose("N", nlist)
        alpha = c.choose("alpha", [2, 1, 0, -1, -2])
        form = c.choose("form", ["int", "float"])
        ms = range(1, N) if N < 300 else list(range(1, 60)) + [N // 10, N // 4, N // 3, N // 2 - 1]
        for m in ms:
            try:
                w = float(refs.edf_simple(N, m, alpha))
            except (ValueError, ZeroDivisionError, OverflowError):
                w = None
            a = (float(N), float(m), alpha) if form == "float" else (N, m, alpha)
            if w is not None:
                c.call()
                c.close(at.edf_simple(*a), w, "edf_simple(N=%d, m=%d, alpha=%d)" % (N, m, alpha), rtol=1e-9)
            c.call(2)
            t7 = {0: (1.5, 0.0), -1: (1.17, 0.22), -2: (0.93, 0.36)}.get(alpha)
            if t7:
                c.close(at.edf_totdev(*a), t7[0] * N / m - t7[1], "edf_totdev(N=%d, m=%d, alpha=%d)" % (N, m, alpha), rtol=1e-9, atol=1e-12)
            elif w is not None:
                c.close(at.edf_totdev(*a), w, "edf_totdev(N=%d, m=%d, alpha=%d)" % (N, m, alpha), rtol=1e-9)
            b, k = {2: (1.90, 2.10), 1: (1.20, 1.40), 0: (1.10, 1.20), -1: (0.85, 0.50), -2: (0.75, 0.31)}[alpha]
            c.close(at.edf_mtotdev(*a), b * N / m - k, "edf_mtotdev(N=%d, m=%d, alpha=%d)" % (N, m, alpha), rtol=1e-9, atol=1e-12)
        c.call()
        c.close(at.edf_simple(N, 1, None), N - 1, "edf_simple for an unknown noise type", rtol=1e-12)
        c.outcome(N, alpha)
    return fn


def harnesses(tier):
    T = tier == "thorough"
    ms = list(range(1, 41 if T else 37)) + [48, 49, 50, 51, 52, 64, 99, 100, 101, 102, 128, 200, 255, 300, 1000, 1024, 3000, 10000, 30001, 100000, 500000]
    if not T:
        ms = [m for m in ms if m < 12 or m in (16, 19, 20, 21, 24, 25, 26, 32, 33, 34, 36) or m > 47]
    return [Harness("greenhall", greenhall(ms, T), doc="all combinations, averaging factors and lengths at every case boundary"),
            Harness("small", small(60 if T else 26), doc="every m and N"),
            Harness("simple", simple([1, 2, 3, 4, 6, 10, 12] + ([16, 20, 30, 64] if T else [])), doc="exact sums with every stride that divides m"),
            Harness("arguments", argtypes()),
            Harness("tables", tables(list(range(4, 260 if T else 70)) + [100, 101, 128, 500, 1000, 1001, 4096, 10000, 1000000]))]


SPEC = dict(level="model_checking", harnesses=harnesses,
            rule="All (alpha, d) x overlapping x modified x averaging factors x lengths, dense up to the bound and at every case boundary; "
                 "distinct = distinct (case, value).",
            assumptions=["alpha = 2, unmodified, fewer than d+1 independent spans is documented as not implemented and not judged",
                         "constants of tables 1, 2, 3 (Greenhall & Riley) and 5, 7, 8 (SP1065) were transcribed by hand and cross-checked against exact sums"])
