"""C14: psd2allan, psd_piecewise_to_adev, adev2psd_piecewise_approx against the integrals."""
import numpy as np
import allantools as at
from ..engine import Harness
from .. import psdref

SHAPES = {"white": lambda u: 1 + 0 * u, "f": lambda u: u, "f2": lambda u: u * u, "offset f": lambda u: 2 + 3 * u,
          "1/f": lambda u: 1 / (u + 0.15), "1/f2": lambda u: 1 / (u + 0.3) ** 2, "bump": lambda u: 1 + 4 * u * (1 - u),
          "cubic": lambda u: 0.5 + (u - 0.5) ** 3}


def grid(N, base):
    """(required m, optional m) for a table of N points."""
    n = (N - 1) / 2.0
    opt = set()
    if base <= 1:
        req = set(float(k) for k in range(1, int(np.ceil(n))))
        opt.add(float(n))       # n itself only by rounding errors
        return req, opt
    lg = np.log(n) / np.log(base)
    top = int(np.floor(lg + 1e-9))
    req = set(float(np.round(base ** float(k))) for k in range(top))
    if abs(lg - round(lg)) < 1e-9:
        req.discard(float(np.round(base ** float(top - 1)))) if top >= 1 else None
        if top >= 1:
            opt.add(float(np.round(base ** float(top - 1))))
    if abs(n - np.floor(n) - 0.5) < 1e-9:
        opt |= {float(np.floor(n)), float(np.floor(n) + 1)}
    else:
        req.add(float(np.round(n)))
    return req, opt - req


def band(c, S, fa, df, kind, base, what):
    c.call()
    r = at.psd2allan(S, fa, kind, base)
    c.check(len(r) == 2 and len(r[0]) == len(r[1]), "psd2allan returns (taus, deviations)")
    t, d = np.asarray(r[0]), np.asarray(r[1])
    N = len(S)
    m = t * (N - 1) * df
    mr = np.round(m * 2) / 2
    c.close(m, mr, "%s: taus are multiples of 1/f_max" % what, rtol=1e-9)
    req, opt = grid(N, base)
    have = set(mr.tolist())
    c.check(len(have) == len(mr) and np.all(np.diff(mr) > 0) if len(mr) > 1 else True, "%s: taus increasing" % what, got=m)
    c.check(req <= have and have <= req | opt, "%s: tau grid" % what, got=m, want=sorted(req), optional=sorted(opt), N=N, base=base)
    return t, d, mr


def smooth(ns, dfs, bases, levels):
    """Smooth tabulated PSDs: every table size, step, kind, base and form of the axis."""
    def fn(c):
        N = c.choose("points", ns)
        shape = c.choose("shape", sorted(SHAPES))
        df = c.choose("step", dfs)
        kind = c.choose("kind", ["adev", "mdev"])
        base = c.choose("base", bases)
        form = c.choose("f given as", ["step", "axis", "numpy scalar"])
        level = c.choose("level", levels)
        u = np.arange(N) / float(N - 1)
        S = level * SHAPES[shape](u)
        fa = {"step": df, "axis": np.arange(N) * df, "numpy scalar": np.float64(df)}[form]
        t, d, mr = band(c, S, fa, float(df), kind, base, shape)
        for k in range(len(t)):
            want = psdref.band(S, float(df), t[k], kind)
            # discretisation error of the sum: largest where only 8 points fall into one period
            rt = 4e-3 if t[k] * df > 0.25 else 4e-4
            if N < 16 and shape.startswith("1/"):
                rt = 5e-3
            c.close(d[k], want, "%s of the tabulated PSD" % kind, rtol=rt, tau=t[k], m=mr[k], N=N, df=df, shape=shape)
        c.outcome(N, shape, df, kind, base, form, level)
    return fn


def words(n):
    """All tables over {2, 3, 5}: additivity, scaling and agreement with the integral of the interpolated table."""
    def fn(c):
        w = np.array(c.word("S", [2.0, 3.0, 5.0], n))
        kind = c.choose("kind", ["adev", "mdev"])
        df = c.choose("step", [1.0, 0.5])
        base = c.choose("base", [2, 1])
        t, d, mr = band(c, w, df, df, kind, base, "table")
        t2, d2, _ = band(c, 4.0 * w, df, df, kind, base, "4 x table")
        c.close(d2, 2.0 * d, "deviation does not scale with the square root of the PSD", rtol=1e-9)
        t3, d3, _ = band(c, w, df * 3, df * 3, kind, base, "table, 3 x step")
        c.close(t3, t / 3.0, "taus do not scale with the step", rtol=1e-9)
        c.close(d3, d * np.sqrt(3.0), "deviation does not scale with the step", rtol=1e-9)
        one = band(c, np.ones(n), df, df, kind, base, "constant")[1]
        v = one ** 2
        for j in range(n):
            e = np.ones(n)
            e[j] += 1
            dj = band(c, e, df, df, kind, base, "one + unit")[1]
            v = v + (w[j] - 1) * (dj ** 2 - one ** 2)
        c.close(d ** 2, v, "variance is not additive in the PSD", rtol=1e-8)
        for k in range(len(t)):
            want = psdref.band(w, df, t[k], kind)
            if t[k] * df <= 0.25:
                c.close(d[k], want, "%s of the tabulated PSD" % kind, rtol=0.01, tau=t[k], table=w)
            elif want == want:      # 8 samples per period of the transfer function on a rough table
                c.close(d[k] ** 2, want ** 2, "%s of the tabulated PSD" % kind, atol=0.1 * 5 * one[k] ** 2, rtol=0.02, tau=t[k], table=w)
        c.outcome(w.tolist(), kind, df, base)
    return fn


def reject(c):
    bad = c.choose("input", ["list S", "tuple S", "list f", "string f", "none f"])
    S = np.ones(9)
    args = {"list S": ([1.0] * 9, 1.0), "tuple S": ((1.0,) * 9, 1.0), "list f": (S, [0.0, 1.0, 2.0]), "string f": (S, "1"), "none f": (S, None)}[bad]
    c.call()
    try:
        at.psd2allan(*args)
    except (ValueError, TypeError):
        c.outcome(bad)
        return
    except Exception as e:
        if bad == "string f":
            return
        c.fail("psd2allan: unexpected %s" % type(e).__name__)
    c.fail("psd2allan accepts %s" % bad)


def defaults(c):
    """psd2allan(S) = psd2allan(S, f=1.0, kind='adev', base=2); capitalised kinds."""
    S = np.array([3.0, 1.0, 2.0, 2.5, 4.0, 1.0, 1.0, 2.0, 3.0, 0.5, 1.0, 2.0, 1.5])
    form = c.choose("call", ["default", "f", "kind", "keywords", "ints"] + ["a:" + k for k in ("A", "a", "ADEV", "Adev", "aDEV")] + ["m:" + k for k in ("m", "M", "MDEV", "Mdev", "mDEV", "mdev")])
    c.call(2)
    a = at.psd2allan(S, 1.0, "adev", 2)
    if form == "default":
        b = at.psd2allan(S)
    elif form == "f":
        b = at.psd2allan(S, f=1)
    elif form == "kind":
        b = at.psd2allan(S, kind="ADEV")
    elif form[1] == ":":
        a = at.psd2allan(S, 1.0, "adev" if form[0] == "a" else "mdev", 2)
        b = at.psd2allan(S, 1.0, form[2:], 2)
    elif form == "keywords":
        b = at.psd2allan(base=2.0, kind="adev", f=np.arange(13.0), S_y=S)
    else:
        a = at.psd2allan(np.round(S), 1.0, "mdev", 2)
        b = at.psd2allan(np.round(S).astype(int), 1, "Mdev", 2)
    c.close(b[0], a[0], "taus", rtol=1e-12)
    c.close(b[1], a[1], "deviation", rtol=1e-12)
    c.outcome(form)


# ---- piecewise PSD -> ADEV ---------------------------------------------------
def piecewise(nseg, alphas, taus):
    def fn(c):
        n = c.choose("segments", nseg)
        al = [c.choose("alpha %d" % k, alphas) for k in range(n - 1)] + [c.choose("last alpha", [a for a in alphas if a < 1])]
        conf = c.choose("nodes", [[1e-3, 1.0, 10.0], [1.0, 1.5, 2.0], [1e-7, 1e-4, 3e-2], [10.0, 300.0, 1000.0]])
        nodes = conf[:n - 1]
        cont = c.choose("levels", ["continuous", "steps", "first empty", "second empty", "last empty", "tiny", "high contrast"])
        h = [2.0]
        for k in range(1, n):
            h.append(h[-1] * nodes[k - 1] ** (al[k - 1] - al[k]) if cont == "continuous" else [2.0, 0.3, 50.0, 1.0][k])
        if cont.endswith("empty"):
            k = {"first": 0, "second": 1, "last": n - 1}[cont.split()[0]]
            if n == 1 or k >= n:
                return
            h[k] = 0.0
        elif cont == "tiny":
            h = [v * 1e-40 for v in h]
        elif cont == "high contrast":
            h = [v * 1e-18 ** (k % 2) for k, v in enumerate(h)]
        form = "array" if cont == "continuous" else "list"
        args = (np.array(h), np.array(al, dtype=float), np.array(nodes), np.array(taus)) if form == "array" else (h, al, nodes, list(taus))
        c.call()
        got = at.psd_piecewise_to_adev(*args)
        c.close(got, psdref.piecewise(h, al, nodes, taus), "ADEV of a piecewise PSD", rtol=1e-6, h=h, alpha=al, nodes=nodes)
        c.outcome(n, al, nodes, cont)
    return fn


def manyparts(ks, taus):
    def fn(c):
        k = c.choose("segments", ks)
        pat = c.choose("exponents", [[0.0, -1.0, -2.0, -1.0], [-2.5, 0.7], [0.0], [-1.0, 0.0, 0.5, 0.0]])
        spread = c.choose("breaks", ["wide", "narrow"])
        cont = c.choose("levels", ["continuous", "steps"])
        nodes = [10.0 ** (-4 + 7.0 * (i + 1) / k) if spread == "wide" else 0.02 * (i + 1) for i in range(k - 1)]
        al = [pat[i % len(pat)] for i in range(k)]
        h = [2.0]
        for i in range(1, k):
            h.append(h[-1] * nodes[i - 1] ** (al[i - 1] - al[i]) if cont == "continuous" else [2.0, 0.3, 50.0, 1.0, 7.0][i % 5])
        c.call()
        got = at.psd_piecewise_to_adev(h, al, nodes, list(taus))
        c.close(got, psdref.piecewise(h, al, nodes, taus), "ADEV of a PSD of %d segments" % k, rtol=1e-6, h=h, alpha=al, nodes=nodes)
        c.outcome(k, pat, spread, cont)
    return fn


# ---- ADEV -> piecewise PSD ----------------------------------------------------
def fit(nmax, kinds):
    def fn(c):
        kind = c.choose("vartype", kinds)
        n = c.choose("intervals", list(range(1, nmax + 1)))
        slopes = [-1.99, -1.5, -1, 0, 0.5, 1.9] if kind == "adev" else [-1.9, -1, 0, 1, 2.5, 3.9]
        mu = [c.choose("slope %d" % k, slopes) for k in range(n)]
        taus = c.choose("taus", [[1e-2, 1.0, 3.0, 100.0, 1e4, 1e5], [1.0, 2.0, 4.0, 8.0, 16.0, 32.0]])[:n + 1]
        level = c.choose("level", [1.0, 3e-13])
        form = c.choose("containers", ["array", "list", "upper case"])
        dev = [level]
        for k in range(n):
            dev.append(dev[-1] * (taus[k + 1] / taus[k]) ** (mu[k] / 2.0))
        # reference: merge equal slopes, largest tau (lowest frequency) first
        segs = []
        for k in range(n):
            if segs and segs[-1][0] == mu[k]:
                continue
            segs.append((mu[k], dev[k], taus[k]))
        al = [-s[0] - 1.0 for s in segs][::-1]
        h = [s[1] ** 2 * s[2] ** (-s[0]) / (2 * psdref.J(s[0], kind) * np.pi ** s[0]) for s in segs][::-1]
        if len(segs) == 1:
            f = [1.0 / taus[-1], 1.0 / taus[0]]
            Sy = [h[0] * x ** al[0] for x in f]
        else:
            f = [(h[k + 1] / h[k]) ** (1.0 / (al[k] - al[k + 1])) for k in range(len(h) - 1)]
            Sy = [h[k] * f[k] ** al[k] for k in range(len(f))]
        c.call()
        if form == "array":
            r = at.adev2psd_piecewise_approx(np.array(dev), np.array(taus), kind)
        elif form == "list":
            r = at.adev2psd_piecewise_approx(dev, taus, vartype=kind) if kind != "adev" else at.adev2psd_piecewise_approx(dev, taus)
        else:
            r = at.adev2psd_piecewise_approx(dev, taus, kind.upper())
        c.check(len(r) == 4, "four results")
        c.close(r[3], al, "exponents", rtol=1e-6, atol=1e-6, mu=mu)
        c.close(r[2], h, "levels", rtol=1e-4, mu=mu, kind=kind)
        c.close(r[0], f, "break frequencies", rtol=1e-3, mu=mu, kind=kind)
        c.close(r[1], Sy, "PSD at the break frequencies", rtol=2e-3, mu=mu)
        if kind == "adev" and len(segs) == 1:
            c.call()
            back = at.psd_piecewise_to_adev(r[2], r[3], r[0], taus)
            c.close(back, dev, "PSD of a power law converted back", rtol=1e-4, mu=mu)
        c.outcome(kind, mu, taus, level)
    return fn


def manyintervals(ns):
    """ADEVs of many intervals, with runs of equal slopes, over very short and very long taus."""
    def fn(c):
        n = c.choose("intervals", ns)
        kind = c.choose("vartype", ["adev", "hdev"])
        run = c.choose("intervals per slope", [1, 2, 3, 5])
        pat = c.choose("slopes", [[-1.0, -0.6, 0.0, 1.0], [1.5, -1.5], [-1.9, -1.0, 0.0, 1.0, 1.9, 0.3, -0.4], [0.0, 0.2]])
        t0 = c.choose("first tau", [1e-9, 1.0, 3e5])
        step = c.choose("ratio of taus", [2.0, 10.0, 1.5])
        if step ** n > 1e70:      # the reference leaves the range of double precision
            return
        mu = [pat[(k // run) % len(pat)] for k in range(n)]
        taus = [t0 * step ** k for k in range(n + 1)]
        dev = [2e-11]
        for k in range(n):
            dev.append(dev[-1] * step ** (mu[k] / 2.0))
        starts = [k for k in range(n) if k == 0 or mu[k] != mu[k - 1]][::-1]
        al = [-mu[k] - 1.0 for k in starts]
        h = [dev[k] ** 2 * taus[k] ** (-mu[k]) / (2 * psdref.J(mu[k], kind) * np.pi ** mu[k]) for k in starts]
        c.call()
        r = at.adev2psd_piecewise_approx(dev, taus, kind)
        c.close(r[3], al, "exponents of a fit with many intervals", rtol=1e-6, atol=1e-6, mu=mu)
        c.close(r[2], h, "levels of a fit with many intervals", rtol=1e-3, mu=mu)
        if len(h) > 1:
            f = [(h[k + 1] / h[k]) ** (1.0 / (al[k] - al[k + 1])) for k in range(len(h) - 1)]
            c.close(r[0], f, "break frequencies of a fit with many intervals", rtol=1e-2, mu=mu)
            c.close(r[1], [h[k] * f[k] ** al[k] for k in range(len(f))], "PSD at the break frequencies", rtol=2e-2, mu=mu)
        c.outcome(n, kind, run, pat, t0, step)
    return fn


def tolerance(c):
    """mu_tol decides which neighbouring slopes are one segment."""
    d = c.choose("slope difference", [0.0, 1e-7, 1e-3, 0.1])
    tol = c.choose("mu_tol", [None, 1e-6, 1e-2, 0.5])
    m0 = c.choose("slope", [-1.0, 0.0, 1.0])
    kind = c.choose("vartype", ["adev", "hdev"])
    taus = [1.0, 10.0, 100.0, 1000.0]
    mu = [m0, m0 - d, m0 - d - 0.7]
    dev = [1.0]
    for k in range(3):
        dev.append(dev[-1] * 10.0 ** (mu[k] / 2.0))
    c.call()
    r = at.adev2psd_piecewise_approx(dev, taus, kind) if tol is None else at.adev2psd_piecewise_approx(dev, taus, kind, mu_tol=tol)
    eff = 1e-5 if tol is None else tol
    n = 3 - (d <= eff) - (0.7 <= eff)
    c.check(len(r[2]) == n and len(r[3]) == n, "number of segments", got=len(r[2]), want=n, d=d, mu_tol=eff)
    c.equal(len(r[0]), n - 1 if n > 1 else 2, "number of break frequencies")
    c.check(np.all(np.diff(r[0]) > 0), "break frequencies ascending", got=r[0])
    c.close(r[3][-1], -m0 - 1.0, "exponent of the first interval", rtol=1e-9, atol=0.51 * eff + 1e-9)
    c.outcome(d, tol, m0, kind)


def slopes(n):
    """All words of slopes over two close pairs: exactly the slopes that differ by more than mu_tol start a segment."""
    def fn(c):
        S = [-1.0, -0.98, -0.6, -0.58]
        mu = c.word("slope ", S, n)
        kind = c.choose("vartype", ["adev", "hdev"])
        tol = c.choose("mu_tol", [0.1, 0.005])
        taus = [10.0 ** k for k in range(n + 1)]
        dev = [1.0]
        for k in range(n):
            dev.append(dev[-1] * 10.0 ** (mu[k] / 2.0))
        c.call()
        r = at.adev2psd_piecewise_approx(dev, taus, kind, mu_tol=tol)
        want = []
        for v in mu:
            if not want or abs(v - want[-1]) > tol:
                want.append(v)
        c.check(len(r[2]) == len(want) and len(r[3]) == len(want), "number of segments", got=list(r[3]), want=want, mu=mu, mu_tol=tol)
        c.close(r[3], [-v - 1.0 for v in want[::-1]], "exponents", atol=tol * 1.001 if tol == 0.1 else 1e-8)
        c.equal(len(r[0]), max(len(want) - 1, 1) if len(want) > 1 else 2, "number of break frequencies")
        c.outcome(mu, kind, tol)
    return fn


def malformed(c):
    bad = c.choose("input", ["lengths", "one point", "empty", "zero adev", "negative adev", "zero tau", "negative tau", "equal taus", "decreasing taus",
                             "2-D", "vartype", "too steep", "too steep up", "hdev too steep up", "steep later"])
    pos = c.choose("position", [0, 1, 2])
    dev, taus, vt = [1.0, 2.0, 3.0], [1.0, 2.0, 4.0], "adev"
    if bad == "lengths":
        (dev if pos else taus).append(9.0)
    elif bad == "one point":
        dev, taus = dev[:1], taus[:1]
    elif bad == "empty":
        dev, taus = [], []
    elif bad in ("zero adev", "negative adev"):
        dev[pos] = 0.0 if bad[0] == "z" else -1.0
    elif bad == "zero tau":
        taus = [0.0, 1.0, 2.0]
    elif bad == "negative tau":
        taus = [-2.0, -1.0, 3.0]
    elif bad == "equal taus":
        taus = [[1.0, 1.0, 2.0], [1.0, 2.0, 2.0], [2.0, 2.0, 2.0]][pos]
    elif bad == "decreasing taus":
        taus = [[4.0, 2.0, 1.0], [1.0, 4.0, 2.0], [2.0, 1.0, 4.0]][pos]
    elif bad == "2-D":
        dev, taus = [dev], [taus]
    elif bad == "vartype":
        vt = ["mdev", "tdev", ""][pos]
    elif bad == "too steep":
        dev = [[1.0, 0.4, 0.4], [1.0, 1.0, 0.4], [1.0, 0.4, 0.1]][pos]
    elif bad == "too steep up":
        dev = [[1.0, 2.2, 2.3], [1.0, 1.1, 2.9], [1.0, 3.0, 9.0]][pos]
    elif bad == "hdev too steep up":
        dev, vt = [[1.0, 4.2, 4.3], [1.0, 1.1, 5.9], [1.0, 5.0, 25.0]][pos], "hdev"
    else:
        dev, taus = [1.0, 1.0, 1.0, 0.3], [1.0, 2.0, 4.0, 8.0]
    c.call()
    try:
        at.adev2psd_piecewise_approx(dev, taus, vt)
    except ValueError:
        c.outcome(bad, pos)
        return
    c.fail("adev2psd_piecewise_approx accepts malformed input: %s" % bad, dev=dev, taus=taus)


def divergent(ns):
    """One segment too steep, at every position of a list of any length: refused; without it: accepted."""
    def fn(c):
        n = c.choose("intervals", ns)
        vt = c.choose("vartype", ["adev", "hdev"])
        pos = c.choose("too steep", [None] + list(range(n)))
        base = c.choose("others", [[-1.0, 0.0], [0.5, -1.5, 1.0]])
        mu = [base[k % len(base)] for k in range(n)]
        if pos is not None:
            mu[pos] = c.choose("slope", [-2.3, 2.4] if vt == "adev" else [-2.3, 4.4])
        ratio = c.choose("ratio", [2.0, 10.0])
        taus, dev = [1.0], [1.0]
        for v in mu:
            taus.append(taus[-1] * ratio)
            dev.append(dev[-1] * ratio ** (v / 2.0))
        c.call()
        try:
            at.adev2psd_piecewise_approx(dev, taus, vt)
        except ValueError:
            c.check(pos is not None, "adev2psd_piecewise_approx refuses convergent input", mu=mu)
            return
        c.check(pos is None, "adev2psd_piecewise_approx accepts a divergent segment", mu=mu, position=pos)
        c.outcome(n, vt, pos)
    return fn


def back(nmax):
    """Well separated segments: the ADEV of the fitted PSD follows the given ADEV inside every interval."""
    def fn(c):
        n = c.choose("intervals", list(range(2, nmax + 1)))
        mu = [c.choose("slope %d" % k, [-1.5, -1.0, 0.0, 1.0]) for k in range(n)]
        nodes = [10.0 ** (6 * k - 6) for k in range(n + 1)]
        dev = [1e-9]
        for k in range(n):
            dev.append(dev[-1] * (nodes[k + 1] / nodes[k]) ** (mu[k] / 2.0))
        c.call(2)
        f, Sy, h, al = at.adev2psd_piecewise_approx(dev, nodes)
        mid = [np.sqrt(nodes[k] * nodes[k + 1]) for k in range(n)]
        want = [dev[k] * (mid[k] / nodes[k]) ** (mu[k] / 2.0) for k in range(n)]
        got = at.psd_piecewise_to_adev(h, al, f, mid)
        c.close(got, want, "ADEV -> PSD -> ADEV", rtol=0.06, mu=mu)
        c.outcome(mu)
    return fn


def harnesses(tier):
    T = tier == "thorough"
    taus = [1e-9, 1e-3, 0.3, 1.0, 7.0, 1e3, 3e5]
    return [Harness("psd2allan smooth", smooth(list(range(5, 40)) + [64, 65, 101, 129], [1.0, 1, 0.1, 3.0, 1e-6, 1e5 / 7], [2, 2.0, 10, 1, 0, 3, 1.5, 4, 7, 10.0, 12, 16, 50, 1000, 1e6, 2.718281828459045, 1.1, -1, 0.5], [1.0, 3e-25])
                    if T else smooth([5, 8, 16, 33], [1.0, 1, 0.1, 1e5 / 7], [2, 10, 1, 1.5, 16, 100.0, 2.718281828459045], [3e-25])),
            Harness("psd2allan long", smooth([257, 1000, 1025] + ([2048, 4097, 10000] if T else []), [0.01], [2, 10] + ([3, 1.5, 100] if T else []), [1.0])),
            Harness("psd2allan words", words(7 if T else 5)),
            Harness("psd2allan defaults", defaults), Harness("psd2allan refused", reject),
            Harness("piecewise to adev", piecewise([1, 2, 3, 4] if T else [1, 2, 3], [-2.5, -2, -1, 0, 0.7, 2], taus)),
            Harness("many segments", manyparts([4, 5, 7, 8, 9, 10, 12, 16, 17, 20, 33] + ([64, 100] if T else []), [1e-3, 0.3, 1.0, 100.0])),
            Harness("slopes", slopes(6 if T else 5)),
            Harness("adev to piecewise", fit(4 if T else 3, ["adev", "hdev"])),
            Harness("many intervals", manyintervals([5, 6, 7, 8, 10, 16, 33] + ([64, 100] if T else []))),
            Harness("one divergent", divergent([1, 2, 3, 5, 9, 12, 20] + ([40] if T else []))),
            Harness("mu_tol", tolerance), Harness("malformed", malformed),
            Harness("there and back", back(4 if T else 3))]


SPEC = dict(level="model_checking", harnesses=harnesses,
            rule="All tables over a small alphabet, all smooth tables in every size/step/kind/base/axis combination, all words of segment exponents and "
                 "slopes; compared with Gauss-Legendre, closed-form and asymptotic evaluation of the same integrals. distinct = distinct configuration.",
            assumptions=["psd2allan interpolates the table with a cubic; its discretisation error is bounded by 4e-3 (measured 1.5e-3)",
                         "divergent integrals (slope exactly -2 or the upper limit) are not judged"])
