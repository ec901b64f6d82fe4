"""C19: Timmer-Koenig synthesis = documented linear filter of its Gaussian draws."""
import numpy as np
import allantools as at
from allantools import noise
from ..engine import Harness
from .. import rng
from ..refs import lcg

SEGS = {
    "white FM": ([], [2.0], [0.0]),
    "flicker FM": ([], [3e-24], [-1.0]),
    "white PM": ([], [1.0], [2.0]),
    "two, continuous": ([0.5], [1.0, 2.0], [-1.0, 0.0]),
    "two, step": ([0.5], [1.0, 50.0], [-2.0, 1.0]),
    "three, continuous": ([0.2, 0.6], [1.0, 5.0, 5.0 / 0.6], [-2.0, -1.0, 0.0]),
    "three, step": ([0.2, 0.6], [1.0, 70.0, 0.3], [0.0, -1.0, 2.0]),
    "four, step": ([0.15, 0.4, 0.8], [1.0, 9.0, 0.2, 30.0], [-2.0, 0.0, 1.0, -1.0]),
    "four, one empty": ([0.15, 0.4, 0.8], [1.0, 0.0, 0.2, 30.0], [-2.0, 0.0, 1.0, -1.0]),
    "breaks below band": ([1e-9, 1e-8, 0.5], [7.0, 9.0, 2.0, 11.0], [-1.0, 0.0, 0.0, 1.0]),
    "fractional": ([0.3], [2.0, 0.7], [-0.5, 0.8]),
    "steep": ([0.4], [1e-3, 5.0], [-4.0, 3.0]),
    "whole numbers": ([], [3], [-2]),
    "breaks above band": ([0.5, 50.0, 60.0], [7.0, 9.0, 2.0, 11.0], [-1.0, 0.0, 0.0, 1.0]),
}


def phase_cov(n, dt, nodes, h, alpha):
    """Covariance of the documented synthesis: sum over the Fourier frequencies of Sx(f_k) cos(2 pi k (s-t)/n)."""
    half = n // 2
    f1, fn = 1.0 / ((n - 1) * dt), 0.5 / dt
    t = np.arange(n)
    C = np.zeros((n, n))
    for k in range(1, half + 1):
        f = f1 + k * (fn - f1) / half
        i = sum(1 for b in nodes if b <= f)
        Sx = h[i] * f ** alpha[i] / (2 * np.pi * f) ** 2
        arg = 2 * np.pi * k * t / n
        if 2 * k == n:
            C += 0.25 * Sx * np.outer(np.cos(arg), np.cos(arg))
        else:
            C += Sx * (np.outer(np.cos(arg), np.cos(arg)) + np.outer(np.sin(arg), np.sin(arg)))
    return C * (n - 1) / dt / float(n) ** 2


def differ(n, dt):
    D = np.zeros((n, n))
    for k in range(1, n):
        D[k, k], D[k, k - 1] = 1.0 / dt, -1.0 / dt
    return D


def breaks(nodes, n, dt):
    """Break frequencies as fractions of the Nyquist frequency, kept away from the grid of frequencies."""
    f1, fn = 1.0 / ((n - 1) * dt), 0.5 / dt
    g = f1 + np.arange(n // 2 + 1) * (fn - f1) / (n // 2)
    out = []
    for b in nodes:
        b = b * fn
        while np.min(np.abs(g / b - 1)) < 1e-6:
            b *= 1.00001
        out.append(b)
    return out


def law(ns, dts):
    def fn(c):
        seg = c.choose("PSD", sorted(SEGS))
        n = c.choose("points", ns)
        dt = c.choose("time step", dts)
        out = c.choose("output", ["phase", "freq"])
        form = c.choose("containers", ["list", "array", "keywords"])
        nodes, h, al = SEGS[seg]
        nodes = breaks(nodes, n, dt)
        dur = (n + 0.5) * dt
        if form == "list":
            f = lambda: noise.timmer_koenig_from_psd(nodes, h, al, dur, dt, out)
        elif form == "array":
            f = lambda: at.timmer_koenig_from_psd(np.array(nodes), np.array(h), np.array(al), dur, dt, out)
        else:
            f = lambda: noise.timmer_koenig_from_psd(timestep=dt, duration=dur, h=tuple(h), f_nodes=tuple(nodes), alpha=np.array(al), output=out)
        L = rng.response(c, f)
        c.equal(L.shape[0], n, "number of points")
        C = phase_cov(n, dt, nodes, h, al)
        if out == "freq":
            # "freq" is the difference quotient of the phase series of the same draws
            P = rng.response(c, lambda: noise.timmer_koenig_from_psd(nodes, h, al, dur, dt, "phase"))
            D = differ(n, dt)
            c.close(L, D.dot(P), "frequency output is not the differences of the phase output / dt", rtol=1e-9, atol=1e-9 * float(np.max(np.abs(L))))
            C = D.dot(C).dot(D.T)
        # compare on the scale of the largest variance
        s = float(np.max(np.abs(C)))
        c.close(L.dot(L.T), C, "law of the synthesis", rtol=1e-8, atol=1e-9 * s, n=n, dt=dt, PSD=seg, output=out)
        rng.linear(c, f, L, [rng.dense(2)(k) for k in range(L.shape[1])], "Timmer-Koenig", rtol=1e-9)
        c.outcome(seg, n, dt, out, form)
    return fn


def longlaw(ns):
    """Long records: the Fourier coefficients divided by the documented amplitudes are the draws (in any order)."""
    def fn(c):
        n = c.choose("points", ns)
        seg = c.choose("PSD", ["white PM", "flicker FM", "three, step", "two, continuous"])
        dt = c.choose("time step", [1.0, 0.02])
        nodes, h, al = SEGS[seg]
        half = n // 2
        f1, fn_ = 1.0 / ((n - 1) * dt), 0.5 / dt
        f = f1 + np.arange(1, half + 1) * (fn_ - f1) / half
        nodes = [b * fn_ for b in nodes]
        i = np.searchsorted(nodes, f, side="right")
        amp = 0.5 * np.sqrt(np.array(h)[i] * f ** np.array(al)[i] / (2 * np.pi * f) ** 2 * (n - 1) / dt)
        clear = np.ones(half, dtype=bool)
        for b in nodes:
            clear &= np.abs(f / b - 1) > 1e-9
        z = np.array(lcg(n % 83 + 1, 2 * n + 9, -5000, 5000))
        with rng.scripted(z) as s:
            c.call()
            y = np.asarray(noise.timmer_koenig_from_psd(nodes, h, al, (n + 0.5) * dt, dt))
        c.equal(y.shape, (n,), "number of points")
        F = np.fft.rfft(y)
        c.check(abs(F[0]) <= 1e-9 * np.max(np.abs(F)), "the phase has a mean", got=F[0])
        w = F[1:half + 1] / amp
        last = half - 1 if n % 2 == 0 else half
        v = np.concatenate((w.real[clear], w.imag[:last][clear[:last]]))
        rng.same_draws(c, v, z, s.n, "Timmer-Koenig synthesis", tol=0.05, points=n, PSD=seg, dt=dt)
        with rng.scripted(z) as s:
            c.call()
            d = np.asarray(noise.timmer_koenig_from_psd(nodes, h, al, (n + 0.5) * dt, dt, "freq"))
        c.close(d, np.concatenate(([0.0], np.diff(y))) / dt, "frequency output is not the differences of the phase output / dt", rtol=1e-9,
                atol=1e-12 * float(np.max(np.abs(y))) / dt)
        c.outcome(n, seg, dt)
    return fn


def manysegments(ks, ns):
    """PSDs of many segments: the coefficients divided by the documented amplitudes are the draws."""
    def fn(c):
        k = c.choose("segments", ks)
        n = c.choose("points", ns)
        dt = c.choose("time step", [1.0, 0.02])
        spread = c.choose("breaks", ["linear", "logarithmic", "low", "high"])
        half = n // 2
        f1, fn_ = 1.0 / ((n - 1) * dt), 0.5 / dt
        f = f1 + np.arange(1, half + 1) * (fn_ - f1) / half
        u = (np.arange(1, k) - 0.37) / k
        nodes = {"linear": f1 + u * (fn_ - f1), "logarithmic": f1 * (fn_ / f1) ** u, "low": f1 * (1 + 0.1 * u), "high": fn_ * (0.9 + 0.2 * u)}[spread]
        h = [[1.0, 7.0, 0.2, 30.0, 2.0][i % 5] * (1 + i) for i in range(k)]
        al = [[0.0, -1.0, 1.0, -2.0][i % 4] for i in range(k)]
        i = np.searchsorted(nodes, f, side="right")
        amp = 0.5 * np.sqrt(np.array(h)[i] * f ** np.array(al)[i] / (2 * np.pi * f) ** 2 * (n - 1) / dt)
        clear = np.ones(half, dtype=bool)
        for b in nodes:
            clear &= np.abs(f / b - 1) > 1e-9
        z = np.array(lcg(n % 83 + k, 2 * n + 9, -5000, 5000))
        with rng.scripted(z) as s:
            c.call()
            y = np.asarray(noise.timmer_koenig_from_psd(nodes.tolist(), h, al, (n + 0.5) * dt, dt))
        c.equal(y.shape, (n,), "number of points")
        w = np.fft.rfft(y)[1:half + 1] / amp
        last = half - 1 if n % 2 == 0 else half
        v = np.concatenate((w.real[clear], w.imag[:last][clear[:last]]))
        rng.same_draws(c, v, z, s.n, "Timmer-Koenig synthesis of %d segments" % k, tol=0.05, points=n, breaks=spread, dt=dt)
        c.outcome(k, n, dt, spread)
    return fn


def words(n):
    """Every outcome of the generator over an alphabet."""
    def fn(c):
        out = c.choose("output", ["phase", "freq"])
        nodes, h, al = SEGS[c.choose("PSD", ["two, step", "white PM"])]
        f = lambda: noise.timmer_koenig_from_psd(nodes, h, al, n * 1.0, 1.0, out)
        L = rng.response(c, f)
        z = c.word("draw", [0, 1, -2], min(L.shape[1], 6))
        z += [1] * (L.shape[1] - len(z))
        rng.linear(c, f, L, z, "Timmer-Koenig")
        c.check(np.isrealobj(np.asarray(f())), "the series is not real")
        c.outcome(out, z)
    return fn


def segments(nmax, n):
    """All words of exponents and levels; every number of segments, breaks at every place of the frequency grid (including exactly on it)."""
    def fn(c):
        k = c.choose("segments", list(range(1, nmax + 1)))
        al = [c.choose("alpha %d" % i, [-2.0, 0.0, 1.0]) for i in range(k)]
        dt = 0.5
        f1, fn_ = 1.0 / ((n - 1) * dt), 0.5 / dt
        half = n // 2
        g = [f1 + q * (fn_ - f1) / half for q in range(half + 1)]
        pos, where = [], []
        for i in range(k - 1):
            lo = where[-1] + 1 if where else 0
            w = c.choose("break %d" % i, list(range(lo, half + 2)) if lo < half + 2 else [lo])
            where.append(w)
            # between grid points w-1 and w
            pos.append(g[0] * 0.5 if w == 0 else (g[w - 1] * 0.7 + g[w] * 0.3 if w <= half else g[half] * (1.1 + 0.1 * w)))
        h = [[1.0, 40.0, 0.5, 9.0][i] for i in range(k)]
        on = c.choose("break placed", ["between", "on grid"]) if k > 1 else "between"
        if on == "on grid":
            # exactly on a frequency of the grid: levels continuous there, so that the segment does not matter
            pos = [float(np.linspace(f1, fn_, half + 1)[min(w, half)]) for w in where]
            if len(set(pos)) != len(pos):
                return
            for i in range(1, k):
                h[i] = h[i - 1] * pos[i - 1] ** (al[i - 1] - al[i])
        f = lambda: noise.timmer_koenig_from_psd(pos, h, al, n * dt, dt)
        L = rng.response(c, f)
        C = phase_cov(n, dt, pos, h, al)
        c.close(L.dot(L.T), C, "law of the synthesis", rtol=1e-8, atol=1e-9 * float(np.max(np.abs(C))), alpha=al, h=h, nodes=pos, on=on)
        c.outcome(al, pos)
    return fn


def ongrid(ns):
    """Breaks exactly on frequencies of the grid (grids that are exact in binary): the segment begins at its break."""
    def fn(c):
        n = c.choose("points", ns)
        dt = c.choose("time step", [1.0, 0.25])
        half = n // 2
        f1, fn_ = 1.0 / ((n - 1) * dt), 0.5 / dt
        g = [f1 + q * (fn_ - f1) / half for q in range(half + 1)]
        k = c.choose("segments", [2, 3, 4])
        w = [c.choose("break %d" % i, list(range(1, half + 1))) for i in range(k - 1)]
        if w != sorted(set(w)):
            return
        nodes = [g[i] for i in w]
        h, al = [1.0, 60.0, 0.4, 7.0][:k], [0.0, 1.0, -1.0, 0.0][:k]
        L = rng.response(c, lambda: noise.timmer_koenig_from_psd(nodes, h, al, n * dt, dt))
        C = phase_cov(n, dt, nodes, h, al)
        c.close(L.dot(L.T), C, "law of the synthesis with breaks on the grid", rtol=1e-8, atol=1e-9 * float(np.max(np.abs(C))), nodes=nodes, n=n)
        c.outcome(n, dt, w)
    return fn


def longgrid(ns):
    """Long grids that are exact in binary, breaks exactly on frequencies of the grid."""
    def fn(c):
        n = c.choose("points", ns)
        dt = c.choose("time step", [1.0, 0.25])
        half = n // 2
        f1, fn_ = 1.0 / ((n - 1) * dt), 0.5 / dt
        f = f1 + np.arange(half + 1) * (fn_ - f1) / half
        w = c.choose("breaks", [[1], [half], [half - 1], [half // 2], [half // 3, half // 2 + 1], [3, 7, half // 2, half - 1],
                                list(range(5, half, half // 13 + 1)), list(range(half // 2, half // 2 + min(40, half // 4)))])
        nodes = [float(f[q]) for q in w]
        k = len(nodes) + 1
        h, al = [[1.0, 60.0, 0.4, 7.0, 900.0][q % 5] for q in range(k)], [[0.0, 1.0, -1.0, 0.0][q % 4] for q in range(k)]
        i = np.searchsorted(w, np.arange(1, half + 1), side="right")
        f = f[1:]
        amp = 0.5 * np.sqrt(np.array(h)[i] * f ** np.array(al)[i] / (2 * np.pi * f) ** 2 * (n - 1) / dt)
        z = np.array(lcg(n % 83 + 1, 2 * n + 9, -5000, 5000))
        with rng.scripted(z) as s:
            c.call()
            y = np.asarray(noise.timmer_koenig_from_psd(nodes, h, al, n * dt, dt))
        c.equal(y.shape, (n,), "number of points")
        W = np.fft.rfft(y)[1:half + 1] / amp
        last = half - 1 if n % 2 == 0 else half
        rng.same_draws(c, np.concatenate((W.real, W.imag[:last])), z, s.n, "Timmer-Koenig synthesis", tol=0.05, points=n, nodes=nodes, dt=dt)
        c.outcome(n, dt, w)
    return fn


def contrast(ns):
    """Segments whose levels differ by many decades: each coefficient has the amplitude of its own segment."""
    def fn(c):
        n = c.choose("points", ns)
        lev = c.choose("levels", [[1.0, 1e-10], [1e-16, 1.0], [1.0, 1e-18, 1.0], [1e-14, 1.0, 1e-18], [1e-30, 1e-16, 1e-26]])
        dt = c.choose("time step", [1.0, 0.02])
        half = n // 2
        f1, fn_ = 1.0 / ((n - 1) * dt), 0.5 / dt
        f = f1 + np.arange(1, half + 1) * (fn_ - f1) / half
        nodes = [float(f[int(half * (q + 1) / len(lev))] + 0.4 * (f[1] - f[0])) for q in range(len(lev) - 1)]
        i = np.searchsorted(nodes, f, side="right")
        amp = 0.5 * np.sqrt(np.array(lev)[i] * f ** 2 / (2 * np.pi * f) ** 2 * (n - 1) / dt)
        z = np.array(lcg(n % 83 + 1, 2 * n + 9, -90, 90))
        with rng.scripted(z) as s:
            c.call()
            y = np.asarray(noise.timmer_koenig_from_psd(nodes, lev, [2.0] * len(lev), (n + 0.5) * dt, dt))
        c.equal(y.shape, (n,), "number of points")
        W = np.fft.rfft(y)[1:half + 1] / amp
        last = half - 1 if n % 2 == 0 else half
        rng.same_draws(c, np.concatenate((W.real, W.imag[:last])), z, s.n, "Timmer-Koenig synthesis", tol=0.05, points=n, levels=lev, dt=dt)
        c.outcome(n, lev, dt)
    return fn


def scales(ns):
    """Noise levels and time steps over many decades."""
    def fn(c):
        n = c.choose("points", ns)
        dt = c.choose("time step", [1.0, 1e-9, 86400.0, 1e-3])
        s = c.choose("level", [1e-26, 1e-44, 1e-62, 1e-80, 1e30])
        seg = c.choose("PSD", ["white FM", "three, step", "white PM"])
        out = c.choose("output", ["phase", "freq"])
        nodes, h, al = SEGS[seg]
        nodes, h = breaks(nodes, n, dt), [v * s for v in h]
        L = rng.response(c, lambda: noise.timmer_koenig_from_psd(nodes, h, al, (n + 0.5) * dt, dt, out))
        C = phase_cov(n, dt, nodes, h, al)
        if out == "freq":
            D = differ(n, dt)
            C = D.dot(C).dot(D.T)
        c.close(L.dot(L.T), C, "law of the synthesis", rtol=1e-8, atol=1e-9 * float(np.max(np.abs(C))), n=n, dt=dt, level=s, PSD=seg)
        c.outcome(n, dt, s, seg, out)
    return fn


def level(ns):
    """The one-sided PSD of the phase (periodogram averaged over all outcomes) is S_y/(2 pi f)^2 up to the grid convention."""
    def fn(c):
        n = c.choose("points", ns)
        dt = c.choose("time step", [1.0, 300.0])
        a = c.choose("alpha", [-2.0, -1.0, 0.0, 1.0, 2.0])
        h0 = 1e-25 if dt == 1.0 else 3.0
        L = rng.response(c, lambda: noise.timmer_koenig_from_psd([], [h0], [a], n * dt + dt / 4, dt))
        F = np.fft.rfft(L, axis=0)
        S = 2 * dt / n * np.sum(np.abs(F) ** 2, axis=1)
        k = np.arange(n // 8, n // 2)
        f = k / (n * dt)
        c.close(S[k], h0 * f ** a / (2 * np.pi * f) ** 2, "one-sided PSD of the phase", rtol=40.0 / n)
        c.close(S[0], 0.0, "the phase has a mean", atol=1e-9 * float(np.max(S)))
        c.outcome(n, dt, a, h0)
    return fn


def seeds(length):
    """Histories of calls with and without seed on the real generator."""
    def fn(c):
        kind = c.choose("output", ["phase", "freq"])
        args = ([0.2], [1.0, 2.0], [-1.0, 0.0], 12.0, 1.0, kind)
        ref = {}
        state = None            # (seed, number of unseeded calls since)
        for k in range(length):
            op = c.choose("call %d" % k, ["seed 1", "seed 0", "seed 1 numpy int", "np.random.seed(1)", "np.random.seed(5)", "no seed", "seed None"])
            c.call()
            if op.startswith("np."):
                s = int(op[-2])
                np.random.seed(s)
                state = (s, 0)
                continue
            if op.startswith("seed") and op != "seed None":
                s = int(op.split()[1])
                y = noise.timmer_koenig_from_psd(*args, seed=np.int64(s) if "numpy" in op else s)
                state = (s, 0)
            else:
                if state is None:
                    np.random.seed(5)
                    state = (5, 0)
                y = noise.timmer_koenig_from_psd(*args) if op == "no seed" else noise.timmer_koenig_from_psd(*args, seed=None)
            key = state
            state = (state[0], state[1] + 1)
            y = np.asarray(y)
            if key in ref:
                c.check(np.array_equal(ref[key], y), "not reproducible", op=op, state=key)
            for q, v in ref.items():
                if q != key:
                    c.check(not np.array_equal(v, y), "different generator states give the same series", a=q, b=key)
            ref[key] = y.copy()
            c.check(y.dtype.kind == "f" and y.shape == (12,), "12 real points")
            c.outcome(kind, op, key)
    return fn


def refused(c):
    bad = c.choose("argument", ["duration 0", "duration < 0", "timestep 0", "timestep < 0", "h longer", "alpha longer", "too many nodes", "too few nodes",
                                "node for one segment", "three points", "no point", "output", "output empty"])
    seed = c.choose("seed", [None, 1])
    a = dict(f_nodes=[0.2], h=[1.0, 2.0], alpha=[0.0, -1.0], duration=16.0, timestep=1.0, output="phase", seed=seed)
    a.update({"duration 0": dict(duration=0.0), "duration < 0": dict(duration=-16.0), "timestep 0": dict(timestep=0.0), "timestep < 0": dict(timestep=-1.0),
              "h longer": dict(h=[1.0, 2.0, 3.0]), "alpha longer": dict(alpha=[0.0, 1.0, 2.0]), "too many nodes": dict(f_nodes=[0.1, 0.2]),
              "too few nodes": dict(h=[1.0, 2.0, 3.0], alpha=[0.0, 1.0, 2.0]), "node for one segment": dict(h=[1.0], alpha=[0.0]),
              "three points": dict(duration=3.5), "no point": dict(duration=0.5), "output": dict(output="time"), "output empty": dict(output="")}[bad])
    c.call()
    try:
        noise.timmer_koenig_from_psd(**a)
    except ValueError:
        c.outcome(bad, seed)
        return
    c.fail("timmer_koenig_from_psd accepts %s" % bad)


def harnesses(tier):
    T = tier == "thorough"
    return [Harness("law", law(list(range(4, 34)) + [64, 65, 101] if T else [4, 5, 8, 9, 16, 21], [1.0, 0.1, 30.0] if T else [1.0, 0.02]), doc="all basis scripts"),
            Harness("long", longlaw([64, 100, 129, 257, 1000, 1024, 1025, 4097, 10001, 65536, 100003] + ([262144, 1000003] if T else [300001]))),
            Harness("words", words(8 if T else 7), doc="all scripts over {0, 1, -2}"),
            Harness("many segments", manysegments([2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 25, 32, 33, 40, 64, 65, 100] + ([130, 257] if T else []), [100, 1001] + ([10000] if T else []))),
            Harness("segments", segments(4 if T else 3, 12 if T else 10), doc="all words of exponents, breaks at all places of the frequency grid"),
            Harness("breaks on the grid", ongrid([9, 17, 33] if T else [9, 17])),
            Harness("long breaks on the grid", longgrid([33, 257, 1025, 4097, 16385, 65537] + ([262145] if T else []))),
            Harness("contrast", contrast([16, 33, 100, 257, 1024])),
            Harness("scales", scales([8, 15, 40] if T else [8, 15])),
            Harness("level", level([256, 301, 512] if T else [128, 201])),
            Harness("seeds", seeds(5 if T else 4)),
            Harness("refused", refused)]


SPEC = dict(level="model_checking", harnesses=harnesses, split=24,
            rule="Zero, basis, word and dense scripts of the Gaussian generator give the linear synthesis; its covariance is compared with the "
                 "documented spectrum; all seed histories. distinct = distinct configuration, script or generator state.",
            assumptions=["the frequency grid is the documented one (linspace from 1/((n-1)dt) to 1/(2dt))",
                         "the Gaussian draws come from numpy.random or random (replaced by the script)"])
