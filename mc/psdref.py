"""Reference integrals for the PSD <-> Allan conversions."""
import numpy as np
from scipy.special import gamma
from scipy.interpolate import CubicSpline

GX, GW = np.polynomial.legendre.leggauss(16)
FOUR = {"adev": (3 / 8.0, ((2, -0.5), (4, 0.125))),
        "hdev": (4 / 3.0 * 10 / 32, ((2, -4 / 3.0 * 15 / 32), (4, 4 / 3.0 * 6 / 32), (6, -4 / 3.0 / 32)))}


def J(mu, kind="adev"):
    """int_0^inf q(z) sin^4 z / z^(3+mu) dz in closed form (analytic continuation of the cosine integral)."""
    def F(s):
        return gamma(1 - s) * np.sin(np.pi * s / 2) * sum(w * k ** (s - 1) for k, w in FOUR[kind][1])
    s = 3.0 + mu
    if abs(s - round(s)) < 1e-4:            # removable singularity
        return 0.5 * (F(s + 2e-4) + F(s - 2e-4))
    return F(s)


def _osc(A, a, k):
    """int_A^inf cos(kz) z^(a-2) dz for large A (integration by parts)."""
    p, t, s = a - 2.0, 1.0 + 0j, 0j
    for j in range(12):
        s += t
        t = t * (-(p - j)) / (1j * k * A)
    return (-(A ** p) * np.exp(1j * k * A) / (1j * k) * s).real


def segment(lo, hi, a):
    """int_lo^hi sin^4(z) z^(a-2) dz."""
    tot = 0.0
    if lo < 200.0:
        top = min(hi, 200.0)
        if lo < 0.5:
            t = min(0.5, top)
            if lo == 0:
                e = t * 2.0 ** np.arange(-40, 1)
                tot += e[0] ** (a + 3) / (a + 3)
            else:
                n = max(1, int(np.ceil(np.log2(t / lo))))
                e = lo * (t / lo) ** (np.arange(n + 1) / float(n))
            u, v = e[:-1, None], e[1:, None]
            z = (u + v) / 2 + (v - u) / 2 * GX
            tot += np.sum((v - u) / 2 * GW * np.sin(z) ** 4 * z ** (a - 2))
            lo = t
        if top > lo:
            e = np.linspace(lo, top, int(np.ceil((top - lo) / 0.5)) + 1)
            u, v = e[:-1, None], e[1:, None]
            z = (u + v) / 2 + (v - u) / 2 * GX
            tot += np.sum((v - u) / 2 * GW * np.sin(z) ** 4 * z ** (a - 2))
        lo = top
    if hi > lo:
        osc = lambda A: -0.5 * _osc(A, a, 2) + 0.125 * _osc(A, a, 4)
        if np.isinf(hi):
            tot += 0.375 * lo ** (a - 1) / (1 - a) + osc(lo)
        else:
            m = np.log(hi / lo) if a == 1 else (hi ** (a - 1) - lo ** (a - 1)) / (a - 1)
            tot += 0.375 * m + osc(lo) - osc(hi)
    return tot


def piecewise(h, alpha, nodes, taus):
    edges = [0.0] + list(nodes) + [np.inf]
    out = []
    for t in taus:
        out.append(np.sqrt(2 * sum(h[i] / (np.pi * t) ** (alpha[i] + 1) * segment(np.pi * t * edges[i], np.pi * t * edges[i + 1], alpha[i])
                                   for i in range(len(h)))))
    return np.array(out)


def band(S, df, tau, kind):
    """Allan or modified Allan deviation of the tabulated PSD (cubic between the points), 0..(len-1)*df."""
    k = {"adev": 1, "mdev": 2}[kind]
    spl = CubicSpline(np.arange(len(S)), np.asarray(S, dtype=float))
    fm = (len(S) - 1) * df
    sub = max(2, int(np.ceil(8.0 * tau * df)))
    e = np.linspace(0, len(S) - 1, (len(S) - 1) * sub + 1)
    u, v = e[:-1, None], e[1:, None]
    q = (u + v) / 2 + (v - u) / 2 * GX
    x = np.pi * q * df * tau
    r = np.sin(x) ** (2 * k + 2) / x ** (2 * k)
    s2 = 2 * np.sum((v - u) / 2 * GW * spl(q) * r) * df
    return np.sqrt(s2) if s2 >= 0 else np.nan
