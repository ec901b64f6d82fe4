"""Reference models: the published definitions, written down directly.

Everything is computed in 80-bit extended precision from the definition of the
estimator (explicit terms, prefix sums only to form window sums), independently
of the code under /repo.
"""
import math
import numpy as np

LD = np.longdouble
PI = LD("3.14159265358979323846264338327950288")


def ld(x):
    return np.array(x, dtype=LD)


def rms(terms):
    return np.sqrt(np.sum(terms * terms) / LD(len(terms)))


# ---- terms of the difference statistics -----------------------------------
def second_diff(x, m, stride=1):
    n = len(x) - 2 * m
    if n <= 0:
        return x[:0]
    t = x[2 * m:] - 2 * x[m:len(x) - m] + x[:n]
    return t[::stride]


def third_diff(x, m, stride=1):
    n = len(x) - 3 * m
    if n <= 0:
        return x[:0]
    t = x[3 * m:] - 3 * x[2 * m:len(x) - m] + 3 * x[m:len(x) - 2 * m] - x[:n]
    return t[::stride]


def window_sums(x, m):
    p = np.concatenate((np.zeros(1, dtype=LD), np.cumsum(x)))
    return p[m:] - p[:len(p) - m]


def _dev(terms, norm):
    n = len(terms)
    if n == 0:
        return None
    d = rms(terms) / norm
    return d, d / np.sqrt(LD(n)), n


def adev(x, m, rate):
    return _dev(second_diff(x, m, m), np.sqrt(LD(2)) * m / LD(rate))


def oadev(x, m, rate):
    return _dev(second_diff(x, m, 1), np.sqrt(LD(2)) * m / LD(rate))


def hdev(x, m, rate):
    return _dev(third_diff(x, m, m), np.sqrt(LD(6)) * m / LD(rate))


def ohdev(x, m, rate):
    return _dev(third_diff(x, m, 1), np.sqrt(LD(6)) * m / LD(rate))


def mdev(x, m, rate):
    if len(x) < 3 * m:
        return None
    return _dev(window_sums(second_diff(x, m, 1), m) / m, np.sqrt(LD(2)) * m / LD(rate))


def tdev(x, m, rate):
    r = mdev(x, m, rate)
    if r is None:
        return None
    d = r[0] * (m / LD(rate)) / np.sqrt(LD(3))
    return d, d / np.sqrt(LD(r[2])), r[2]


def pdev(x, m, rate):
    if m == 1:
        return oadev(x, m, rate)
    M = len(x) - 2 * m
    if M < 1:
        return None
    acc = np.zeros(M, dtype=LD)
    for k in range(m):
        w = LD(m - 1) / 2 - k
        acc += w * (x[k:k + M] - x[k + m:k + m + M])
    d = np.sqrt(72 * np.sum(acc * acc) / (LD(M) * LD(m) ** 4)) * LD(rate) / m
    return d, d / np.sqrt(LD(M)), M


def totdev(x, m, rate):
    N = len(x)
    if N < 3:
        return None
    left = 2 * x[0] - x[1:N - 1][::-1]      # x*(1-j) = 2 x(1) - x(1+j)
    right = 2 * x[-1] - x[1:N - 1][::-1]    # x*(N+j) = 2 x(N) - x(N-j)
    e = np.concatenate((left, x, right))
    c = np.arange(1, N - 1) + (N - 2)       # the N-2 interior points
    return _dev(e[c - m] - 2 * e[c] + e[c + m], np.sqrt(LD(2)) * m / LD(rate))


def _extended_sq(seg, m):
    """Mean square of the 6m second differences of m-averages of the extended sequence."""
    e = np.concatenate((seg[::-1], seg, seg[::-1]))
    a = window_sums(e, m) / m
    j = np.arange(6 * m)
    t = a[j] - 2 * a[j + m] + a[j + 2 * m]
    return np.sum(t * t) / (6 * m)


def _half_slope(seg, m):
    n = 3 * m
    h = n // 2
    first, last = seg[:h], seg[n - h:]
    dist = LD(n - h)                        # distance between the centres of the halves
    return (np.sum(last) - np.sum(first)) / h / dist


def mtotdev(x, m, rate):
    n = len(x) - 3 * m + 1
    if n < 1:
        return None
    acc = LD(0)
    k = np.arange(3 * m)
    for i in range(n):
        seg = x[i:i + 3 * m]
        acc += _extended_sq(seg - _half_slope(seg, m) * k, m)
    d = np.sqrt(acc / (2 * n)) * LD(rate) / m
    return d, d / np.sqrt(LD(n)), n


def ttotdev(x, m, rate):
    r = mtotdev(x, m, rate)
    if r is None:
        return None
    d = r[0] * (m / LD(rate)) / np.sqrt(LD(3))
    return d, d / np.sqrt(LD(r[2])), r[2]


def htotdev(y, x, m, rate):
    """y: frequency samples, x: the phase they integrate to."""
    if m == 1:
        return ohdev(x, 1, rate)
    n = len(y) - 3 * m + 1
    if n < 1:
        return None
    acc = LD(0)
    k = np.arange(3 * m)
    for i in range(n):
        seg = y[i:i + 3 * m]
        acc += _extended_sq(seg - _half_slope(seg, m) * k, m) / 6
    d = np.sqrt(acc / n)
    return d, d / np.sqrt(LD(n)), n


def theo1(x, m, rate):
    N = len(x)
    if m % 2 or N - m < 1:
        return None
    h = m // 2
    i = np.arange(N - m)
    acc = LD(0)
    for d in range(h):
        t = (x[i] - x[i - d + h]) + (x[i + m] - x[i + d + h])
        acc += np.sum(t * t) / LD(h - d)
    v = np.sqrt(acc / (LD("0.75") * (N - m))) * LD(rate) / m
    return v, v / np.sqrt(LD(N - m)), (N - m) * h


def mtie(x, m, rate):
    N = len(x)
    if N - m < 1:
        return None
    hi, lo = x[:N - m].copy(), x[:N - m].copy()
    for k in range(1, m + 1):
        np.maximum(hi, x[k:k + N - m], out=hi)
        np.minimum(lo, x[k:k + N - m], out=lo)
    d = np.max(hi - lo)
    return d, d / np.sqrt(LD(N - m)), N - m


def tierms(x, m, rate):
    N = len(x)
    if N - m < 1:
        return None
    d = rms(x[m:] - x[:N - m])
    return d, LD(0), N - m


PHASE_FUNCS = dict(adev=adev, oadev=oadev, mdev=mdev, tdev=tdev, hdev=hdev, ohdev=ohdev, pdev=pdev,
                   totdev=totdev, mtotdev=mtotdev, ttotdev=ttotdev, theo1=theo1, mtie=mtie, tierms=tierms)
ALL_FUNCS = list(PHASE_FUNCS) + ["htotdev"]
TIME_UNITS = ("tdev", "ttotdev", "mtie", "tierms")


def trim(y):
    y = ld(y)
    ok = np.where(~np.isnan(y.astype(float)))[0]
    return y[ok[0]:ok[-1] + 1]


def integrate(y, rate, remove_mean=True):
    y = trim(y)
    if remove_mean:
        good = y[~np.isnan(y.astype(float))]
        y = y - np.sum(good) / len(good)
    return np.concatenate((np.zeros(1, dtype=LD), np.cumsum(y))) / LD(rate)


def max_m(name, N, data_type):
    """Largest averaging factor that the estimator is evaluated at, for N phase samples."""
    if name in ("mtotdev", "ttotdev"):
        return min(N - 1, N // 3)
    if name == "htotdev":
        return min(N - 2, (N - 1) // 3)
    return N - 1


def expect(name, data, rate, data_type, ms):
    """Rows (m, dev, err, n) with n >= 2 for the averaging factors ms."""
    if data_type == "freq":
        x = integrate(data, rate)
        y = trim(data)
    else:
        x = ld(data)
        y = np.diff(x) * LD(rate)
    N = len(x)
    rows = []
    for m in sorted(set(int(m) for m in ms)):
        if m < 1 or m > max_m(name, N, data_type):
            continue
        if name == "theo1" and m % 2:
            continue
        r = htotdev(y, x, m, rate) if name == "htotdev" else PHASE_FUNCS[name](x, m, rate)
        if r is not None and r[2] > 1:
            rows.append((m,) + tuple(r))
    return rows


# ---- gaps -------------------------------------------------------------------
def edf_simple(N, m, alpha):
    """SP1065 table 5."""
    N, m = float(N), float(m)
    if alpha == 2:
        return (N + 1) * (N - 2 * m) / (2 * (N - m))
    if alpha == 1:
        return math.exp(math.sqrt(math.log((N - 1) / (2 * m)) * math.log((2 * m + 1) * (N - 1) / 4)))
    if alpha == 0:
        return (3 * (N - 1) / (2 * m) - 2 * (N - 2) / N) * 4 * m * m / (4 * m * m + 5)
    if alpha == -1:
        if m == 1:
            return 2 * (N - 2) ** 2 / (2.3 * N - 4.9)
        return 5 * N * N / (4 * m * (N + 3 * m))
    if alpha == -2:
        return (N - 2) / m * ((N - 1) ** 2 - 3 * m * (N - 1) + 4 * m * m) / (N - 3) ** 2
    return N - 1


def chi2_bounds(dev, edf, confidence):
    """Equal-tailed chi-squared interval holding `confidence` of the probability."""
    from scipy.special import gammaincinv
    tail = (1.0 - confidence) / 2.0
    lo = 2.0 * gammaincinv(edf / 2.0, tail)
    from scipy.special import gammainccinv
    hi = 2.0 * gammainccinv(edf / 2.0, tail)
    return float(dev) * math.sqrt(edf / hi), float(dev) * math.sqrt(edf / lo)


def gradev(data, m, rate):
    x = ld(data)
    n = len(x) - 2 * m
    if n <= 0:
        return None
    t = x[2 * m:] - 2 * x[m:len(x) - m] + x[:n]
    t = t[~np.isnan(t.astype(float))]
    if len(t) == 0:
        return None
    d = rms(t) / np.sqrt(LD(2)) / m * LD(rate)
    return d, len(t)


# ---- deterministic witness sequences ----------------------------------------
def lcg(seed, n, lo, hi):
    """n integers in [lo, hi] from a fixed 31-bit generator (no randomness involved)."""
    s = (seed * 2654435761 + 12345) & 0x7fffffff
    out = []
    span = hi - lo + 1
    for _ in range(n):
        s = (1103515245 * s + 12345) & 0x7fffffff
        out.append(lo + (s >> 12) % span)
    return out


def deck(kind, N, seed=1):
    """Deterministic integer-valued series of length N."""
    if kind == "white":
        return lcg(seed, N, -9, 12)
    if kind == "walk":
        out, s = [], 3
        for v in lcg(seed + 1, N, -4, 5):
            s += v
            out.append(s)
        return out
    if kind == "drift":
        return [(i * i) // 3 - 7 * i + 5 + v for i, v in enumerate(lcg(seed + 2, N, -9, 9))]
    if kind == "impulse":
        return [0] * (N - 1) + [1]
    raise ValueError(kind)


def fdeck(kind, N, seed=1):
    """The same with values that binary32 (or any shorter format) cannot hold."""
    return np.array(deck(kind, N, seed), dtype=float) / 7.0


# ---- noise identification ----------------------------------------------------
def poly_residual(x, deg):
    """Residual of the least-squares polynomial, by Gram-Schmidt in extended precision."""
    x = ld(x)
    n = len(x)
    t = (np.arange(n, dtype=LD) - LD(n - 1) / 2) / max(1, n)
    basis = []
    for k in range(deg + 1):
        v = t ** k
        for _ in range(2):
            for b in basis:
                v = v - np.sum(v * b) * b
        basis.append(v / np.sqrt(np.sum(v * v)))
    r = x
    for _ in range(2):
        for b in basis:
            r = r - np.sum(r * b) * b
    return r


def lag1(x):
    x = ld(x)
    z = x - np.sum(x) / len(x)
    return np.sum(z[:-1] * z[1:]) / np.sum(z * z)


def block_average(y, af):
    y = ld(y)
    k = len(y) // af
    return np.sum(y[:k * af].reshape(k, af), axis=1) / af


def noise_id(x, af, data_type="phase", dmin=0, dmax=2):
    """(alpha_int, alpha, d, rho, margin): margin = distance from the nearest decision threshold."""
    if data_type == "phase":
        z = ld(x)[::af]
        if len(z) < 30:
            return None
        z = poly_residual(z, 2)
    else:
        z = block_average(x, af)
        if len(z) < 30:
            return None
        z = poly_residual(z, 1)
    d, margin = 0, 9.0
    while True:
        r1 = lag1(z)
        rho = r1 / (1 + r1)
        if dmin <= d < dmax:
            margin = min(margin, abs(float(rho) - 0.25))
        if d >= dmin and (rho < 0.25 or d >= dmax):
            f = float(2 * rho)
            margin = min(margin, abs(f - np.floor(f) - 0.5))
            add = 2 if data_type == "phase" else 0
            return int(-np.rint(f)) - 2 * d + add, float(-2 * (rho + d)) + add, d, float(rho), margin
        z = np.diff(z)
        d += 1


def colour(b, N, seed=1):
    """Witness series of N points whose phase spectrum goes like f^b (fractional filter of a fixed integer series)."""
    w = np.array(lcg(seed, N, -50, 50), dtype=float)
    w -= np.mean(w)
    k = np.arange(1, N)
    h = np.concatenate(([1.0], np.cumprod((k - 1 - b / 2.0) / k)))
    if N > 2000:
        from scipy.signal import fftconvolve
        return fftconvolve(w, h)[:N]
    return np.convolve(w, h)[:N]
