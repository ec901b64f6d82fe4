"""C20: numpy_psd and scipy_psd against direct sums."""
import numpy as np
import allantools as at
from allantools import noise
from ..engine import Harness
from ..refs import LD, deck, fdeck

PI = LD("3.14159265358979323846264338327950288")


def dft(x):
    """Direct DFT at k = 0 .. N/2 in extended precision."""
    x = np.asarray(x, dtype=LD)
    N = len(x)
    k = np.arange(N // 2 + 1)
    a = (np.outer(k, np.arange(N)) % N).astype(LD) * (2 * PI / N)
    return np.sum(x * np.cos(a), axis=1), np.sum(x * np.sin(a), axis=1)


def periodogram(x, fs):
    re, im = dft(x)
    N = len(x)
    return np.arange(N // 2 + 1) * (LD(fs) / N), (re ** 2 + im ** 2) * 2 / (LD(N) * LD(fs))


def welch(x, fs, nr):
    x = np.asarray(x, dtype=LD)
    n = int(len(x) / nr)
    w = (1 - np.cos(2 * PI * np.arange(n).astype(LD) / n)) / 2
    step = n - n // 2
    P, cnt = np.zeros(n // 2 + 1, dtype=LD), 0
    for s in range(0, len(x) - n + 1, step):
        seg = x[s:s + n]
        re, im = dft((seg - np.sum(seg) / n) * w)
        P = P + (re ** 2 + im ** 2)
        cnt += 1
    P = P / cnt * 2 / (LD(fs) * np.sum(w ** 2))
    P[0] /= 2
    if n % 2 == 0:
        P[-1] /= 2
    return np.arange(n // 2 + 1) * (LD(fs) / n), P


def compare(c, got, want, what, tol=1e-9, **info):
    c.check(len(got) == 2, "%s: (frequencies, PSD)" % what)
    f, p = np.asarray(got[0], dtype=float), np.asarray(got[1], dtype=float)
    c.check(f.shape == p.shape, "%s: one PSD value per frequency" % what, got=[f.shape, p.shape])
    c.close(f, np.asarray(want[0], dtype=float), "%s: frequency axis" % what, rtol=1e-12, **info)
    w = np.asarray(want[1], dtype=float)
    s = float(np.max(w)) if len(w) else 0.0
    c.close(p, w, "%s: PSD" % what, rtol=tol, atol=tol * s * 1e-2 + 1e-300, **info)


def words(n, alpha):
    def fn(c):
        N = c.choose("N", list(range(1, n + 1)))
        x = np.array(c.word("x", alpha, N), dtype=float)
        fs = c.choose("fs", [1.0, 0.5])
        c.call()
        compare(c, noise.numpy_psd(x, fs), periodogram(x, fs), "numpy_psd", x=x)
        c.outcome(x.tolist(), fs)
    return fn


def configs(ns):
    def fn(c):
        N = c.choose("N", ns)
        kind = c.choose("signal", ["white", "walk", "drift", "impulse", "sine", "constant"])
        fs = c.choose("fs", [1.0, 1, 0.1, 44100, 1e-5, 3.7])
        form = c.choose("call", ["positional", "keywords", "list", "ints", "strided", "default"])
        x = fdeck(kind, N, 1) if kind not in ("sine", "constant") else \
            np.rint(100 * np.sin(2 * np.pi * 3 * np.arange(N) / N)) if kind == "sine" else np.full(N, 5.0)
        if form == "ints":
            x = np.rint(7 * x)
        xin = {"list": x.tolist(), "ints": x.astype(int), "strided": np.repeat(x, 2)[::2]}.get(form, x)
        c.call()
        if form == "default":
            fs = 1.0
            r = noise.numpy_psd(xin)
        elif form == "keywords":
            r = noise.numpy_psd(f_sample=fs, x=xin)
        else:
            r = noise.numpy_psd(xin, fs)
        compare(c, r, periodogram(x, fs), "numpy_psd", N=N, fs=fs, signal=kind)
        f = np.asarray(r[0])
        c.check(f[0] == 0 and f[-1] <= fs / 2.0 * (1 + 1e-12), "axis from 0 to fs/2", got=f)
        # Parseval: every interior bin once, DC and Nyquist carry half of what is listed
        p = np.array(r[1], dtype=float)
        p[0] /= 2
        if N % 2 == 0:
            p[-1] /= 2
        c.close(np.sum(p) * fs / N, float(np.mean(np.asarray(x, dtype=LD) ** 2)), "power is not conserved", rtol=1e-9)
        c.outcome(N, kind, fs, form)
    return fn


def welch_words(n, alpha):
    def fn(c):
        x = np.array(c.word("x", alpha, n), dtype=float)
        nr = c.choose("segments", [1, 2, 3])
        c.call()
        compare(c, noise.scipy_psd(x, 2.0, nr), welch(x, 2.0, nr), "scipy_psd", x=x, nr=nr)
        c.outcome(x.tolist(), nr)
    return fn


def welch_configs(ns):
    def fn(c):
        N = c.choose("N", ns)
        kind = c.choose("signal", ["white", "walk", "drift", "impulse"])
        fs = c.choose("fs", [1.0, 1, 0.1, 44100, 3.7])
        nr = c.choose("segments", [1, 2, 3, 4, 5, 8])
        form = c.choose("call", ["positional", "keywords", "default"])
        if form == "default":
            nr, fs = 4, 1.0
        if N // nr < 4:
            return
        x = fdeck(kind, N, 2)
        c.call()
        if form == "default":
            r = noise.scipy_psd(x)
        elif form == "keywords":
            r = noise.scipy_psd(nr_segments=nr, f_sample=fs, x=x)
        else:
            r = noise.scipy_psd(x, fs, nr)
        compare(c, r, welch(x, fs, nr), "scipy_psd", tol=1e-8, N=N, fs=fs, nr=nr, signal=kind)
        c.outcome(N, kind, fs, nr, form)
    return fn


def partial(x, n, ks):
    """DFT of x (length n) at the bins ks, directly."""
    x = np.asarray(x, dtype=LD)
    t = np.arange(n)
    tab = (2 * PI / n) * np.arange(n).astype(LD)
    co, si = np.cos(tab), np.sin(tab)
    out = []
    for k in ks:
        q = (t * int(k)) % n
        out.append(np.sum(x * co[q]) ** 2 + np.sum(x * si[q]) ** 2)
    return np.array(out)


def long(ns, welch_nr):
    """Long records: selected bins directly, all bins through Parseval's relation; segment counts up to 100."""
    def fn(c):
        N = c.choose("N", ns)
        nr = c.choose("segments", [None] + welch_nr)
        kind = c.choose("signal", ["white", "walk"])
        fs = 4.0
        if nr is not None and N // nr < 4:
            return
        x = fdeck(kind, N, 3)
        c.call()
        f, p = noise.numpy_psd(x, fs) if nr is None else noise.scipy_psd(x, fs, nr)
        n = N if nr is None else int(N / nr)
        half = n // 2
        c.equal((np.shape(f), np.shape(p)), ((half + 1,), (half + 1,)), "one PSD value per frequency")
        c.close(f, np.arange(half + 1) * fs / n, "frequency axis", rtol=1e-12)
        ks = sorted(set([0, 1, 2, 3, 5, 10, 64, half // 3, half // 2, half - 1, half]) & set(range(half + 1)))
        dbl = np.array([1.0 if nr is not None and (k == 0 or 2 * k == n) else 2.0 for k in ks])
        if nr is None:
            want = partial(x, n, ks) * dbl / (LD(n) * LD(fs))
        else:
            w = (1 - np.cos(2 * PI * np.arange(n).astype(LD) / n)) / 2
            want, cnt, tot = np.zeros(len(ks), dtype=LD), 0, LD(0)
            for s in range(0, N - n + 1, n - n // 2):
                seg = x[s:s + n].astype(LD)
                v = (seg - np.sum(seg) / n) * w
                want = want + partial(v, n, ks)
                tot += np.sum(v * v)
                cnt += 1
            want = want * dbl / (cnt * LD(fs) * np.sum(w * w))
            c.close(np.sum(p) * fs / n, float(tot / cnt / np.sum(w * w)), "Welch: power of the windowed segments", rtol=1e-8)
        s = float(np.max(p))
        c.close(np.asarray(p)[ks], np.asarray(want, dtype=float), "PSD at selected bins", rtol=1e-8, atol=1e-10 * s, N=N, segments=nr)
        if nr is None:
            q = np.array(p, dtype=float)
            q[0] /= 2
            if N % 2 == 0:
                q[-1] /= 2
            c.close(np.sum(q) * fs / N, float(np.mean(x.astype(LD) ** 2)), "power is not conserved", rtol=1e-9)
        c.outcome(N, nr, kind)
    return fn


def offsets(ns):
    """Weak lines beside a very large offset: what rounding leaves of them is there."""
    def fn(c):
        N = c.choose("N", ns)
        e = c.choose("offset 2^", [0, 10, 20, 30, 40, 44])
        kind = c.choose("signal", ["alternating", "fourth", "impulse", "step"])
        fs = c.choose("fs", [1.0, 1000.0])
        t = np.arange(N)
        s = {"alternating": 1.0 - 2.0 * (t % 2), "fourth": np.array([1.0, 0, -1, 0])[t % 4], "impulse": (t == N // 3) * 1.0, "step": (t >= N // 2) * 1.0}[kind]
        x = s + 2.0 ** e
        c.call()
        f, p = noise.numpy_psd(x, fs)
        re, im = dft(x)
        want = np.sqrt(re ** 2 + im ** 2).astype(float)
        got = np.sqrt(np.asarray(p, dtype=float) * N * fs / 2)
        c.close(f, t[:N // 2 + 1] * fs / N, "numpy_psd: frequency axis", rtol=1e-12)
        c.close(got, want, "numpy_psd: amplitude of weak lines", rtol=1e-9, atol=4e-16 * N * 2.0 ** e + 1e-13 * N)
        c.outcome(N, e, kind)
    return fn


def harnesses(tier):
    T = tier == "thorough"
    return [Harness("periodogram words", words(8 if T else 7, [0, 1, -2])),
            Harness("periodogram", configs(list(range(1, 70)) + [100, 101, 128, 255] if T else [1, 2, 3, 4, 5, 7, 8, 15, 16, 33, 64]), doc="lengths x signals x rates x calls"),
            Harness("long", long([100, 127, 128, 500, 1000, 1024, 1025, 4096, 4097, 10000, 65537, 131201, 262150] + ([100003, 262144, 524303, 1000001] if T else [100003]), [1, 4, 7, 16, 32, 65] + ([30, 100, 256] if T else []))),
            Harness("offsets", offsets([2, 3, 4, 8, 9, 16, 33, 64, 100, 256] + ([1000, 1024, 1025] if T else []))),
            Harness("Welch words", welch_words(9 if T else 8, [0, 1, -2] if not T else [0, 1, -2])),
            Harness("Welch", welch_configs(list(range(8, 80)) + [100, 127, 128] if T else [8, 9, 16, 21, 32, 45, 50]))]


SPEC = dict(level="model_checking", harnesses=harnesses,
            rule="All words and all configurations, compared with direct sums in 80-bit arithmetic. distinct = distinct input.",
            assumptions=["Welch: periodic Hann window, 50 % overlap, mean removed, as scipy.signal.welch documents"])
