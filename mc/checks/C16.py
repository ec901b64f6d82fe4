"""C16: every call is a pure function of its arguments."""
import contextlib
import io
import os
import shutil
import tempfile
import numpy as np
import allantools as at
from allantools import ci, mask, noise
from ..engine import Harness, forked
from ..refs import deck, fdeck

DEVS = ["adev", "oadev", "mdev", "tdev", "hdev", "ohdev", "pdev", "totdev", "mtotdev", "ttotdev", "htotdev", "theo1", "mtie", "tierms", "gradev"]
N = 40
W = [int(v) for v in deck("walk", N, 11)]
U = [int(v) for v in deck("white", N, 12)]
V = [int(v) for v in deck("drift", N, 13)]
TAUS = [4, 1, 2, 2, 8]


class Call(object):
    """args: integer-valued samples (converted into a container by the harness); exact: other arrays, always float."""

    def __init__(self, name, fn, args, exact=(), kinds="all", tol=1e-10):
        self.name, self.fn, self.args, self.exact, self.kinds, self.tol = name, fn, args, exact, kinds, tol


CALLS = []


def add(name, fn, args, exact=(), kinds="all", tol=1e-10):
    CALLS.append(Call(name, fn, args, exact, kinds, tol))


for _f in DEVS:
    for _dt in ("phase", "freq"):
        def _fn(x, t, f=_f, dt=_dt):
            return getattr(at, f)(x, rate=2.0, data_type=dt, taus=t)
        add("%s/%s" % (_f, _dt), _fn, [W], [[v / 2.0 for v in TAUS]])
for _kw in ("all", "octave", "decade", None):
    add("oadev/%s" % _kw, lambda x, k=_kw: at.oadev(x, 1, "phase", k), [W])
    add("mtie/%s" % _kw, lambda x, k=_kw: at.mtie(x, 1, "phase", k), [U])
add("gradev/gaps", lambda x: at.gradev(x, 1.0, "phase", [1, 2, 3], 0.68, "fp"), [], [[float("nan") if k in (3, 17, 18) else w for k, w in enumerate(W)]])
add("gcodev/phase", lambda a, b, t: at.gcodev(a, b, 1.0, "phase", t), [W, U], [[3., 1., 2.]])
add("gcodev/freq", lambda a, b, t: at.gcodev(a, b, 1.0, "freq", t), [W, U], [[3., 1., 2.]])
add("three_cornered_hat_phase", lambda a, b, d, t: at.three_cornered_hat_phase(a, b, d, 1.0, t, at.oadev), [W, U, V], [[3., 1., 2.]])
add("mtie_phase_fast", lambda x: at.mtie_phase_fast(x), [W])
add("calc_hdev_phase", lambda x: at.calc_hdev_phase(x, 1.0, 2, 1), [W], kinds="array")
add("calc_mtotdev_phase", lambda x: at.calc_mtotdev_phase(x, 1.0, 3), [W], kinds="array")
add("calc_htotdev_freq", lambda x: at.calc_htotdev_freq(x, 3), [W], kinds="array")
add("phase2frequency", lambda x: at.phase2frequency(x, 4.0), [W])
add("frequency2phase", lambda x: at.frequency2phase(x, 4.0), [W])
add("frequency2phase/nan", lambda x: at.frequency2phase(x, 4.0), [], [[float("nan")] + W + [float("nan")] * 2])
add("phase2radians", lambda x: at.phase2radians(x, 5.0), [W])
add("frequency2fractional", lambda x: at.frequency2fractional(x, 7.0), [W], kinds="wide")
add("frequency2fractional/mean", lambda x: at.frequency2fractional(x), [U])
add("trim_data", lambda x: np.array(at.trim_data(x)), [], [[float("nan")] + W + [float("nan")] * 2])
add("tau_generator", lambda x, t: at.tau_generator(x, 2.0, t), [W], [[v / 2.0 for v in TAUS]])
add("tau_generator/even", lambda x: at.tau_generator(x, 2.0, "all", even=True, maximum_m=20), [W])
add("tau_reduction", lambda m: at.tau_reduction(m, 2.0, 5), [list(range(1, 100))], kinds="array")
add("psd2allan/axis", lambda s, f: at.psd2allan(s, f), [[3, 5, 4, 6, 7, 4, 3, 5, 4, 6, 7, 4, 3, 3, 2, 5, 4]], [[0.25 * (k + 1) for k in range(17)]], kinds="array", tol=1e-8)
add("psd2allan/step", lambda s: at.psd2allan(s, 0.5, "mdev", 3), [[3, 5, 4, 6, 7, 4, 3, 5, 4, 6, 7, 4, 3, 3, 2, 5, 4]], kinds="array", tol=1e-8)
add("adev2psd_piecewise_approx", lambda a, t: at.adev2psd_piecewise_approx(a, t), [], [[1e-9, 1e-10, 1e-10, 1e-9], [1., 100., 1e4, 1e6]])
add("psd_piecewise_to_adev", lambda h, a, f, t: at.psd_piecewise_to_adev(h, a, f, t), [], [[1e-20, 1e-18], [-1., 0.], [0.01], [1., 7., 100.]])
add("numpy_psd", lambda x: noise.numpy_psd(x, 4.0), [W])
add("scipy_psd", lambda x: noise.scipy_psd(x, 4.0, 2), [W], kinds="array")
for _f in ("adev", "mdev", "hdev", "ohdev", "oadev"):
    add("confidence_interval_noiseID/" + _f, lambda x, f=_f: ci.confidence_interval_noiseID(x, 1.5, 1, f, "phase"), [W])
add("confidence_interval_noiseID/freq", lambda x: ci.confidence_interval_noiseID(x, 1.5, 1, "oadev", "freq"), [W])
add("confidence_interval", lambda: at.confidence_interval(2.0, 11.5, 0.9), [])
add("autocorr_noise_id/phase", lambda x: at.autocorr_noise_id(x, 1), [W])
add("autocorr_noise_id/freq", lambda x: at.autocorr_noise_id(x, 1, "freq"), [U])
add("lag1_acf", lambda x: ci.lag1_acf(x), [W], kinds="wide")
add("detrend", lambda x: ci.detrend(x, 2), [W], kinds="wide")
add("rn", lambda x: ci.rn(x, 2, 2.0), [W])
add("b1", lambda x: ci.b1(x, 2, 2.0), [W])
add("theory", lambda: (ci.rn_theory(2.0, -1), ci.rn_boundary(2.0, 0), ci.b1_theory(30, -1), ci.b1_boundary(-2, 30)), [])
add("edf_greenhall", lambda: [at.edf_greenhall(a, d, m, 100, o, f) for a in (-2, -1, 0, 1) for d in (1, 2, 3) if a + 2 * d > 1
                              for m in (1, 4, 16) for o in (False, True) for f in (False, True)], [])
add("edf others", lambda: [[at.edf_simple(100, m, a), at.edf_totdev(100, m, min(a, 0)), at.edf_mtotdev(100, m, a)] for m in (1, 3, 9) for a in (-2, -1, 0, 1, 2)], [])
add("masks", lambda: [getattr(mask, f)(t) for f in ("prc_tdev", "prc_mtie", "eprtc_tdev", "eprtc_mtie", "prtcA_tdev", "prtcB_tdev", "prtcA_mtie", "prtcB_mtie")
                      for t in (0.5, 3.0, 99.0, 150.0, 5000.0, 1e5)], [])


def _rt(cls):
    def fn(x):
        d = cls(afs=[3, 1, 2], tau0=0.5)
        for v in x:
            d.add_phase(v)
        e = cls(auto_afs=True, pts_per_decade=5)
        for v in x:
            e.add_frequency(v)
        return [d.taus(), list(d.devs()), list(e.taus()), list(e.devs())]
    return fn


for _c in ("oadev_realtime", "ohdev_realtime", "tdev_realtime"):
    add(_c, _rt(getattr(at, _c)), [W], kinds="wide")


def _seeded(f):
    def g(*a):
        np.random.seed(7)
        return f(*a)
    return g


for _f in ("white", "brown", "violet"):
    add("noise." + _f, _seeded(lambda f=_f: getattr(noise, f)(9, 2.0, 3.0)), [])
add("noise.pink", _seeded(lambda: noise.pink(9, 5)), [])
add("timmer_koenig", lambda f, h, a: at.timmer_koenig_from_psd(f, h, a, 12.0, 1.0, "phase", 3), [], [[0.1, 0.3], [1., 2., 3.], [-2., -1., 0.]])


def _noise_obj():
    np.random.seed(7)
    n = at.Noise(nr=16, qd=2.0, b=-3)
    n.generateNoise()
    return [n.time_series, n.adev(1.0, 4.0), n.mdev(1.0, 4.0), n.adev_from_qd(1.0, 4.0), n.mdev_from_qd(1.0, 4.0), n.pdev_from_qd(1.0, 4.0),
            n.phase_psd_from_qd(1.0), n.frequency_psd_from_qd(1.0)]


add("Noise", _noise_obj, [])


def _ds(f):
    def fn(x, t):
        d = at.Dataset(x, 2.0, "phase", t)
        r = d.compute(f)
        return [r["taus"], r["stat"], r["stat_err"], r["stat_n"]]
    return fn


for _f in ("adev", "mtotdev", "gradev"):
    add("Dataset/" + _f, _ds(_f), [W], [[v / 2.0 for v in TAUS]])


def _ds_write(x, t):
    d = at.Dataset(x, 2.0, "phase", t)
    d.compute("oadev")
    tmp = tempfile.mkdtemp()
    try:
        out = []
        for hp in ({}, {"a": 1, "B": "x"}, None):
            keep = None if hp is None else dict(hp)
            p = os.path.join(tmp, "r")
            if hp is None:
                d.write_results(p)
            else:
                d.write_results(p, 4, hp)
            if hp != keep:
                raise AssertionError("write_results changed header_params")
            with open(p) as fp:
                out.append([float(len(l)) for l in fp if not l.startswith("#")])
    finally:
        shutil.rmtree(tmp)
    return out


add("Dataset/write", _ds_write, [W], [[v / 2.0 for v in TAUS]])


# less travelled branches
def _edfs(args):
    def fn():
        out = []
        for a in args:
            try:
                out.append(float(at.edf_greenhall(*a)))
            except NotImplementedError:
                out.append(-1.0)
        return out
    return fn


add("edf_greenhall/table1", _edfs([(a, d, 40, n, True, True) for a in (2, 1, 0, -1, -2) for d in (2, 3) for n in (230, 1500)]), [])
add("edf_greenhall/table2", _edfs([(a, d, 40, n, True, False) for a in (2, 0, -1, -2) for d in (2, 3) for n in (230, 1500)]), [])
add("edf_greenhall/table3", _edfs([(1, d, 40, n, True, False) for d in (1, 2, 3) for n in (230, 1500)]), [])
add("edf_greenhall/high order", _edfs([(a, 3, m, n, o, f) for a in (-3, -4) for m, n in ((2, 60), (40, 1500)) for o in (False, True) for f in (False, True)]), [])
add("edf_greenhall/large m", _edfs([(a, 2, m, 400, False, False) for a in (0, -1, -2) for m in (33, 34, 50)]), [])
add("edf_greenhall_simple", lambda: [ci.edf_greenhall_simple(a, 2, 3, 3, f, 50) for a in (2, 1, 0, -1, -2) for f in (1, 3)], [])
add("edf others/2", lambda: [[at.edf_totdev(100, m, a), at.edf_simple(100, m, 5)] for m in (1, 3) for a in (1, 2)], [])
add("autocorr_noise_id/phase 2", lambda x: at.autocorr_noise_id(x, 2), [W + U])
add("autocorr_noise_id/freq 2", lambda x: at.autocorr_noise_id(x, 2, "freq", 1, 1), [W + U])
add("confidence_interval_noiseID/tdev 2", lambda x: ci.confidence_interval_noiseID(x, 1.5, 2, "tdev", "phase", 0.9), [W + V])
add("theory/2", lambda: [ci.b1_theory(30, m) for m in (2, 1, 0, -1, -2, 3)] + [ci.b1_boundary(b, 30) for b in (0, -1, -2, -3, -4)] +
    [ci.rn_theory(3.0, b) for b in (0, -1, -2, -3, -4)] + [ci.rn_boundary(3.0, b) for b in (0, -1, -2)] + [ci.b_to_mu(b) for b in range(-6, 1)], [])
for _n in ("wf", "ff", "rf", "other"):
    add("gradev/" + _n, lambda x, t, n=_n: at.gradev(x, 1.0, "phase", t, 0.9, n), [W], [[1., 2., 4., 19.]])
add("oadev/log10", lambda x: at.oadev(x, 4.0, "phase", "log10"), [W])
add("oadev/empty list", lambda x: at.oadev(x, 4.0, "phase", []), [W])
add("psd2allan/base 1", lambda s: at.psd2allan(s, 0.5, "adev", 1), [[3, 5, 4, 6, 7, 4, 3, 5]], kinds="array", tol=1e-8)
add("adev2psd_piecewise_approx/hdev", lambda a, t: at.adev2psd_piecewise_approx(a, t, "hdev"), [], [[1e-9, 1e-10, 1e-10, 1e-10, 1e-9], [1., 100., 1e3, 1e4, 1e6]])
add("adev2psd_piecewise_approx/one", lambda a, t: at.adev2psd_piecewise_approx(a, t), [], [[1e-9, 1e-10], [1., 100.]])
add("psd_piecewise_to_adev/one", lambda h, a, f, t: at.psd_piecewise_to_adev(h, a, f, t), [], [[1e-18], [1.], [], [1., 7., 100.]])
add("psd_piecewise_to_adev/flicker", lambda h, a, f, t: at.psd_piecewise_to_adev(h, a, f, t), [], [[1e-20, 1e-18], [0., 1.], [0.01], [1., 7., 100.]])
add("timmer_koenig/freq", lambda f, h, a: at.timmer_koenig_from_psd(f, h, a, 13.0, 1.0, "freq", 4), [], [[], [1.], [-2.]])


def _rt_mdev(x):
    d = at.tdev_realtime(afs=[2, 1, 4], tau0=0.25)
    for v in x:
        d.add_phase(v)
    return [d.taus(), list(d.devs()), list(d.mdev())]


add("tdev_realtime.mdev", _rt_mdev, [W], kinds="wide")


def _ds_set(x, t):
    d = at.Dataset([1.0, 2.0, 4.0])
    d.set_input(x, 2.0, "freq", t)
    r = d.compute("totdev")
    return [r["taus"], r["stat"], r["stat_err"], r["stat_n"]]


add("Dataset/set_input", _ds_set, [W], [[v / 2.0 for v in TAUS]])


def _noise_types():
    out = []
    for b in (0, -1, -2, -4):
        np.random.seed(8)
        n = at.Noise(nr=8, qd=1.0, b=b)
        n.set_input(nr=8, qd=3.0, b=b)
        n.generateNoise()
        out += [n.time_series, [n.adev(1.0, 4.0), n.mdev(1.0, 4.0), n.c_avar(), n.c_mvar(), n.adev_from_qd(1.0, 4.0), n.mdev_from_qd(1.0, 4.0), n.pdev_from_qd(1.0, 4.0)]]
    return out


add("Noise/types", _noise_types, [])
BY = {k.name: k for k in CALLS}


# ---------------------------------------------------------------------------
def flat(r):
    """Numbers of a result, whatever its containers."""
    if r is None:
        return [np.array([])]
    if isinstance(r, (list, tuple)):
        if all(np.isscalar(v) for v in r):
            return [np.array(r, dtype=float)]
        out = []
        for v in r:
            out += flat(v)
        return out
    return [np.atleast_1d(np.array(r, dtype=float))]


def run(call, args):
    try:
        return call.fn(*args)
    except UserWarning:
        return [np.array([-1.0])]


def arrays_in(r):
    if isinstance(r, np.ndarray):
        return [r]
    if isinstance(r, (list, tuple)):
        return [a for v in r for a in arrays_in(v)]
    return []


BOXES = ["float", "list", "tuple", "int64", "readonly", "strided", "reversed", "bigendian", "int32", "int16", "uint8", "uint64", "int list"]
NARROW = {"int16", "uint8", "uint64"}


def boxes_of(call):
    if call.kinds == "all":
        return BOXES
    if call.kinds == "wide":
        return [b for b in BOXES if b not in NARROW]
    return ["float", "int64", "readonly", "strided", "reversed", "bigendian"] if call.kinds == "array" else ["float"]


EXACT_BOXES = ["float", "list", "readonly", "strided", "reversed", "int64"]


def box(vals, kind):
    """-> (container, buffer that backs it)"""
    a = np.array(vals, dtype=float)
    if kind == "float":
        return a, a
    if kind == "list":
        l = [float(v) for v in vals]
        return l, l
    if kind == "int list":
        l = [int(v) for v in vals]
        return l, l
    if kind == "tuple":
        return tuple(float(v) for v in vals), None
    if kind in ("int64", "int32", "int16", "uint64", "uint8"):
        b = np.array([int(v) for v in vals], dtype=kind)
        return b, b
    if kind == "readonly":
        a.flags.writeable = False
        return a, a
    if kind == "bigendian":
        b = a.astype(">f8")
        return b, b
    if kind == "strided":
        b = np.full(3 * len(a), 1e3)
        b[1::3] = a
        return b[1::3], b
    if kind == "reversed":
        b = a[::-1].copy()
        return b[::-1], b
    raise ValueError(kind)


def fresh(call):
    return [np.array(a, dtype=float) for a in call.args] + [np.array(a, dtype=float) for a in call.exact]


def keep(b):
    return list(b) if isinstance(b, list) else (None if b is None else b.copy())


def unchanged(b, k):
    if b is None:
        return True
    if isinstance(b, list):
        return len(b) == len(k) and all(type(x) is type(y) and (x == y or (x != x and y != y)) for x, y in zip(b, k))
    return b.dtype == k.dtype and np.array_equal(b, k, equal_nan=b.dtype.kind == "f")


def agree(c, call, got, want, what):
    c.check(len(got) == len(want), "%s: %s: number of results" % (call.name, what), got=got, want=want)
    for g, w in zip(got, want):
        sc = np.max(np.abs(w[np.isfinite(w)])) if np.isfinite(w).any() else 0.0
        c.close(g, w, "%s: %s" % (call.name, what), rtol=call.tol, atol=call.tol * sc)


def identical(c, call, got, want, what):
    c.check(len(got) == len(want), "%s: %s: number of results" % (call.name, what), got=got, want=want)
    for g, w in zip(got, want):
        c.close(g, w, "%s: %s" % (call.name, what), rtol=1e-13)


# reference results: each call alone, first thing in a process of its own
_PRISTINE = {}


def alone(jobs):
    """Results of fn(*args) for every (key, fn, args), each in a forked process that has made no other call."""
    import io
    import sys
    import warnings

    def work(job):
        sys.stdout = io.StringIO()
        warnings.simplefilter("ignore")
        return job[0], job[1](*job[2])
    out = {}
    for job, status, r in forked(jobs, work, 8, limit=100):
        out[job[0]] = "no result" if r is None else r[1]
    return out


def first(name):
    call = BY[name]
    try:
        return flat(run(call, fresh(call)))
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def pristine_all():
    if not _PRISTINE:
        _PRISTINE.update(alone([(k.name, first, (k.name,)) for k in CALLS]))


def pristine(c, call):
    r = _PRISTINE[call.name]
    c.check(not isinstance(r, str), "%s fails: %s" % (call.name, r))
    return r


# ---- neighbouring arguments --------------------------------------------------------
INNER = {}


def inner(name, fn, n=N, taus=None):
    INNER[name] = (fn, taus)


for _f in DEVS:
    for _dt in ("phase", "freq"):
        inner("%s/%s" % (_f, _dt), lambda x, f=_f, dt=_dt: getattr(at, f)(x, 2.0, dt, [0.5, 1.0, 1.5, 4.0]))
for _f in ("oadev", "mtie", "tierms", "mdev"):
    inner("%s/octave" % _f, lambda x, f=_f: getattr(at, f)(x, 4.0, "phase", "octave"))
inner("mtie/strict", lambda x: at.mtie(x, 1.0, "phase", [1, 2, 3, 5, 8]))
inner("mtie_phase_fast", lambda x: at.mtie_phase_fast(x))
inner("mtie_rolling_window", lambda x: np.array(at.allantools.mtie_rolling_window(x, 4)))
for _f, _a in (("calc_adev_phase", (1.0, 2, 1)), ("calc_pdev_phase", (1.0, 3)), ("calc_hdev_phase", (1.0, 2, 1)), ("calc_mtotdev_phase", (1.0, 3)),
               ("calc_gradev_phase", (1.0, 2, 1, 0.9, "wp")), ("calc_htotdev_freq", (3,))):
    inner(_f, lambda x, f=_f, a=_a: getattr(at.allantools, f)(x, *a))
inner("gcodev/first", lambda x: at.gcodev(x, np.array(U[:len(x)], dtype=float), 1.0, "phase", [1, 2, 3]))
inner("gcodev/second", lambda x: at.gcodev(np.array(U[:len(x)], dtype=float), x, 1.0, "phase", [1, 2, 3]))
inner("gcodev/both", lambda x: at.gcodev(x, x, 1.0, "phase", [1, 2, 3]))
inner("three_cornered_hat_phase", lambda x: at.three_cornered_hat_phase(x, np.array(U[:len(x)], dtype=float), np.array(V[:len(x)], dtype=float), 1.0, [1, 2], at.oadev))
for _f in ("phase2frequency", "frequency2phase", "phase2radians"):
    inner(_f, lambda x, f=_f: getattr(at, f)(x, 4.0))
inner("frequency2fractional", lambda x: at.frequency2fractional(x))
inner("frequency2fractional/7", lambda x: at.frequency2fractional(x, 7.0))
inner("trim_data", lambda x: np.array(at.trim_data(x)))
inner("tau_generator", lambda x: at.tau_generator(x, 4.0, "octave"))
inner("psd2allan", lambda x: at.psd2allan(1.0 + np.abs(x), 0.5, "adev", 2))
inner("numpy_psd", lambda x: noise.numpy_psd(x, 4.0))
inner("scipy_psd", lambda x: noise.scipy_psd(x, 4.0, 2))
for _f in ("adev", "ohdev"):
    inner("confidence_interval_noiseID/" + _f, lambda x, f=_f: ci.confidence_interval_noiseID(x, 1.5, 1, f, "phase"))
inner("autocorr_noise_id/phase", lambda x: at.autocorr_noise_id(x, 1))
inner("autocorr_noise_id/freq", lambda x: at.autocorr_noise_id(x, 1, "freq"))
inner("lag1_acf", lambda x: ci.lag1_acf(x))
inner("detrend", lambda x: ci.detrend(x, 1))
inner("rn", lambda x: ci.rn(x, 2, 2.0))
inner("b1", lambda x: ci.b1(x, 2, 2.0))
for _c in ("oadev_realtime", "tdev_realtime"):
    inner(_c, lambda x, f=_rt(getattr(at, _c)): f(x))
for _f in ("oadev", "mtie", "htotdev"):
    inner("Dataset/" + _f, lambda x, f=_f: _ds(f)(x, [0.5, 1.0, 1.5]))


def _variant(name):
    x = np.array([float(v) for v in W + V])
    k = N // 2
    if name == "one sample":
        x[k] += 5.0
    elif name == "first sample":
        x[0] += 5.0
    elif name == "last sample":
        x[N - 1] += 5.0
    elif name == "swapped":
        x[k], x[k + 3] = x[k + 3] + 2.0, x[k] + 2.0
    elif name == "shifted":
        x = x + 3.0
    elif name == "doubled":
        x = 2 * x
    return {"shorter": x[:N - 1], "longer": x[:N + 1], "half": x[:N // 2], "next": x[1:N + 1], "every second": x[:2 * N:2],
            "every fifth": x[:2 * N:5], "backwards": x[N - 1::-1]}.get(name, x[:N])


VARIANTS = ["base", "one sample", "first sample", "last sample", "swapped", "shifted", "doubled", "shorter", "longer", "half", "next", "every second", "every fifth", "backwards"]
INPLACE = VARIANTS[:7]
VIEWS = ["base"] + VARIANTS[7:]
_NEAR = {}


def _near(name, variant):
    try:
        return flat(INNER[name][0](_variant(variant).copy()))
    except Exception as e:
        return "raises " + type(e).__name__


def near_all():
    if not _NEAR:
        _NEAR.update(alone([((n, v), _near, (n, v)) for n in INNER for v in VARIANTS]))


def neighbours(c):
    """f(A); f(B); f(A) for arguments A, B that differ in one sample, a shift, the length, or the section of one and the same memory."""
    name = c.choose("function", list(INNER))
    mode = c.choose("memory", ["separate", "same array", "views"])
    vs = {"separate": VARIANTS, "same array": INPLACE, "views": VIEWS}[mode]
    a = c.choose("first", vs)
    b = c.choose("second", [v for v in vs if v != a])
    base = np.array([float(v) for v in W + V])
    buf = base[:N].copy()
    view = {"base": base[:N], "shorter": base[:N - 1], "longer": base[:N + 1], "half": base[:N // 2], "next": base[1:N + 1], "every second": base[:2 * N:2],
            "every fifth": base[:2 * N:5], "backwards": base[N - 1::-1]}
    for v, k in ((a, 1), (b, 2), (a, 3)):
        if mode == "separate":
            x = _variant(v).copy()
        elif mode == "views":
            x = view[v]
        else:
            buf[:] = _variant(v)
            x = buf
        want = _NEAR[name, v]
        c.call()
        try:
            got = flat(INNER[name][0](x))
        except Exception as e:
            got = "raises " + type(e).__name__
        what = "%s: result of call %d of a history of neighbouring arguments (%s, %s, %s; %s)" % (name, k, a, b, a, mode)
        c.check(isinstance(got, str) == isinstance(want, str) and (not isinstance(got, str) or got == want), what, got=got, want=want)
        if isinstance(got, str):
            continue
        c.check(len(got) == len(want), what + ": number of results", got=got, want=want)
        for g, w in zip(got, want):
            sc = np.max(np.abs(w[np.isfinite(w)])) if np.isfinite(w).any() else 0.0
            c.close(g, w, what, rtol=1e-11, atol=1e-12 * sc)
    c.outcome(name, mode, a, b)


# ---- keyword taus: rate, length and keyword vary ---------------------------------------
KEYS = ["all", "octave", "decade", "log10", None, "list"]
_KEYED = {}


def _keyed(f, kw, rate, n, dt):
    try:
        t = [1.0 / rate, 3.0 / rate, 4.0 / rate] if kw == "list" else kw
        x = np.array([float(v) for v in W[:n]])
        return flat(at.tau_generator(x, rate, t) if f == "tau_generator" else getattr(at, f)(x, rate, dt, t))
    except Exception as e:
        return "raises " + type(e).__name__


def _keyed_points(tier):
    return [(f, kw, r, n, dt) for f in DEVS + ["tau_generator"] for kw in KEYS for r in (1.0, 4.0, 0.3, 1) for n in (N, 24) for dt in ("phase", "freq")]


def keyed_all(tier):
    if not _KEYED:
        _KEYED.update(alone([(k, _keyed, k) for k in _keyed_points(tier)]))


def keyed(c):
    """f(A); g(B); f(A) where function, tau keyword, rate, length and data type of B depart from those of A in at most two coordinates."""
    fs = DEVS + ["tau_generator"]
    f = c.choose("function", fs)
    kw = c.choose("taus", KEYS)
    r = c.choose("rate", [1.0, 4.0, 0.3, 1])
    A = (f, kw, r, N, "phase")
    B = (c.choose("other function", [f] + [g for g in fs if g != f], dev=True), c.choose("other taus", [kw] + [k for k in KEYS if k != kw], dev=True),
         c.choose("other rate", [r] + [k for k in (1.0, 4.0, 0.3) if k != r], dev=True), c.choose("other length", [N, 24], dev=True),
         c.choose("other data_type", ["phase", "freq"], dev=True))
    for p in (A, B, A):
        c.call()
        got, want = _keyed(*p), _KEYED[p]
        what = "%s(%s, rate=%r, N=%d, taus=%r) depends on earlier calls (%s ; %s)" % (p[0], p[4], p[2], p[3], p[1], A, B)
        c.check(isinstance(got, str) == isinstance(want, str) and (not isinstance(got, str) or got == want), what, got=got, want=want)
        if isinstance(got, str):
            continue
        c.check(len(got) == len(want), what + ": number of results", got=got, want=want)
        for g, w in zip(got, want):
            c.close(g, w, what, rtol=1e-13)
    c.outcome(A, B)


# ---------------------------------------------------------------------------
def positive(vals):
    lo = min(vals)
    return [(v - lo) % 200 for v in vals]


def containers(c):
    """Every call x every container of every argument (two departures at a time): arguments untouched, same result."""
    call = BY[c.choose("call", [k.name for k in CALLS if k.args or k.exact])]
    kinds = [c.choose("container %d" % i, boxes_of(call), dev=True) for i in range(len(call.args))]
    kinds += [c.choose("container of list %d" % i, [b for b in EXACT_BOXES if (b != "int64" or all(float(v).is_integer() for v in a))
                                                    and (b != "list" or call.kinds != "array")], dev=True)
              for i, a in enumerate(call.exact)]
    if any(isinstance(v, float) and v != v for a in call.exact for v in a):
        kinds = [k if k in ("float", "readonly", "strided", "reversed") else "float" for k in kinds]
    args, bufs = [], []
    vals = [positive(a) if "uint" in k else list(a) for a, k in zip(list(call.args), kinds)]
    vals += [list(a) for a in call.exact]
    for v, k in zip(vals, kinds):
        a, b = box(v, k)
        args.append(a)
        bufs.append(b)
    kept = [keep(b) for b in bufs]
    c.call()
    r = run(call, args)
    for b, k, i in zip(bufs, kept, range(len(bufs))):
        c.check(unchanged(b, k), "%s modifies its argument %d" % (call.name, i), container=kinds, got=b, want=k)
    if vals == [list(a) for a in list(call.args) + list(call.exact)] or any(x != x for a in vals for x in a):
        want = pristine(c, call)
    else:
        c.call()
        want = flat(run(call, [np.array(v, dtype=float) for v in vals]))
    agree(c, call, flat(r), want, "depends on the container (%s)" % ", ".join(kinds))
    c.outcome(call.name, kinds, [np.round(w, 6).tolist() for w in want])


def integers(c):
    """Integer samples whose differences or squares exceed the integer type."""
    name = c.choose("function", DEVS)
    dt = c.choose("data_type", ["phase", "freq"])
    kind = c.choose("dtype", ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "list"])
    src = c.choose("series", ["walk", "white"])
    top = {"int8": 120, "uint8": 250, "int16": 3e4, "uint16": 6e4, "int32": 2e9, "uint32": 4e9, "int64": 4e15, "uint64": 4e15, "list": 4e15}[kind]
    d = np.array(deck(src, 24, 14), dtype=float)
    d = np.floor((d - d.min()) / (d.max() - d.min()) * top)
    if kind[0] == "i":
        d = np.floor(d / 2) * np.where(np.arange(24) % 2 == 0, 1, -1)
    arr = [int(v) for v in d] if kind == "list" else d.astype(kind)
    f = getattr(at, name)
    c.call(2)
    a = f(d.copy(), rate=1.0, data_type=dt, taus="all")
    b = f(arr, rate=1.0, data_type=dt, taus="all")
    for x, y, w in zip(flat(a), flat(b), range(9)):
        sc = np.max(np.abs(x)) if x.size else 0.0
        c.close(y, x, "%s(%s): integers of type %s give another result" % (name, dt, kind), rtol=1e-9, atol=1e-10 * sc)
    c.outcome(name, dt, kind, src)


SHAPES = dict([(n, (lambda x, n=n: getattr(at, n)(x, taus=[1.0, 2.0, 4.0, 6.0]))) for n in DEVS] +
              [("freq " + n, (lambda x, n=n: getattr(at, n)(x, rate=4.0, data_type="freq", taus=[0.25, 0.5, 1.0]))) for n in DEVS])
SHAPES.update({
    "mtie_phase_fast": lambda x: at.mtie_phase_fast(x), "phase2frequency": lambda x: at.phase2frequency(x, 3.0),
    "frequency2phase": lambda x: at.frequency2phase(x, 3.0), "phase2radians": lambda x: at.phase2radians(x, 3.0),
    "frequency2fractional": lambda x: at.frequency2fractional(x, 7.0), "numpy_psd": lambda x: noise.numpy_psd(x, 3.0),
    "scipy_psd": lambda x: noise.scipy_psd(x, 3.0, 3), "lag1_acf": lambda x: at.ci.lag1_acf(x), "rn": lambda x: at.ci.rn(x, 2, 1.0),
    "b1": lambda x: at.ci.b1(x, 2, 1.0), "noise id": lambda x: at.autocorr_noise_id(x, 2), "noise id freq": lambda x: at.autocorr_noise_id(x, 2, data_type="freq")})
SLOW = ("mtotdev", "ttotdev", "htotdev", "theo1", "pdev", "mtie_phase_fast", "lag1_acf")


def views(sizes):
    """Views of long, tiny and huge series: the same result as for a plain array."""
    def fn(c):
        name = c.choose("function", sorted(SHAPES))
        n = c.choose("N", sizes)
        if n > 300 and name.split()[-1] in SLOW:
            return
        if n < 60 and name.startswith("noise id"):
            return
        scale = c.choose("scale 2^", [0, -33, -100, 40])
        kind = c.choose("container", ["list", "readonly", "strided", "reversed", "bigendian"])
        if kind == "list" and name in ("noise id", "noise id freq", "lag1_acf", "rn", "b1", "mtie_phase_fast", "scipy_psd") or kind == "list" and n > 3000:
            return
        x = np.array(fdeck("walk", n, 3)) * 2.0 ** scale
        a, b = box(x, kind)
        k = keep(b)
        f = SHAPES[name]
        with contextlib.redirect_stdout(io.StringIO()):
            c.call(2)
            want = flat(f(x.copy()))
            got = flat(f(a))
        c.check(unchanged(b, k), "%s modifies its argument" % name, container=kind, N=n)
        c.check(len(got) == len(want), "%s: number of results" % name)
        for g, w in zip(got, want):
            sc = np.max(np.abs(w)) if w.size else 0.0
            c.close(g, w, "%s: a %s of %d samples of the size 2^%d gives another result" % (name, kind, n, scale), rtol=1e-9,
                    atol=1e-11 * sc + (1e-15 * n * np.max(np.abs(x)) if name.startswith("freq") else 0.0))
        c.outcome(name, n, scale, kind)
    return fn


def histories(depth, firsts, middles):
    """A; B1; ..; Bk; A again: the result of every call in the history equals its result as first call of a fresh process."""
    def fn(c):
        hist = [c.choose("first call", firsts)]
        for k in range(depth - 1):
            hist.append(c.choose("call %d" % (k + 2), middles))
        hist.append(hist[0])
        results = []
        for n in hist:
            call = BY[n]
            c.call()
            r = run(call, fresh(call))
            identical(c, call, flat(r), pristine(c, call), "the result depends on earlier calls (%s)" % " ; ".join(hist))
            results.append((call, r))
        for call, r in results:
            identical(c, call, flat(r), pristine(c, call), "a result was changed by a later call (%s)" % " ; ".join(hist))
        c.outcome(*hist)
    return fn


def aliasing(c):
    """Overwriting the arguments or the returned arrays disturbs neither earlier results nor later calls."""
    call = BY[c.choose("call", [k.name for k in CALLS])]
    what = c.choose("overwrite", ["arguments", "result", "result while arguments are read"])
    args = fresh(call)
    want = pristine(c, call)
    c.call()
    r1 = run(call, args)
    if what == "arguments":
        for a in args:
            a.fill(-77.0)
        identical(c, call, flat(r1), want, "the result is a view of an argument")
    else:
        kept = [a.copy() for a in args]
        for a in arrays_in(r1):
            if a.flags.writeable:
                a.fill(-77.0)
        for a, k in zip(args, kept):
            c.check(np.array_equal(a, k, equal_nan=True), "%s: the result shares memory with an argument" % call.name)
        args = fresh(call) if what == "result" else args
    c.call()
    args2 = fresh(call) if what == "arguments" else args
    r2 = run(call, args2)
    identical(c, call, flat(r2), want, "a repeated call sees the overwritten %s of the first" % what)
    c.outcome(call.name, what)


def defaults(c):
    """Calls that rely on default arguments: mutable defaults are never shared."""
    kind = c.choose("class", ["oadev_realtime", "ohdev_realtime", "tdev_realtime"])
    seq = [c.choose("instance %d" % k, ["default", "auto", "auto3", "list"]) for k in range(3)]
    cls = getattr(at, kind)

    def make(s):
        return cls() if s == "default" else cls(auto_afs=True) if s == "auto" else cls(auto_afs=True, pts_per_decade=3) if s == "list3" or s == "auto3" else cls(afs=[1, 4])
    mine = [1, 4]
    out = []
    for s in seq:
        o = make(s) if s != "list" else cls(afs=mine)
        for v in W:
            o.add_phase(float(v))
        c.call(len(W))
        out.append((s, np.array(o.taus(), dtype=float), np.array(o.devs(), dtype=float)))
        c.check(mine == [1, 4], "%s changes the list of averaging factors given to it" % kind, got=mine)
    for s, t, d in out:
        for s2, t2, d2 in out:
            if s == s2:
                c.close(t2, t, "%s(%s): taus depend on earlier instances" % (kind, s))
                c.close(d2, d, "%s(%s): deviations depend on earlier instances" % (kind, s))
        if s in ("default", "list"):
            c.close(t, [1.0] if s == "default" else [1.0, 4.0], "%s(%s): taus" % (kind, s))
    c.outcome(kind, seq, [x[2].round(6).tolist() for x in out])


def environment(c):
    """A deterministic call leaves the random generator, numpy's error state and the warning filters alone."""
    import warnings
    call = BY[c.choose("call", [k.name for k in CALLS if k.name not in ("noise.white", "noise.brown", "noise.violet", "noise.pink", "timmer_koenig", "timmer_koenig/freq", "Noise", "Noise/types")])]
    np.random.seed(5)
    err, flt = dict(np.geterr()), list(warnings.filters)
    po = np.get_printoptions()
    args = fresh(call)
    c.call()
    run(call, args)
    c.check(dict(np.geterr()) == err, "%s changes numpy's error handling" % call.name)
    c.check(list(warnings.filters) == flt, "%s changes the warning filters" % call.name)
    c.check(repr(np.get_printoptions()) == repr(po), "%s changes numpy's print options" % call.name)
    got = np.random.randn(4)
    np.random.seed(5)
    c.check(np.array_equal(got, np.random.randn(4)), "%s consumes or reseeds the global random generator" % call.name)
    c.outcome(call.name)


def harnesses(tier):
    T = tier == "thorough"
    pristine_all()
    near_all()
    keyed_all(tier)
    names = [k.name for k in CALLS]
    h = [Harness("containers", containers, bound=None if T else 2),
         Harness("integer types", integers),
         Harness("views", views([24, 100, 301, 3000] + ([1025, 20001, 100003] if T else [70001]))),
         Harness("histories of 2", histories(2, names, names), doc="A; B; A for all %d x %d pairs" % (len(names), len(names))),
         Harness("aliasing", aliasing), Harness("default arguments", defaults), Harness("environment", environment),
         Harness("neighbours", neighbours, doc="f(A); f(B); f(A), B differs from A in a sample, the length, or is another section of the same memory"),
         Harness("keyword taus", keyed, bound=2 if T else 1)]
    if T:
        core = ["adev/phase", "oadev/freq", "mdev/phase", "htotdev/phase", "theo1/phase", "mtie/all", "gradev/gaps", "gcodev/phase", "tau_generator",
                "tau_reduction", "psd2allan/axis", "edf_greenhall", "confidence_interval_noiseID/adev", "autocorr_noise_id/phase", "oadev_realtime",
                "tdev_realtime", "noise.pink", "noise.white", "timmer_koenig", "Noise", "Dataset/adev", "Dataset/write", "three_cornered_hat_phase"]
        h.append(Harness("histories of 3", histories(3, core, core)))
    return h


SPEC = dict(level="model_checking", harnesses=harnesses,
            rule="Every call of the list (all public functions on witness data) in every container kind, after every other call, with every returned and "
                 "passed array overwritten; distinct = distinct histories and results.",
            assumptions=["trim_data returns a section of its argument by design (a numpy view); its values are judged, not its memory",
                         "float16/float32 samples are computed in that precision and are not required to agree with float64"])
