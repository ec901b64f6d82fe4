"""Shared driver: run one deviation of the real code and compare it with refs.expect."""
import numpy as np
import allantools as at
from . import refs

RATES = [1.0, 2.0, 0.5, 10.0, 0.1, 1000.0, 3.7, 1.0 / 3.0, 1e-4, 7, 1e6, 44100.0, 1e9, 1e-9, np.float64(3.25), np.int64(25), 86400.0]


def call(c, name, data, rate, data_type, taus, **kw):
    """The real function; 'refused' if it says that nothing remains."""
    c.call()
    try:
        return getattr(at, name)(data, rate=rate, data_type=data_type, taus=taus, **kw)
    except UserWarning:
        return "refused"


def ms_of_taus(taus, rate, N):
    """Averaging factors that a tau request stands for (reference of the tau clean-up)."""
    if taus is None or (isinstance(taus, (list, np.ndarray)) and len(taus) == 0 and isinstance(taus, list)):
        taus = "octave"
    if isinstance(taus, str):
        if taus == "all":
            ms = range(1, N + 1)
        elif taus == "octave":
            ms = [2 ** k for k in range(64) if 2 ** k <= N]
        elif taus == "decade":
            ms = [f * 10 ** k for k in range(10) if 10 ** k <= N for f in (1, 2, 4)]
        else:
            raise ValueError(taus)
    else:
        ms = [int(np.rint(float(t) * float(rate))) for t in taus]
    return sorted(set(m for m in ms if 0 < m < N))


def compare(c, name, data, rate, data_type, taus, ms, rtol=1e-9, atolf=1e-12, res=None):
    """Compare taus, deviations, errors and n with the reference rows."""
    rows = refs.expect(name, data, rate, data_type, ms)
    if res is None:
        res = call(c, name, data, rate, data_type, taus)
    if not rows:
        c.check(isinstance(res, str) and res == "refused",
                "%s: a result although no averaging factor has two terms" % name, res=res)
        return None
    c.check(not isinstance(res, str), "%s: refused although %d averaging factors have two terms" % (name, len(rows)),
            m=[r[0] for r in rows][:20])
    c.check(len(res) == 4, "%s: result is not a 4-tuple" % name)
    taus_r, dev, err, ns = res
    m = np.array([r[0] for r in rows], dtype=float)
    c.close(taus_r, m / rate, "%s: taus" % name, rtol=1e-12)
    c.close(ns, [r[3] for r in rows], "%s: n" % name, rtol=0)
    x = np.asarray(data, dtype=float)
    scale = np.nanmax(np.abs(x)) if len(x) else 0.0
    if data_type == "freq":
        xs = float(np.nanmax(np.abs(refs.integrate(data, rate))))   # size of the accumulated phase
        fac = xs * np.ones(len(m)) if name in refs.TIME_UNITS else xs * rate / m + scale
    elif name in refs.TIME_UNITS:
        fac = scale * np.ones(len(m))
    else:
        fac = scale * rate / m
    want = np.array([r[1] for r in rows], dtype=float)
    werr = np.array([r[2] for r in rows], dtype=float)
    for what, got, w in (("deviation", dev, want), ("error", err, werr)):
        g = np.asarray(got, dtype=float)
        c.check(g.shape == w.shape, "%s: shape of %s" % (name, what), got=g, want=w)
        c.compared += g.size
        bad = ~(np.abs(g - w) <= atolf * fac + rtol * np.abs(w))
        if bad.any():
            i = int(np.argmax(bad))
            c.fail("%s: %s differs at m=%d" % (name, what, rows[i][0]), got=g[i], want=w[i], n=rows[i][3],
                   N=len(x), rate=rate, data_type=data_type)
    c.outcome(name, np.round(want, 6).tolist())
    return res


def rounded(res):
    return [np.round(np.asarray(a, dtype=float), 8).tolist() for a in res]
