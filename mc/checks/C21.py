"""C21: Plot shows the Dataset results: all histories of plot calls on one and two Plot objects."""
import io
import os
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import allantools as at
from ..engine import Harness
from ..refs import deck


def dataset(kind):
    if kind == "A":
        d, f = at.Dataset(np.array(deck("walk", 30, 1), dtype=float), 2.0, "phase", None), "oadev"
    elif kind == "B":
        d, f = at.Dataset(np.array(deck("white", 33, 2), dtype=float) * 1e-11, 1.0, "freq", [1.0, 2.0, 5.0]), "mdev"
    elif kind == "C":
        d, f = at.Dataset(np.array(deck("drift", 20, 4), dtype=float), 0.1, "phase", "all"), "tierms"
    elif kind == "Z":       # some deviations are exactly zero
        d, f = at.Dataset(np.tile([0.0, 3.0], 16), 1.0, "phase", [1.0, 2.0, 3.0, 4.0]), "oadev"
    elif kind == "S":       # a single tau
        d, f = at.Dataset(np.array(deck("walk", 12, 9), dtype=float), 1.0, "phase", [2.0]), "hdev"
    elif kind == "L":       # thousands of taus
        d, f = at.Dataset(np.cumsum(np.array(deck("white", 9001, 6), dtype=float)), 1e6, "phase", "all"), "oadev"
    elif kind == "T":       # very small numbers
        d, f = at.Dataset(np.array(deck("white", 50, 3), dtype=float) * 1e-35, 1e-3, "phase", None), "tdev"
    else:
        d, f = at.Dataset(np.array(deck("white", 64, 5), dtype=float), 1.0, "phase", "octave"), "gradev"
    d.compute(f)
    return d


def snapshot(ds):
    o = ds.out
    return (o["stat_id"], [np.array(o["taus"], copy=True), np.array(o["stat"], copy=True), np.array(o["stat_n"], copy=True)],
            [np.array(e, dtype=float, copy=True) for e in o["stat_err"]] if isinstance(o["stat_err"], list) else [np.array(o["stat_err"], copy=True)],
            dict(ds.inp), np.array(ds.inp["data"], copy=True))


def same_snapshot(a, b):
    return (a[0] == b[0] and all(np.array_equal(x, y) for x, y in zip(a[1], b[1])) and len(a[2]) == len(b[2])
            and all(np.array_equal(x, y) for x, y in zip(a[2], b[2])) and set(a[3]) == set(b[3])
            and all(a[3][k] is b[3][k] for k in a[3]) and np.array_equal(a[4], b[4]))


def curves(ax):
    """(x, y, error segments or None) of every curve, in drawing order; whatever artists draw it."""
    out = []
    bars = [k for k in ax.containers]
    owned = set()
    for k in bars:
        owned.update(id(a) for a in k.get_children())
    for k in bars:
        line = k.lines[0]
        segs = [s for col in k.lines[2] for s in col.get_segments()]
        out.append((line.get_zorder(), np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float), segs, line))
    for l in ax.lines:
        if id(l) not in owned:
            out.append((l.get_zorder(), np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), None, l))
    return [o[1:] for o in out]


def bounds(ds):
    o = ds.out
    e = o["stat_err"]
    lo, hi = (np.asarray(e[0], float), np.asarray(e[1], float)) if isinstance(e, (list, tuple)) else (np.asarray(e, float),) * 2
    d = np.asarray(o["stat"], float)
    return d - lo, d + hi


class Model(object):
    def __init__(self):
        self.curves = []            # (dataset, errorbars, kwargs)
        self.grid = False

    def verify(self, c, p, what):
        ax = p.ax
        c.check(ax.get_xscale() == "log" and ax.get_yscale() == "log", "%s: logarithmic axes" % what)
        got = curves(ax)
        c.equal(len(got), len(self.curves), "%s: number of curves" % what)
        left = list(got)
        for ds, err, kw in self.curves:
            t, d = np.asarray(ds.out["taus"], float), np.asarray(ds.out["stat"], float)
            hit = None
            for k, g in enumerate(left):
                if len(g[0]) == len(t) and np.array_equal(g[0], t) and np.array_equal(g[1], d) and (g[2] is not None) == err:
                    if "label" in kw and g[3].get_label() != kw["label"] and not err:
                        continue
                    if "color" in kw and matplotlib.colors.to_hex(g[3].get_color()) != matplotlib.colors.to_hex(kw["color"]):
                        continue
                    hit = k
                    break
            c.check(hit is not None, "%s: no curve shows the results of the dataset" % what, taus=t, stat=d, errorbars=err, kwargs=kw,
                    have=[(g[0], g[1], g[2] is not None) for g in left])
            g = left.pop(hit)
            if err:
                lo, hi = bounds(ds)
                segs = sorted([sorted(float(y) for _, y in s) for s in g[2]])
                want = sorted([sorted([float(a), float(b)]) for a, b in zip(lo, hi)])
                c.equal(len(segs), len(want), "%s: number of error bars" % what)
                c.close(segs, want, "%s: error bars" % what, rtol=1e-9, atol=1e-12 * float(np.max(np.abs(want))))
        if self.curves:
            c.equal(ax.get_xlabel(), "Tau", "%s: x label" % what)
            c.equal(ax.get_ylabel(), self.curves[-1][0].out["stat_id"], "%s: y label" % what)
            for a in (ax.xaxis, ax.yaxis):
                for which in ("major", "minor"):
                    on = a.get_tick_params(which=which).get("gridOn", False)
                    c.equal(bool(on), self.grid, "%s: %s grid" % (what, which))


KW = [{}, {"label": "curve", "color": "red"}, {"color": "#00ff00", "linestyle": "--"}]


def act(c, p, m, ds, err, grid, kw, style):
    c.call()
    if style == "keywords":
        args = dict(kw)
        if err:
            args["errorbars"] = True
        if grid:
            args["grid"] = True
        p.plot(ds, **args)
    else:
        p.plot(ds, err, grid, **kw)
    m.curves.append((ds, err, kw))
    m.grid = grid


def history(length, kinds, two):
    def fn(c):
        plt.close("all")
        n = 2 if two else 1
        c.call(n)
        ps = [at.Plot(no_display=True) for _ in range(n)]
        ms = [Model() for _ in range(n)]
        dss = {k: dataset(k) for k in kinds}
        snaps = {k: snapshot(d) for k, d in dss.items()}
        for i in range(n):
            ms[i].verify(c, ps[i], "new plot %d" % i)
        done = []
        for k in range(length):
            i = c.choose("plot object %d" % k, [0, 1]) if two else 0
            kind = c.choose("dataset %d" % k, kinds)
            err = c.choose("errorbars %d" % k, [False, True])
            grid = c.choose("grid %d" % k, [False, True])
            act(c, ps[i], ms[i], dss[kind], err, grid, KW[(k + len(kind)) % 3], "keywords" if k % 2 else "positional")
            done.append((i, kind, err, grid))
            for j in range(n):
                ms[j].verify(c, ps[j], "plot %d after call %d on plot %d" % (j, k, i))
            for q in kinds:
                c.check(same_snapshot(snaps[q], snapshot(dss[q])), "plotting changed dataset %s" % q)
        c.outcome(done)
        plt.close("all")
    return fn


def many(n):
    """Many curves in one plot, and many plots with one curve each."""
    def fn(c):
        plt.close("all")
        how = c.choose("curves", ["in one plot", "one per plot"])
        kinds = c.choose("datasets", ["A", "ABG", "ZSTC"])
        err = c.choose("errorbars", ["never", "always", "alternating", "every third"])
        save = c.choose("saved", ["never", "after every call", "at the end, twice"])
        dss = {k: dataset(k) for k in kinds}
        ps, ms = [at.Plot(no_display=True)], [Model()]
        for k in range(n):
            if how == "one per plot" and k:
                ps.append(at.Plot(no_display=True))
                ms.append(Model())
            e = {"n": False, "a": True, "alternating": k % 2 == 1, "e": k % 3 == 2}[err if err == "alternating" else err[0]]
            act(c, ps[-1], ms[-1], dss[kinds[k % len(kinds)]], e, k % 5 == 3, {}, "keywords")
            if how == "in one plot":
                ms[0].verify(c, ps[0], "call %d" % k)
            if save == "after every call" and k % 3 == 2:
                c.call()
                ps[-1].save(io.BytesIO())
                ms[-1].verify(c, ps[-1], "saved after call %d" % k)
        for p, m in list(zip(ps, ms))[-1 if save == "at the end, twice" else 0:]:
            for _ in range(2 if save == "at the end, twice" else 0):
                c.call()
                p.save(io.BytesIO())
            m.verify(c, p, "after all calls")
        c.outcome(how, kinds, err, save)
        plt.close("all")
    return fn


def recompute(c):
    """A dataset recomputed between two plot calls: the earlier curve keeps the earlier results."""
    plt.close("all")
    f1 = c.choose("first", ["adev", "oadev", "gradev", "mtie"])
    f2 = c.choose("second", ["adev", "tdev", "gradev"])
    err = c.choose("errorbars", [False, True])
    ds = at.Dataset(np.array(deck("walk", 64, 7), dtype=float))
    p, m = at.Plot(no_display=True), Model()

    class Frozen(object):
        def __init__(self, d):
            self.out = {k: (np.array(v, copy=True) if not isinstance(v, (str, list)) else v) for k, v in d.out.items()}
    c.call(3)
    for f in (f1, f2):
        ds.compute(f)
        p.plot(ds, errorbars=err)
        m.curves.append((Frozen(ds), err, {}))
        m.verify(c, p, "after " + f)
    c.outcome(f1, f2, err)
    plt.close("all")


def save(c):
    """save() writes the figure of this Plot, whichever other figures exist, and changes nothing."""
    plt.close("all")
    order = c.choose("figures", ["one", "two, save first", "two, save second", "foreign figure last"])
    err = c.choose("errorbars", [False, True])
    fmt = c.choose("target", ["file object", "png file", "existing file", "path object", "bare name", "svg file", "pdf file"])
    c.call(2)
    a, m = at.Plot(no_display=True), Model()
    dA, dB = dataset("A"), dataset("B")
    s = snapshot(dA)
    act(c, a, m, dA, err, err, {}, "keywords")
    if order.startswith("two"):
        b, mb = at.Plot(no_display=True), Model()
        act(c, b, mb, dB, False, False, {}, "keywords")
        if order.endswith("second"):
            a, b, m, mb = b, a, mb, m
    elif order.startswith("foreign"):
        plt.figure()
    ref = io.BytesIO()
    a.fig.savefig(ref, format="png")
    if fmt == "file object":
        got = io.BytesIO()
        a.save(got)
        got = got.getvalue()
    else:
        import tempfile
        import shutil
        import pathlib
        d = tempfile.mkdtemp(prefix="mc_c21_")
        ext = fmt[:3] if fmt[:3] in ("svg", "pdf") else "png"
        old = os.environ.get("SOURCE_DATE_EPOCH")
        os.environ["SOURCE_DATE_EPOCH"] = "0"
        try:
            p = os.path.join(d, "f.name." + ext)
            if fmt == "existing file":
                with open(p, "wb") as fp:
                    fp.write(b"x" * 10 ** 6)
            with plt.rc_context({"svg.hashsalt": "s", "savefig.format": "png"}):
                a.save(pathlib.Path(p) if fmt == "path object" else os.path.join(d, "f") if fmt == "bare name" else p)
                if ext != "png":
                    a.fig.savefig(os.path.join(d, "ref." + ext))
                    with open(os.path.join(d, "ref." + ext), "rb") as fp:
                        ref = fp.read()
            if fmt == "bare name":
                p = os.path.join(d, "f.png")
            c.check(os.path.exists(p), "save() did not write the file it was given", have=sorted(os.listdir(d)))
            with open(p, "rb") as fp:
                got = fp.read()
        finally:
            shutil.rmtree(d, ignore_errors=True)
            if old is None:
                del os.environ["SOURCE_DATE_EPOCH"]
            else:
                os.environ["SOURCE_DATE_EPOCH"] = old
        if ext != "png":
            c.check(got == ref, "the saved %s is not this plot's figure" % ext)
            got = None
    img = lambda raw: plt.imread(io.BytesIO(raw), format="png")
    c.check(got is None or np.array_equal(img(got), img(ref.getvalue())), "the saved picture is not this plot's figure")
    m.verify(c, a, "after save")
    c.check(same_snapshot(s, snapshot(dA)), "saving changed the dataset")
    c.outcome(order, err, fmt)
    plt.close("all")


def harnesses(tier):
    T = tier == "thorough"
    return [Harness("history", history(3, ["A", "B", "G"] if T else ["A", "G"], False), doc="all histories of plot calls on one object"),
            Harness("history of all datasets", history(2, ["A", "B", "C", "G", "Z", "S", "T"], False)),
            Harness("long curve", history(2, ["L"], False)),
            Harness("many curves", many(40 if T else 18)),
            Harness("two plots", history(3 if T else 2, ["A", "B", "G"] if T else ["A", "B"], True), doc="all interleavings on two objects"),
            Harness("recompute", recompute), Harness("save", save)]


SPEC = dict(level="model_checking", harnesses=harnesses, split=12,
            rule="All histories of plot calls on one and two Plot objects; after every call the artists on the axes are compared with the list of "
                 "curves asked for so far. distinct = distinct history.",
            assumptions=["matplotlib's Agg backend; pictures are compared after rendering by the same matplotlib"])
