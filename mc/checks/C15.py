"""C15: Dataset: any history of set_input / compute / write_results on one or two objects."""
import copy
import os
import re
import shutil
import tempfile
import numpy as np
import allantools as at
from ..engine import Harness
from ..refs import deck

X40 = np.array(deck("walk", 40, 1), dtype=float)
Y41 = np.array(deck("white", 41, 2), dtype=float) * 1e-3
X25 = np.array(deck("drift", 25, 3), dtype=float) * 1e-9
CONFS = [(X40, 1.0, "phase", None), (Y41, 0.1, "freq", "octave"), (X25, 3.0, "phase", [1 / 3.0, 2.0, 1.0]),
         (list(X40), 2, "phase", "all"), (Y41, 10.0, "freq", "decade"), (X40, 86400.0 ** -1, "phase", np.array([86400.0, 3 * 86400.0]))]
FUNCS = ["adev", "oadev", "mdev", "tdev", "hdev", "ohdev", "pdev", "totdev", "ttotdev", "mtotdev", "htotdev", "theo1", "mtie", "tierms", "gradev"]
BAD = ["trim_data", "phase2frequency", "mtie_phase_fast", "three_cornered_hat_phase", "Dataset", "edf_simple", "confidence_interval", "noise", "Noise", "Plot", "psd2allan", "frequency2phase", "tau_generator", "mask"]
UNKNOWN = ["nosuchdev", "adev2", "", "foo"]
# the data each function can take (htotdev etc. are slow and need enough points)


def call_ref(c, name, conf):
    data, rate, dt, taus = copy.deepcopy(conf)
    c.call()
    return getattr(at, name)(data, rate=rate, data_type=dt, taus=taus)


def same(a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(np.array_equal(np.asarray(x, float), np.asarray(y, float)) for x, y in zip(a, b))
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


class Obj(object):
    """Real object plus model state."""

    def __init__(self, conf=None, how="constructor"):
        if conf is None:
            self.ds, self.given = at.Dataset(), None
            conf = (None, 1.0, "phase", None)
        elif how == "constructor":
            self.ds = at.Dataset(*self.give(conf))
        elif how == "keywords":
            g = self.give(conf)
            self.ds = at.Dataset(taus=g[3], data_type=g[2], rate=g[1], data=g[0])
        else:
            self.ds = at.Dataset(self.give(conf)[0])
            conf = (conf[0], 1.0, "phase", None)
        self.conf, self.fun, self.res, self.fresh = conf, None, None, False

    def give(self, conf):
        """A copy for the object under test, so that self.conf stays what was given whatever is done to it."""
        self.given = copy.deepcopy(conf)
        return self.given

    def verify(self, c, what):
        d, r, t, ta = self.conf
        i = self.ds.inp
        c.check(same(i["data"], d), "%s: inp data" % what)
        c.check(i["rate"] == r and i["data_type"] == t, "%s: inp rate and type" % what, got=[i["rate"], i["data_type"]])
        c.check(same(i["taus"], ta), "%s: inp taus" % what, got=i["taus"], want=ta)
        if self.given is not None:
            c.check(same(self.given[0], d) and same(self.given[3], ta), "%s: the caller's data or taus changed" % what, got=self.given[3], want=ta)
        o = self.ds.out
        if self.fun is None:
            c.check(all(o[k] is None for k in ("taus", "stat", "stat_err", "stat_n", "stat_id")), "%s: out before compute" % what, got=o)
        else:
            c.equal(o["stat_id"], self.fun, "%s: out stat_id" % what)
            for k, w in zip(("taus", "stat", "stat_err", "stat_n"), self.res):
                c.check(same(o[k], w), "%s: out %s is not the result of %s" % (what, k, self.fun), got=o[k], want=w)


def compute(c, o, name):
    try:
        want = call_ref(c, name, o.conf)
    except Exception as e:
        # the function refuses this input: so does compute, and the stored result stays
        c.call()
        try:
            o.ds.compute(name)
        except type(e):
            return None
        c.fail("compute(%s) returns where %s() raises" % (name, name))
    c.call()
    r = o.ds.compute(name)
    o.fun, o.res, o.fresh = name, want, True
    c.check(isinstance(r, dict), "compute returns a dict")
    for k, w in zip(("taus", "stat", "stat_err", "stat_n"), want):
        c.check(same(r[k], w), "compute(%s) differs from %s()" % (name, name), key=k, got=r[k], want=w)
    return r


def refuse(c, o, name):
    c.call()
    try:
        o.ds.compute(name)
    except (RuntimeError, AttributeError):
        return
    c.fail("compute(%r) is not refused" % name)


def parse(c, path, o, digits, header, name):
    """The file as documented, in words of its own."""
    with open(path) as fp:
        lines = fp.read().split("\n")
    c.check(lines and lines[-1] == "", "file ends with a newline")
    lines = lines[:-1]
    head = [l for l in lines if l.startswith("#")]
    body = [l for l in lines if not l.startswith("#")]
    c.check(lines[:len(head)] == head, "header comes first")
    want = ["# Generated by Allantools %s" % at.__version__, "# Input data type: %s" % o.conf[2], "# Input data rate: %s" % o.conf[1]]
    want += ["# %s: %s" % kv for kv in header.items()]
    c.equal(head, want, "header")
    c.equal(body[0].split(), ["AF", "Tau", "N", "alpha", "min_" + name, name, "max_" + name], "column titles")
    t, d, e, n = o.res
    lo, hi = (e if isinstance(e, (list, tuple)) else (np.asarray(e) / 2, np.asarray(e) / 2))
    rows = body[1:]
    c.equal(len(rows), len(t), "number of rows")
    num = re.compile(r"-?\d\.\d{%d}e[+-]\d{2,3}$" % (digits - 1)) if digits > 1 else re.compile(r"-?\de[+-]\d{2,3}$")
    for k, row in enumerate(rows):
        f = row.split()
        c.equal(len(f), 7, "columns of a row", row=row)
        c.equal(f[0], str(int(round(float(t[k]) * float(o.conf[1])))), "averaging factor", row=row, tau=t[k], rate=o.conf[1])
        c.equal(f[2], str(int(n[k])), "N", row=row)
        for p, v in ((1, t[k]), (4, d[k] - lo[k]), (5, d[k]), (6, d[k] + hi[k])):
            c.check(num.match(f[p]) or not np.isfinite(v), "number of digits", got=f[p], digits=digits)
            if np.isfinite(v):
                c.close(float(f[p]), float(v), "column %d" % p, rtol=0.51 * 10.0 ** (1 - digits), atol=1e-14 * abs(float(d[k])))
            else:
                c.check(not np.isfinite(float(f[p])), "column %d" % p)


class Scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="mc_c15_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


HEADERS = [{}, {"Location": "lab 1"}, {"b": 2, "a": [1, 2], "x": None}, {"conf": {"gate": 1.0, "n": {}}, "mask": "{0:5s} {} {tau}"},
           {"pct": "50%s %d %", "%s": "100%"}, {"t": (1, 2), "empty": "", "": "no key", "u": "\u00b5s \u03c4"}, {"{a}": 1, "a: b": "c: d", 3: 4.5, None: True},
           {"x%d" % k: k for k in range(40)}, {"long": "v" * 300, "z": 2 + 1j, "f": np.float64(0.1), "e": 1e-300}]


def write(c, o, path, digits, header):
    snap_h = dict(header)
    c.call()
    args = {}
    if digits != 5:
        args["digits"] = digits
    if header:
        args["header_params"] = header
    r = o.ds.write_results(path, **args)
    c.check(r is None, "write_results returns None")
    c.equal(header, snap_h, "header parameters changed")
    parse(c, path, o, digits, header, o.fun)


def every(funcs, confs, digits):
    """Every function on every input, in every way of setting it; every file format."""
    def fn(c):
        name = c.choose("function", funcs)
        conf = CONFS[c.choose("input", confs)]
        how = c.choose("set through", ["constructor", "keywords", "set_input", "set_input keywords"])
        if how.startswith("set_input"):
            o = Obj()
            o.verify(c, "new")
            if how == "set_input":
                o.ds.set_input(*o.give(conf))
            else:
                g = o.give(conf)
                o.ds.set_input(taus=g[3], rate=g[1], data=g[0], data_type=g[2])
            o.conf = conf
        else:
            o = Obj(conf, how)
        o.verify(c, "input")
        try:
            want = call_ref(c, name, conf)
        except Exception as e:
            c.call()
            try:
                o.ds.compute(name)
            except type(e):
                c.outcome(name, "refused")
                return
            c.fail("compute(%s) returns where %s() raises" % (name, name))
        compute(c, o, name)
        o.verify(c, "computed")
        with Scratch() as d:
            for dg in digits:
                h = HEADERS[dg % len(HEADERS)]
                write(c, o, os.path.join(d, "r"), dg, h)
                o.verify(c, "written")
        c.outcome(name, how, dg)
    return fn


def touch(o, k):
    """The user edits the data array in place (say, a phase jump or an outlier removed)."""
    o.ds.inp["data"][7 + k] += 3.5 * (1 + abs(o.ds.inp["data"][3]))
    d = o.ds.inp["data"]
    o.given = None
    o.conf = (list(d) if isinstance(d, list) else np.array(d, copy=True),) + o.conf[1:]


def history(length, two, funs):
    """All histories of operations; the model state of both objects is compared after every operation."""
    def fn(c):
        objs = [Obj(CONFS[0]), Obj()][:2 if two else 1]
        objs[0].ds.set_input(*objs[0].give(CONFS[0]))
        held, done = [], []
        with Scratch() as d:
            path = os.path.join(d, "same file")
            for k in range(length):
                i = c.choose("object %d" % k, list(range(len(objs)))) if two else 0
                o = objs[i]
                ops = ["set 1", "set 2", "set defaults", "set unusable"]
                if o.conf[0] is not None:
                    ops += ["touch"]
                    ops += ["compute " + f for f in funs] + ["refused", "unknown"]
                if o.fresh:
                    ops += ["write 5", "write 12"]
                op = c.choose("op %d" % k, ops)
                if op.startswith("set"):
                    if op == "set defaults":
                        o.conf = (X25, 1.0, "phase", None)
                        o.ds.set_input(o.give(o.conf)[0])
                    elif op == "set unusable":
                        o.conf = [(X25, 1.0, "phase", [1e4]), (X40[:2], 1.0, "phase", None), (X40, 1.0, "phase ", None)][k % 3]
                        o.ds.set_input(*o.give(o.conf))
                    else:
                        o.conf = CONFS[int(op[4:])]
                        o.ds.set_input(*o.give(o.conf))
                    c.call()
                    o.fresh = False
                elif op == "touch":
                    if len(o.conf[0]) > 8 + k:
                        touch(o, k)
                        c.call()
                        o.fresh = False
                elif op == "refused":
                    refuse(c, o, BAD[k % len(BAD)])
                elif op == "unknown":
                    refuse(c, o, UNKNOWN[k % len(UNKNOWN)])
                elif op.startswith("compute"):
                    r = compute(c, o, op[8:])
                    if r is not None:
                        held.append((r, {q: np.array(v, copy=True) for q, v in r.items()}))
                else:
                    write(c, o, path, int(op[6:]), HEADERS[k % len(HEADERS)])
                for j, p in enumerate(objs):
                    p.verify(c, "object %d after %s on object %d" % (j, op, i))
                for r, s in held:
                    for q in s:
                        c.check(same(r[q], s[q]), "an earlier result changed after %s" % op, key=q)
                done.append((i, op))
            c.outcome(done)
    return fn


def session(length):
    """Long sessions on two objects: every function many times, inputs set again and again, result files now and then."""
    def fn(c):
        step = c.choose("stride over functions", [1, 2, 4, 7, 8, 11, 13, 14])
        every = c.choose("new input every", [3, 10, 1000])
        other = c.choose("second object every", [1000, 3])
        objs = [Obj(CONFS[0]), Obj(CONFS[2])]
        objs[1].ds.set_input(*objs[1].give(CONFS[2]))
        first = []
        with Scratch() as d:
            path = os.path.join(d, "r")
            for k in range(length):
                o = objs[1 if k % other == other - 1 else 0]
                if k % every == every - 1:
                    o.conf = CONFS[(k // every + step) % len(CONFS)]
                    o.ds.set_input(*o.give(o.conf))
                    c.call()
                    o.fresh = False
                r = compute(c, o, FUNCS[k * step % len(FUNCS)])
                if r is not None and len(first) < 3:
                    first.append((r, {q: np.array(v, copy=True) for q, v in r.items()}))
                for p in objs:
                    p.verify(c, "call %d" % k)
                if o.fresh and k % 5 == 4:
                    write(c, o, path, [5, 9, 3][k % 3], HEADERS[k % len(HEADERS)])
            for r, s in first:
                for q in s:
                    c.check(same(r[q], s[q]), "an earlier result changed in a long session", key=q)
        c.outcome(step, every, other)
    return fn


def longfile(ns, funs):
    """Result tables whose numbers of terms and averaging factors have many digits."""
    def fn(c):
        n, rate, taus = c.choose("record", ns)
        name = c.choose("function", funs)
        x = np.cumsum(np.array(deck("white", 997, 4) * (n // 997 + 1), dtype=float)[:n])
        o = Obj((x, rate, "phase", taus))
        if compute(c, o, name) is None:
            return
        with Scratch() as d:
            for dg in (5, 3, 15):
                write(c, o, os.path.join(d, "r"), dg, {})
        o.verify(c, "written")
        c.outcome(n, rate, name)
    return fn


LONG = [(150000, 1.0, [1.0, 10.0, 7e4]), (1200000, 1.0, [1.0]), (250000, 1e6, [0.1, 0.01]), (120001, 1e-6, None), (100002, 1e15, "decade"),
        (22100, 1.0, "all")]


def refused(c):
    """Every public name that is not a deviation, on an object with and without results."""
    names = sorted(n for n in BAD)
    name = c.choose("name", names + UNKNOWN)
    before = c.choose("result before", [None, "adev", "gradev"])
    o = Obj(CONFS[0])
    if before:
        compute(c, o, before)
    refuse(c, o, name)
    o.verify(c, "after refusal")
    c.outcome(name, before)


def headers(c):
    """Header parameters of all kinds of keys and values, at every number of digits, twice into the same file."""
    name = c.choose("function", ["oadev", "gradev"])
    o = Obj((X40, 1.0, "phase", "octave"))
    if compute(c, o, name) is None:
        return
    h1 = c.choose("first header", HEADERS)
    h2 = c.choose("second header", HEADERS)
    with Scratch() as d:
        for dg, h in ((5, h1), (9, h2)):
            write(c, o, os.path.join(d, "r"), dg, h)
            o.verify(c, "written")
    c.outcome(name, len(h1), len(h2))


def harnesses(tier):
    T = tier == "thorough"
    return [Harness("every function", every(FUNCS, list(range(len(CONFS))), [1, 2, 3, 4, 5, 6, 9, 15] if T else [5, 2, 9]),
                    doc="functions x inputs x ways of setting the input x digits"),
            Harness("history one object", history(5 if T else 4, False, ["oadev", "theo1", "gradev"] if T else ["oadev", "gradev"])),
            Harness("history two objects", history(5 if T else 4, True, ["adev", "mtie"])),
            Harness("session", session(300 if T else 64), doc="sessions of %d calls" % (300 if T else 64)),
            Harness("long files", longfile(LONG, ["oadev", "adev", "hdev", "ohdev", "mdev"] if T else ["oadev", "hdev"])),
            Harness("headers", headers),
            Harness("refused", refused)]


SPEC = dict(level="model_checking", harnesses=harnesses,
            rule="All histories of operations on one and two objects up to the given length; real object state compared with a model after every operation; "
                 "every file parsed and compared field by field. distinct = distinct operation or configuration.",
            assumptions=["files are written in a scratch directory", "write_results is judged when the input was not replaced since compute",
                         "the lower and upper bounds of symmetric errors are deviation -/+ err/2 as written by the library"])
