"""C23: calls made at the same time in several threads do not influence each other.

Each execution takes one pair of calls and runs *every* schedule of the stated kind: the
library code of thread A (and, with two preemptions, of thread B) is driven step by step
by a trace function that sees each line (or bytecode) of the allantools modules, and the
other thread runs at the chosen points.
"""
import io
import os
import sys
import threading
import time
import warnings
import numpy as np
import allantools as at
from . import C16
from ..engine import Harness, forked

RANDOM = ("noise.", "timmer", "Noise")
NAMES = [k.name for k in C16.CALLS if not k.name.startswith(RANDOM)]
PKG = os.path.realpath(os.path.dirname(at.__file__)) + os.sep
PATIENCE_S = [1.0]      # a thread that makes no progress for this long waits for a lock of the other one
VALUES = ["same arrays", "other values", "shorter"]
PARTNERS = ["oadev/freq", "hdev/freq", "confidence_interval_noiseID/freq", "Dataset/write"]
CHEAP = ["oadev/freq", "hdev/freq", "tdev/phase", "totdev/phase", "mtie/phase", "tierms/phase", "oadev/all", "gcodev/phase", "mtie_phase_fast",
         "calc_hdev_phase", "phase2frequency", "frequency2phase", "frequency2phase/nan", "phase2radians", "frequency2fractional", "frequency2fractional/mean",
         "trim_data", "tau_generator", "tau_generator/even", "tau_reduction", "psd2allan/axis", "psd2allan/step", "numpy_psd", "scipy_psd", "confidence_interval",
         "autocorr_noise_id/phase", "autocorr_noise_id/freq", "lag1_acf", "detrend", "rn", "b1", "theory", "edf others", "masks", "Dataset/adev"]


def arguments(name, kind):
    """Arguments of a call: as in C16 (for both calls: the very same arrays), in other values of the same lengths, or with the long arrays cut."""
    out = [a.copy() for a in C16.fresh(C16.BY[name])]
    if kind == "same arrays":
        return out
    if kind == "other values":
        return [a[::-1].copy() if len(a) >= 12 and name != "psd2allan/axis" else (a if name.startswith("psd2allan/axis") and k else a * 2.0)
                for k, a in enumerate(out)]
    return [a[:-3].copy() if len(a) >= 12 else a for a in out]


def outcome(name, args):
    try:
        return C16.flat(C16.run(C16.BY[name], args))
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def same(g, w):
    if isinstance(g, str) or isinstance(w, str):
        return isinstance(g, str) and isinstance(w, str) and g == w
    return len(g) == len(w) and all(a.shape == b.shape and np.array_equal(a, b, equal_nan=True) for a, b in zip(g, w))


class Stepper(object):
    """Trace function: calls at(k) at the k-th step of the library code in this thread, for the chosen k.

    A step is a line (or a bytecode) of a module of the package at its first `visits` visits in this call."""

    def __init__(self, visits, fine, stop_at, at_stop):
        self.visits, self.fine, self.stop_at, self.at_stop = visits, fine, stop_at, at_stop
        self.seen, self.n, self.done = {}, 0, False

    def __call__(self, frame, event, arg):
        if self.done or not frame.f_code.co_filename.startswith(PKG):
            return None
        if self.fine:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.step

    def step(self, frame, event, arg):
        if self.done:
            return None
        if event == ("opcode" if self.fine else "line"):
            key = (frame.f_code, frame.f_lasti if self.fine else frame.f_lineno)
            v = self.seen.get(key, 0)
            if v < self.visits:
                self.seen[key] = v + 1
                k = self.n
                self.n += 1
                if k == self.stop_at:
                    self.done = True
                    self.at_stop()
        return self.step


def steps(name, args, visits, fine):
    """Number of steps of a call made alone."""
    s = Stepper(visits, fine, -1, None)
    sys.settrace(s)
    try:
        outcome(name, args)
    finally:
        sys.settrace(None)
    return s.n


def schedule(a, b, i, j, visits, fine, alone_s):
    """A runs to its step i; B runs to its step j (or its end, j = None); A runs to its end; B runs to its end.

    A thread that waits for the other one (a lock) is let go on: that is an interleaving too.
    Returns the outcomes of A and B."""
    got = [None, None]
    at_j, resume = threading.Event(), threading.Event()

    def pause():
        sys.settrace(None)
        at_j.set()
        if not resume.wait(PATIENCE_S[0]):
            PATIENCE_S[0] = max(0.02, 5 * alone_s)

    def body():
        if j is not None:
            sys.settrace(Stepper(visits, fine, j, pause))
        try:
            got[1] = outcome(*b)
        finally:
            sys.settrace(None)
            at_j.set()
    t = threading.Thread(target=body, daemon=True)
    started = []

    def run_b():
        sys.settrace(None)
        started.append(1)
        t.start()
        if not at_j.wait(PATIENCE_S[0]):
            PATIENCE_S[0] = max(0.02, 5 * alone_s)      # the code uses locks: do not wait that long again
        elif j is None:
            t.join(2.0)
    s = Stepper(visits, fine, i, run_b)
    sys.settrace(s)
    try:
        got[0] = outcome(*a)
    finally:
        sys.settrace(None)
    resume.set()
    if not started:
        t.start()
    t.join(60)
    if t.is_alive():
        got[1] = "no result: the call did not return"
    return got


def one(c, an, ak, bn, bk, i, j, visits, fine, wa, wb, alone_s, what):
    a = arguments(an, ak)
    b = a if (an, ak) == (bn, bk) else arguments(bn, bk)      # the very same arrays
    c.call(2)
    ga, gb = schedule((an, a), (bn, b), i, j, visits, fine, alone_s)
    where = "%s (%s) stopped at step %d, %s (%s) run %s" % (an, ak, i, bn, bk, "to its end" if j is None else "to its step %d" % j)
    c.check(same(ga, wa), "%s: %s: result of the first differs from the result of the call alone" % (what, where), got=ga, want=wa)
    c.check(same(gb, wb), "%s: %s: result of the second differs from the result of the call alone" % (what, where), got=gb, want=wb)


_WARM = {}


def measured(an, bn, bk, visits, fine, two):
    """Results of the two calls made alone (in a process that has made them before) and their numbers of steps."""
    key = an, bn, bk, visits, fine, two
    if key not in _WARM:
        for _ in range(2):      # CPython 3.12 reports no bytecode events the first time
            wa, wb = outcome(an, arguments(an, VALUES[0])), outcome(bn, arguments(bn, bk))
            n = steps(an, arguments(an, VALUES[0]), visits, fine)
            t0 = time.time()
            m = steps(bn, arguments(bn, bk), visits, fine)
            t0 = time.time() - t0
        _WARM[key] = wa, wb, n, m if two else 0, t0
    return _WARM[key]


def warm(names, partners, visits, fine, two, kinds=VALUES):
    def fn(c):
        an = c.choose("call A", names)
        bn = c.choose("call B", [an] if partners is None else [p for p in partners if p != an])
        bk = c.choose("arguments of B", kinds if partners is None else VALUES[:1])
        wa, wb, n, m, t = measured(an, bn, bk, visits, fine, two)
        i = c.choose("A stops at step", range(n))
        for j in (range(m) if two else [None]):
            one(c, an, VALUES[0], bn, bk, i, j, visits, fine, wa, wb, t, "two threads")
        c.outcome(an, bn, bk, n, m, i)
    return fn


_ALONE = {}


def first(name, kind):
    return outcome(name, arguments(name, kind))


def cold(visits, kinds):
    """The two calls are the first ones of their process."""
    def fn(c):
        an = c.choose("call", NAMES)
        bk = c.choose("arguments of B", kinds)
        if c.probe:         # the processes that explore must not have called the library
            return

        def child(i):
            sys.stdout = io.StringIO()
            warnings.simplefilter("ignore")
            if i < 0:
                return steps(an, arguments(an, VALUES[0]), visits, False)
            a = arguments(an, VALUES[0])
            PATIENCE_S[0] = 0.3
            return schedule((an, a), (an, a if bk == VALUES[0] else arguments(an, bk)), i, None, visits, False, 0.1)

        def in_child(jobs):
            return {job: r if r is not None else ["the process ended"] * 2 for job, status, r in forked(jobs, child, 1, limit=100)}
        n = in_child([-1])[-1]
        res = in_child(list(range(n)))
        c.call(2 * n)
        for i in range(n):
            for k, kind in ((0, VALUES[0]), (1, bk)):
                c.check(same(res[i][k], _ALONE[an, kind]), "first calls of a process: %s stopped at step %d, the same function (%s) run to its end: result of call %d differs from "
                        "the result of the call alone" % (an, i, bk, k), got=res[i][k], want=_ALONE[an, kind])
        c.outcome(an, bk, n)
    return fn


def harnesses(tier):
    T = tier == "thorough"
    if not _ALONE:
        _ALONE.update(C16.alone([((n, k), first, (n, k)) for n in NAMES for k in VALUES[:2]]))
    return [Harness("same function", warm(NAMES, None, 3 if T else 2, False, False, VALUES if T else VALUES[:2]), doc="every line of the library code at its first two (thorough: three) visits, one preemption"),
            Harness("two preemptions", warm(NAMES if T else CHEAP, None, 1, False, True, VALUES if T else VALUES[1:2]), doc="the same function twice, every pair of lines at their first visits"),
            Harness("two functions", warm(NAMES, NAMES if T else PARTNERS, 1, False, False), doc="every line of A, B another function"),
            Harness("bytecode", warm(NAMES if T else CHEAP, None, 2 if T else 1, True, False), doc="the same function twice, every bytecode at its first visit(s)"),
            Harness("first calls", cold(3 if T else 2, VALUES[:2] if T else VALUES[:1]), doc="the two calls are the first ones of their process, every line of A")]


SPEC = dict(level="model_checking", harnesses=harnesses,
            rule="Every schedule of two calls with one preemption (at each line, at each bytecode) or two preemptions (at each pair of lines), the calls being the same function or two "
                 "functions, warm or the first of their process; distinct = distinct pairs and numbers of schedules.",
            assumptions=["a preemption point is a line or bytecode of an allantools module at its first visits in a call; a call into numpy or scipy is atomic",
                         "sequentially consistent interleavings, which is what CPython with its global lock provides"])
