"""Stateless explicit-state explorer for the real allantools code.

A *harness* is a function  h(c)  that asks the explorer for every decision it
needs through  c.choose(label, options)  (input length, samples, sampling rate,
operation to apply next, which object to apply it to, ...), runs the real code
under /repo and compares what it did with a reference model.  The explorer
enumerates *every* sequence of decisions, depth first, by re-execution:

  state       a node of the decision tree (a distinct decision prefix)
  execution   a leaf: one complete run of the real code, compared in full with
              the reference model (= one model trace validated against it)
  transition  one call into the real code made by an execution

Options flagged dev=True cost one deviation when a non-default (index > 0) is
taken; at most `bound` deviations are combined in one execution, everything
else is enumerated without bound.  There is no sampling: with the same bounds
the set of executions is always the same, whatever the seed (the seed only
rotates the order in which subtrees are handed to the worker processes).
"""
import gc
import hashlib
import io
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
QUICK_BUDGET_S = 780        # the quick tier takes < 60 s; on code that is very much slower it reports what it explored by then
SUBTREE_CUT_S = 480         # ... and leaves a subtree unfinished after this time (not a violation)
JOB_LIMIT_S = 600           # a subtree that gives no sign of life: a call that no signal interrupts
LEAF_LIMIT_S = 100          # one execution of a harness takes < 5 s; see level_note


class Violation(Exception):
    def __init__(self, msg, **info):
        Exception.__init__(self, msg)
        self.msg = msg
        self.info = info


class Stop(BaseException):
    """Raised while probing: a choice point beyond the given prefix."""
    def __init__(self, n):
        BaseException.__init__(self)
        self.n = n


class DivergedReplay(Exception):
    pass


class LeafTimeout(BaseException):
    pass


class Chooser(object):
    """One execution: replays `prefix`, then takes option 0 at later points."""

    def __init__(self, prefix, bound=None, probe=False, sink=None):
        self.prefix = prefix
        self.bound = bound
        self.probe = probe
        self.idx = []           # decisions taken
        self.width = []         # options that the explorer may take there
        self.labels = []
        self.values = []
        self.devs = 0
        self.calls = 0
        self.compared = 0
        self.sink = sink if sink is not None else set()

    def choose(self, label, options, dev=False):
        options = list(options) if not isinstance(options, (list, tuple, range)) else options
        n = len(options)
        if n == 0:
            raise RuntimeError("empty choice at %s" % label)
        w = n
        if dev and self.bound is not None and self.devs >= self.bound:
            w = 1
        k = len(self.idx)
        if k < len(self.prefix):
            i = self.prefix[k]
            if i >= n:
                raise DivergedReplay("choice %d at %s: only %d options" % (i, label, n))
        else:
            if self.probe:
                raise Stop(w)
            i = 0
        if dev and i > 0:
            self.devs += 1
        self.idx.append(i)
        self.width.append(w)
        self.labels.append(label)
        self.values.append(options[i])
        return options[i]

    def word(self, label, alphabet, length):
        """`length` independent choices from `alphabet` (a sample sequence)."""
        return [self.choose("%s%d" % (label, k), alphabet) for k in range(length)]

    # ---- what the execution did ------------------------------------------
    def call(self, n=1):
        self.calls += n

    def outcome(self, *objs):
        if len(self.sink) < 20000:
            self.sink.add(hashlib.blake2b(repr(objs).encode(), digest_size=8).digest())

    def fail(self, msg, **info):
        raise Violation(msg, **info)

    def check(self, cond, msg, **info):
        self.compared += 1
        if not cond:
            raise Violation(msg, **info)

    def equal(self, got, want, msg, **info):
        self.compared += 1
        if not (got == want):
            raise Violation(msg, got=got, want=want, **info)

    def close(self, got, want, msg, rtol=1e-9, atol=0.0, **info):
        """Element-wise agreement; NaN agrees with NaN only; shapes must agree."""
        import numpy as np
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except (TypeError, ValueError):
            raise Violation(msg + " (not numeric)", got=got, want=want, **info)
        if g.shape != w.shape:
            raise Violation(msg + " (shape)", got=g, want=w, **info)
        self.compared += g.size
        with np.errstate(all="ignore"):
            ok = (np.abs(g - w) <= atol + rtol * np.abs(w)) | (g == w) | (np.isnan(g) & np.isnan(w))
        if not np.all(ok):
            bad = int(np.argmin(np.atleast_1d(ok).ravel()))
            raise Violation(msg, first_bad=bad, got=g, want=w, **info)


class Harness(object):
    def __init__(self, name, fn, bound=None, doc=""):
        self.name, self.fn, self.bound = name, fn, bound
        self.doc = doc or (fn.__doc__ or "").strip()


# ---------------------------------------------------------------------------
def _quiet():
    warnings.simplefilter("ignore")
    sys.stdout = io.StringIO() if os.environ.get("MC_NOISY") is None else sys.stderr


def _alarm(signum, frame):
    raise LeafTimeout()


def _jsonable(o):
    try:
        import numpy as np
        if isinstance(o, np.ndarray):
            return _jsonable(o.tolist())
        if isinstance(o, np.floating):
            return float(o)
        if isinstance(o, np.generic):
            return _jsonable(o.item())
    except ImportError:
        pass
    if isinstance(o, dict):
        return {str(k): _jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [_jsonable(v) for v in o]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


def run_one(h, prefix, sink=None):
    """One execution.  Returns (chooser, violation-or-None)."""
    c = Chooser(prefix, h.bound, sink=sink)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, LEAF_LIMIT_S)
    if isinstance(sys.stdout, io.StringIO):
        sys.stdout.seek(0)
        sys.stdout.truncate()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            h.fn(c)
        v = None
    except Violation as e:
        v = {"message": e.msg, "info": _jsonable(e.info)}
    except LeafTimeout:
        v = {"message": "the call did not return within %d s" % LEAF_LIMIT_S, "info": {}}
    except DivergedReplay as e:
        v = {"message": "replay diverged: %s" % e, "info": {}, "diverged": True}
    except (Exception, SystemExit) as e:
        v = {"message": "unexpected %s: %s" % (type(e).__name__, e),
             "info": {"traceback": traceback.format_exc()[-3000:]}}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if v is not None:
        v["harness"] = h.name
        v["choices"] = list(c.idx)
        v["trace"] = [[l, _jsonable(x)] for l, x in zip(c.labels, c.values)]
    return c, v


def explore(h, prefix, known=(), stop_first=True, cut=None):
    """All executions whose decisions start with `prefix`, depth first."""
    st = dict(cut=False, states=0, leaves=0, calls=0, compared=0, maxdepth=0,
              viols=[], known=[], sink=set(), sample=None, t=0.0)
    t0 = time.time()
    plen = len(prefix)
    cur = list(prefix)
    first = True
    while True:
        c, v = run_one(h, cur, st["sink"])
        st["leaves"] += 1
        st["calls"] += c.calls
        st["compared"] += c.compared
        depth = len(c.idx)
        st["maxdepth"] = max(st["maxdepth"], depth)
        # nodes that this execution enters for the first time
        if first:
            st["states"] += depth - plen + (1 if plen == 0 else 1)
            first = False
        else:
            st["states"] += depth - (len(cur) - 1)
        if st["sample"] is None:
            st["sample"] = [[l, _jsonable(x)] for l, x in zip(c.labels, c.values)]
        if v is not None:
            v["task"] = list(prefix)
            key = viol_key(v)
            if key in known:
                st["known"].append(key)
            else:
                st["viols"].append(v)
                if stop_first:
                    break
        # next path
        idx, width = c.idx, c.width
        k = len(idx) - 1
        while k >= plen and idx[k] + 1 >= width[k]:
            k -= 1
        if k < plen:
            break
        if cut is not None and time.time() - t0 > cut:
            st["cut"] = True
            break
        cur = idx[:k] + [idx[k] + 1]
    st["t"] = time.time() - t0
    return st


def viol_key(v):
    return v["harness"] + ":" + json.dumps(v["choices"], separators=(",", ":"))


def probe_prefixes(h, want):
    """Split the decision tree into about `want` disjoint subtrees."""
    done, todo, inner = [], [[]], 0
    signal.signal(signal.SIGALRM, _alarm)
    while todo and len(done) + len(todo) < want:
        p = todo.pop(0)
        c = Chooser(p, h.bound, probe=True)
        signal.setitimer(signal.ITIMER_REAL, LEAF_LIMIT_S)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                h.fn(c)
            done.append(p)
        except Stop as s:
            inner += 1
            todo.extend([p + [i] for i in range(s.n)])
        except LeafTimeout:     # does not return: let a worker report just this one
            return [p], -1
        except (Exception, SystemExit):
            done.append(p)      # fails without further choices: the worker reports it
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    return done + todo, inner


_CTX = {}


def forked(jobs, fn, ncpu, limit=None, until=None):
    """Run fn(job) in a forked process of its own for every job, ncpu at a time; yields (job, status, result).

    One thread, one pipe per process and no locks: a killed worker cannot block the
    others, and leaving the generator kills what still runs.  A process that dies
    without a result is tried again twice, the last time with nothing else running
    (it may have been ended for lack of memory); status is then its wait status.
    """
    todo, running, tries = list(reversed(list(enumerate(jobs)))), {}, {}
    alone = []
    gc.collect()
    gc.freeze()
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        while todo or running or alone:
            if until is not None and time.time() > until:
                return
            while (todo and len(running) < ncpu) or (alone and not running):
                k, job = todo.pop() if todo else alone.pop()
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        b = pickle.dumps(fn(job))
                        while b:
                            b = b[os.write(w, b):]
                        code = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        os._exit(code)
                os.close(w)
                running[r] = (k, job, pid, [], time.time())
            ready = select.select(list(running), [], [], 5.0)[0]
            if limit is not None:
                for r, (k, job, pid, buf, t0) in running.items():
                    if time.time() - t0 > limit:
                        tries[k] = 9
                        os.kill(pid, signal.SIGKILL)
            for r in ready:
                k, job, pid, buf, t0 = running[r]
                b = os.read(r, 1 << 18)
                if b:
                    buf.append(b)
                    continue
                os.close(r)
                del running[r]
                status = os.waitpid(pid, 0)[1]
                if status == 0 and buf:
                    yield job, 0, pickle.loads(b"".join(buf))
                    continue
                tries[k] = tries.get(k, 0) + 1
                if tries[k] < 2:
                    todo.append((k, job))
                elif tries[k] == 2:
                    alone.append((k, job))
                else:
                    yield job, status or -1, None
    finally:
        for r, (k, job, pid, buf, t0) in running.items():
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)


def _work(job):
    hi, prefix = job
    _quiet()
    h = _CTX["harnesses"][hi]
    st = explore(h, prefix, known=_CTX["known"], cut=_CTX.get("cut"))
    st["hi"] = hi
    st["sink"] = list(st["sink"])
    return st


def _reproduces(h, v, whole_task):
    """In a fresh process: does the recorded execution (or its subtree) fail again?"""
    def child(job):
        _quiet()
        if whole_task:
            st = explore(h, v["task"], known=_CTX.get("known", ()))
            got = st["viols"][0] if st["viols"] else None
        else:
            got = run_one(h, v["choices"])[1]
        return None if got is None else (got["message"], got["choices"])
    r = None
    for job, status, r in forked([0], child, 1, limit=LEAF_LIMIT_S * 1.5):
        pass
    return r is not None and r[1] == v["choices"]


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = {}
    if os.path.exists(path):
        with open(path) as fp:
            for line in fp:
                line = line.strip()
                if line:
                    e = json.loads(line)
                    if e.get("property") == prop and e.get("status") == "known":
                        out[e["key"]] = e["what"]
    return out


def import_target():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import allantools
    got = os.path.realpath(os.path.dirname(allantools.__file__))
    want = os.path.realpath(os.path.join(REPO, "allantools"))
    if got != want:
        raise RuntimeError("allantools imported from %s, not from %s" % (got, want))
    return allantools


def run_property(prop, spec, tier, seed):
    """Explore all harnesses of a property; write evidence; return exit code."""
    t0 = time.time()
    ncpu = int(os.environ.get("MC_JOBS", os.cpu_count() or 1))
    known = load_known(prop)
    harnesses = spec["harnesses"](tier)
    only = os.environ.get("MC_ONLY")
    if only:
        harnesses = [h for h in harnesses if only in h.name]
    _CTX["harnesses"], _CTX["known"] = harnesses, set(known)
    want = spec.get("split", max(40, 60 * ncpu // max(1, len(harnesses))))
    jobs, inner_nodes = [], 0
    old = sys.stdout
    for hi, h in enumerate(harnesses):
        _quiet()
        try:
            ps, inner = probe_prefixes(h, want)
        finally:
            sys.stdout = old
        if inner < 0:
            jobs = [(0, hi, ps[0])]
            break
        inner_nodes += inner
        jobs += [(k, hi, p) for k, p in enumerate(ps)]
    jobs = [j[-2:] for j in sorted(jobs, key=lambda j: j[:-1])]     # in turn from every harness
    if jobs:
        r = seed % len(jobs)
        jobs = jobs[r:] + jobs[:r]
    per = {h.name: dict(states=0, executions=0, calls=0, compared=0, max_depth=0,
                        subtrees=0, cpu_s=0.0, deviation_bound=h.bound, bounds=h.doc)
           for h in harnesses}
    sinks = {h.name: set() for h in harnesses}
    samples, viols, seen_known = {}, [], []
    complete = True
    quick = tier == "quick"
    _CTX["cut"] = SUBTREE_CUT_S if quick else None
    finished, cut = 0, []
    for job, status, st in forked(jobs, _work, ncpu, limit=JOB_LIMIT_S if quick else None, until=t0 + QUICK_BUDGET_S if quick else None):
        if st is None:      # the interpreter itself died, or a call that no signal interrupts
            viols.append({"harness": harnesses[job[0]].name, "choices": list(job[1]), "task": list(job[1]), "trace": [],
                          "message": "the process that ran the real code ended without a result (wait status %s)" % status, "info": {}})
            complete = False
            break
        h = harnesses[st["hi"]]
        p = per[h.name]
        p["states"] += st["states"]
        p["executions"] += st["leaves"]
        p["calls"] += st["calls"]
        p["compared"] += st["compared"]
        p["max_depth"] = max(p["max_depth"], st["maxdepth"])
        p["subtrees"] += 1
        p["cpu_s"] += st["t"]
        sinks[h.name].update(st["sink"])
        samples.setdefault(h.name, st["sample"])
        seen_known += st["known"]
        if st["viols"]:
            viols += st["viols"]
            complete = False
            break
        finished += 1
        if st["cut"]:
            cut.append(h.name)
    if not viols and (cut or finished < len(jobs)):
        complete = False
        print("%s: time budget used up: %d of %d subtrees explored, %d of them in part" % (prop, finished, len(jobs), len(cut)))
    for n, p in per.items():
        p["distinct_outcomes"] = len(sinks[n])
        p["cpu_s"] = round(p["cpu_s"], 2)
    tot = lambda k: sum(p[k] for p in per.values())
    code = 0
    for k in sorted(set(seen_known)):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    if viols:
        code = 1
        v = sorted(viols, key=lambda v: (len(v["choices"]), v["choices"]))[0]
        h = [h for h in harnesses if h.name == v["harness"]][0]
        if _reproduces(h, v, False):
            v["replay_mode"] = "execution"
        elif _reproduces(h, v, True):
            v["replay_mode"] = "subtree"       # depends on earlier calls: hidden state
        else:
            v["replay_mode"] = "not reproduced in a fresh process"
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.json" % prop)
        v["property"], v["tier"] = prop, tier
        with open(path, "w") as fp:
            json.dump(_jsonable(v), fp, indent=1)
        print("%s: %s" % (v["harness"], v["message"]))
        print("  decisions: %s" % json.dumps(v["trace"])[:1500])
        for kk, x in v["info"].items():
            print("  %s: %s" % (kk, str(x)[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "states": tot("states") + inner_nodes,
            "transitions": tot("calls"),
            "traces_validated_against_impl": tot("executions"),
            "evaluations": tot("executions"),
            "distinct_nontrivial": tot("distinct_outcomes"),
            "comparisons": tot("compared"),
            "rule": spec["rule"],
            "exhaustive": complete,
            "samples": [{"harness": n, "decisions": s} for n, s in sorted(samples.items())],
            "harnesses": per,
            "explanation": "states = distinct decision prefixes of the harnesses; transitions = calls "
                           "into the real code; traces_validated_against_impl = complete executions of "
                           "the real code compared with the reference model; distinct_nontrivial = "
                           "distinct observed results. Every execution within the stated bounds was "
                           "run when exhaustive is true.",
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + ".json"), "w") as fp:
        json.dump(_jsonable(ev), fp, indent=1)
    print("%s %s: %d states, %d executions, %d calls, %d comparisons, %d distinct outcomes, %.1f s -> %s" % (
        prop, tier, ev["coverage"]["states"], tot("executions"), tot("calls"), tot("compared"),
        tot("distinct_outcomes"), ev["wall_s"], "VIOLATED" if code else "holds"))
    return code


def replay(path):
    with open(path) as fp:
        v = json.load(fp)
    import importlib
    spec = importlib.import_module("mc.checks." + v["property"]).SPEC
    hs = [h for h in spec["harnesses"](v["tier"]) if h.name == v["harness"]]
    _CTX["known"] = ()
    if v.get("replay_mode") == "execution":
        got = run_one(hs[0], v["choices"])[1]
    else:
        st = explore(hs[0], v["task"])
        got = st["viols"][0] if st["viols"] else None
    if got is None:
        print("replay: no violation")
        return 0
    print("replay: %s" % got["message"])
    print(json.dumps(_jsonable(got), indent=1)[:6000])
    print("VIOLATION property=%s replay=%s" % (v["property"], path))
    return 1
