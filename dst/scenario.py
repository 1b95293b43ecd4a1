"""Runs scenarios in the simulator and records their histories."""
import copy
import gc
import os
import random
import signal
import socket
import sys
import warnings

import numpy as np

from . import core, loader, simjoblib, simmpi
from .core import Decider, Sim, SimAbort, SimLimit, current
from .objectives import BoomBase, BoomError, CallbackRec, Objective

np.seterr(all="ignore")
warnings.filterwarnings("ignore")

SAMPLERS = ("mcmc", "hmc")


def as_kind(v, kind):
    """The same numbers in the container the scenario asks for."""
    if v is None:
        return None
    if kind == "array":
        return np.array(v, dtype=float)
    if kind == "list":
        return [list(map(float, r)) if isinstance(r, (list, tuple)) else float(r) for r in v]
    if kind == "tuple":
        return tuple(tuple(map(float, r)) if isinstance(r, (list, tuple)) else float(r) for r in v)
    if kind == "int":
        return [[int(e) for e in r] if isinstance(r, (list, tuple)) else int(r) for r in v]
    if kind == "intarray":
        return np.array(v).astype(int)
    if kind == "fortran":
        return np.asfortranarray(np.array(v, dtype=float))
    if kind == "view":
        a = np.array(v, dtype=float)
        big = np.zeros(tuple(2 * n for n in a.shape))
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        big[sl] = a
        return big[sl]
    if kind == "float32":
        return np.array(v, dtype=np.float32)
    if kind == "readonly":
        a = np.array(v, dtype=float)
        a.flags.writeable = False
        return a
    raise ValueError(kind)


def snap(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if type(v) is dict:
        return {k: snap(e) for k, e in v.items()}
    if callable(v):
        return v
    return copy.deepcopy(v)


def same(a, b):
    """Bitwise equality of nested values (NaN equals NaN), types of arrays included."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        return a.shape == b.shape and a.dtype == b.dtype and (
            a.tobytes() == b.tobytes() or np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"))
    if isinstance(a, dict) or isinstance(b, dict):
        return (isinstance(a, dict) and isinstance(b, dict) and sorted(a) == sorted(b)
                and all(same(a[k], b[k]) for k in a))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return a == b or (a != a and b != b)
    return a == b


def num_same(a, b):
    """As same(), but numbers and arrays compare by value only (not dtype)."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and np.array_equal(a.astype(float), b.astype(float), equal_nan=True)
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and all(num_same(a[k], b[k]) for k in a)
    if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
        return a == b or (a != a and b != b)
    return a == b


class CallRecord:
    """What one call did."""

    def __init__(self, call):
        self.call = call
        self.res = self.res_ref = self.exc = None
        self.obj = self.cb = None
        self.inputs = {}
        self.before = {}
        self.rank = None
        self.started = False
        self.ended = False
        self.seq1 = None
        self.settings_changed = []

    @property
    def evals(self):
        return self.obj.evals

    @property
    def cbs(self):
        return self.cb.calls if self.cb is not None else []

    def outcome(self):
        if not self.ended:
            return "unfinished"
        if self.exc is not None:
            return "exc:" + type(self.exc).__name__
        return "ok"

    def inputs_changed(self):
        return [k for k, v in self.inputs.items() if not same(snap(v), self.before[k])
                or (isinstance(v, np.ndarray) and v.dtype != self.before[k].dtype)]


class History:
    def __init__(self, sim):
        self.sim = sim
        self.recs = []          # in order of the case's calls (mpi: rank-major)
        self.deadlock = None
        self.hang = False
        self.world = None

    @property
    def rec(self):
        return self.recs[0]


def settings():
    """Process-wide settings a call has no business changing."""
    return {
        "numpy error handling": np.geterr(), "numpy print options": repr(np.get_printoptions()),
        "python's random generator": random.getstate(), "environment": dict(os.environ), "working directory": os.getcwd(),
        "recursion limit": sys.getrecursionlimit(), "warning filters": list(warnings.filters),
        "interrupt handler": signal.getsignal(signal.SIGINT), "default socket timeout": socket.getdefaulttimeout(),
        "garbage collector": gc.isenabled(), "trace of exceptions": sys.excepthook,
    }


def default_cap(call):
    o = call["opts"]
    mi = o.get("maxiter", 100)
    if call["method"] == "mcmc":
        return 2 * mi + 50
    if call["method"] == "hmc":
        return (2 * len(call["bounds"]) * (o.get("nleap", 10) + 3) + 4) * mi + 50
    return 2 * o.get("popsize", 10) * (mi + 2) + 50


def prepare(call, i, rank=None, shared=None):
    """Build the python objects of a call."""
    rec = CallRecord(call)
    rec.rank = rank
    obj = Objective(call["obj"], call["bounds"], args=call.get("args", ()), faults=call.get("faults", ()),
                    durations=call.get("durations"), cap=call.get("cap") or default_cap(call),
                    name="f%d" % i if rank is None else "f%d.%d" % (i, rank))
    rec.obj = obj
    shared = shared or {}
    inp = rec.inputs
    inp["bounds"] = shared.get("bounds") if "bounds" in shared else as_kind(call["bounds"], call.get("bkind", "array"))
    inp["x0"] = shared.get("x0") if "x0" in shared else as_kind(call.get("x0"), call.get("x0kind", "array"))
    inp["args"] = tuple(np.array(a, dtype=float) if isinstance(a, list) else a for a in call.get("args", ()))
    obj.args = inp["args"]
    opts = dict(call["opts"])
    if call.get("stepkind") and np.ndim(opts.get("stepsize", 0.0)):
        opts["stepsize"] = as_kind(opts["stepsize"], call["stepkind"])
    if call.get("numpy_opts"):
        opts = {k: np.int64(v) if type(v) is int and k != "workers" else np.float64(v) if type(v) is float else v
                for k, v in opts.items()}
    if opts.pop("use_jac", False):
        opts["jac"] = obj.jac
    if "options" in shared:
        opts = shared["options"]
    inp["options"] = opts
    if call.get("callback"):
        rec.cb = CallbackRec(faults=call.get("cbfaults", ()), objective=obj, lite=call.get("cblite", False), name="cb%d" % i,
                             ret=call.get("cbret"))
    rec.fun = obj
    rec.callback = rec.cb
    bad = call.get("invalid")
    if bad:                         # one argument is not what it has to be
        if bad["what"] == "fun":
            rec.fun = bad["value"]
        elif bad["what"] == "callback":
            rec.callback = bad["value"]
        elif bad["what"] in ("bounds", "x0"):
            inp[bad["what"]] = bad["value"]
        else:
            inp["options"] = opts = dict(inp["options"])
            opts[bad.get("opt") or bad["what"]] = bad["value"]
    rec.before = {k: snap(v) for k, v in inp.items()}
    return rec


def execute(rec, mod):
    """Make the call (inside a simulated thread)."""
    t = current()
    sim = t.sim
    call = rec.call
    m = call["method"]
    gen, direct = loader.functions(mod, m)
    kw = {}
    if rec.callback is not None:
        kw["callback"] = rec.callback
    if rec.inputs["x0"] is not None:
        kw["x0"] = rec.inputs["x0"]
    if call.get("args") is not None:
        kw["args"] = rec.inputs["args"]
    lf, bf = call.get("line_fault"), call.get("block_fault")
    fx = {"interrupt": KeyboardInterrupt, "memory": MemoryError, "boom": BoomBase}
    if lf:
        rec.injected = fx[lf["do"]]("line") if lf["do"] != "boom" else BoomBase("line")
        t.fault_armed = [lf["at"], rec.injected, lf["do"]]
    if bf:
        rec.injected = fx[bf["do"]]("block") if bf["do"] != "boom" else BoomBase("block")
        t.block_fault = [bf["at"], rec.injected, bf["do"]]
    rec.started = True
    npools = len(sim.pools)
    before = settings() if not sim.share_settings else None
    rec.seq0, rec.t0 = sim.tick(), sim.now
    try:
        api = call.get("api", "generic")
        inp = rec.inputs
        if api == "generic":
            rec.res_ref = gen(rec.fun, inp["bounds"], method=m, options=None if call.get("null") and not inp["options"] else inp["options"], **kw)
        elif api == "short":                # default method, no empty options
            if inp["options"]:
                kw["options"] = inp["options"]
            rec.res_ref = gen(rec.fun, inp["bounds"], **kw)
        elif api == "positional":
            rec.res_ref = gen(rec.fun, inp["bounds"], inp["x0"], inp["args"], m, inp["options"] or None, rec.callback)
        elif api == "positional-direct":
            kw.pop("x0", None)
            kw.pop("args", None)
            rec.res_ref = direct(rec.fun, inp["bounds"], inp["x0"], inp["args"], **kw, **inp["options"])
        else:
            rec.res_ref = direct(rec.fun, rec.inputs["bounds"], **kw, **rec.inputs["options"])
    except SimAbort:
        raise
    except BaseException as e:
        rec.exc = e
        e.__traceback__ = None if not isinstance(e, (TypeError, ValueError, IndexError, RecursionError)) \
            else e.__traceback__
    finally:
        rec.fault_left = (t.fault_armed is not None) or (t.block_fault is not None)
        t.fault_armed = None
        t.block_fault = None
    rec.seq1, rec.t1 = sim.tick(), sim.now
    rec.ended = True
    if before is not None:
        after = settings()
        rec.settings_changed = [k for k in before if before[k] != after[k]]
    rec.pools_used = [p.id for p in sim.pools[npools:] if p.owner is t]
    rec.pools_open = [p.id for p in sim.pools[npools:] if p.owner is t and not (p.closed and p.terminated)]
    if rec.res_ref is not None:
        rec.res = {k: snap(v) for k, v in rec.res_ref.items()}


def run(case, decider=None, timeout=150.0, nth=0):
    """Execute a case; everything is a function of the case and the decider."""
    if decider is None:
        decider = Decider(case["seed"])
    w = case.get("sim", {})
    mode = case.get("mode", "seq")
    calls = case["calls"]
    trace = bool(w.get("preempt")) or any(c.get("line_fault") for c in calls)
    sim = Sim(decider, trace=trace, preempt=w.get("preempt", 0), share_rng=w.get("share_rng", False),
              max_steps=w.get("max_steps", 400000))
    sim.cpu_count = w.get("cpu", 4)
    random.seed(case["seed"] * 37 + nth)    # python's own generator is part of the environment as well
    sim.share_settings = mode != "seq"      # other threads of the process may change them meanwhile
    sim.mem = random.Random(case["seed"] * 31 + nth)
    sim.epoch = 1.7e9 + (case["seed"] * 41 + nth * 1237) % 10**8 + 0.25 * nth
    h = History(sim)
    main_mod = loader.fresh(0)
    if mode == "seq":
        h.recs = [prepare(c, i) for i, c in enumerate(calls)]
        sim.set_proc_rng("main", w.get("rng", 12345))

        def series(recs):
            def body():
                np.seterr(all="ignore")
                for r in recs:
                    execute(r, main_mod)
                    sim.point("between-calls")
                    if w.get("hop") and r is not h.recs[-1]:    # the next call is made by another thread
                        t = sim.spawn(series(h.recs[h.recs.index(r) + 1:]), "main%d" % h.recs.index(r), "main", traced=True)
                        t.user = 0
                        return
            return body
        t = sim.spawn(series(h.recs), "main", "main", traced=True)
        t.user = 0
    elif mode == "conc":
        shared = {}
        if case.get("shared"):
            c0 = calls[0]
            shared = {"bounds": as_kind(c0["bounds"], c0.get("bkind", "array")),
                      "x0": as_kind(c0.get("x0"), c0.get("x0kind", "array"))}
            opts = dict(c0["opts"])
            if c0.get("stepkind") and np.ndim(opts.get("stepsize", 0.0)):
                opts["stepsize"] = as_kind(opts["stepsize"], c0["stepkind"])
            shared["options"] = opts
        h.recs = [prepare(c, i, shared=shared) for i, c in enumerate(calls)]

        def mk(r):
            def body():
                np.seterr(all="ignore")
                execute(r, main_mod)
            return body
        for i, r in enumerate(h.recs):
            p = "main" if w.get("share_rng") else "user%d" % i
            sim.set_proc_rng(p, w.get("rng", 12345) + i)
            t = sim.spawn(mk(r), "user%d" % i, p, traced=True)
            t.user = i
    elif mode == "nest":                    # the second call is made by the objective or callback of the first
        h.recs = [prepare(c, i) for i, c in enumerate(calls)]
        outer, inner = h.recs
        for i in range(2):
            sim.set_proc_rng("user%d" % i, w.get("rng", 12345) + i)

        def hook(n):
            if n == w["nest"]["at"] and not inner.started:
                t = current()
                was = t.proc
                sim._swap_rng(was, "user1")
                t.proc = "user1"
                try:
                    execute(inner, main_mod)
                finally:
                    sim._swap_rng(t.proc, was)
                    t.proc = was
        if w["nest"]["in"] == "obj":
            outer.obj.hook = hook
        elif outer.cb is not None:
            outer.cb.hook = hook

        def body():
            np.seterr(all="ignore")
            execute(outer, main_mod)
        t = sim.spawn(body, "main", "user0", traced=True)
        t.user = 0
    elif mode == "mpi":
        n = w["ranks"]
        world = sim.mpi = h.world = simmpi.World(sim, n, w.get("latency", ()))
        h.recs = [prepare(c, i, rank=r) for r in range(n) for i, c in enumerate(calls)]

        def mkr(r):
            mod = main_mod if r == 0 else loader.fresh(r)

            def body():
                np.seterr(all="ignore")
                try:
                    for rec in h.recs[r * len(calls):(r + 1) * len(calls)]:
                        stall = w.get("stall", {}).get(str(r))
                        if stall:
                            sim.sleep(stall, "stall")
                        execute(rec, mod)
                        if rec.exc is not None and not rec.call.get("invalid"):
                            world.abort(("rank-exception", "rank %d: %r" % (r, rec.exc)))
                            return
                finally:
                    world.finished.add(r)
            return body
        for r in range(n):
            sim.set_proc_rng(("rank", r), w.get("rng", 12345) + (r if not w.get("same_rng") else 0))
            t = sim.spawn(mkr(r), "rank%d" % r, ("rank", r), traced=True)
            t.rank = r
            t.user = r
    else:
        raise ValueError(mode)

    was = gc.isenabled()
    gc.disable()
    try:
        ok = sim.run(timeout)
    finally:
        if was:
            gc.enable()
    h.hang = not ok
    h.deadlock = sim.deadlock
    for r in h.recs:
        r.obj.drop()
        if r.res_ref is not None:
            # detect results that kept changing after the call returned
            r.res_late = {k: snap(v) for k, v in r.res_ref.items()}
    for t in sim.threads:
        if t.exc is not None:
            h.sim.stats["thread_exc"] += 1
            h.thread_exc = (t.name, repr(t.exc))
    return h


def setup():
    simjoblib.install()
    simmpi.install()
    return loader.load_main()
