"""Failures surface unchanged and leave nothing behind."""
import copy

from .. import gen as G
from .. import oracles as O
from ..objectives import COMMON
from ..objectives import EXCS as TYPES
from .c01 import compare
from .c04 import wanted

ID = "C10"
KEEP = ("backend", "workers", "callback")
RUNS = {"quick": 10000, "thorough": 200000}
RULE = ("one case = a call struck by one injected fault (exception of the objective or callback, interrupt or allocation failure "
        "at an arbitrary library line or blocking point, death of a worker process), under a random backend and schedule, "
        "followed by an unharmed call that is compared with the same call alone; non-trivial when the fault struck")
ASSUMPTIONS = ["tasks a joblib worker had already picked up when the failure reached the caller may still run",
               "interrupts do not strike inside joblib.Parallel.__enter__/__exit__ themselves"]


def gen(r, i, tier):
    c = G.gen_call(r, methods=G.OPTIMIZERS * 2 + G.SAMPLERS, seed="maybe", maxiter=G.pick(r, (2, 3, 5, 8, 12)),
                   ftol=-1e300, callback=r.random() < 0.7, values=False)
    mode, sim = "seq", {"rng": r.randrange(2**31)}
    par = "serial"
    if c["method"] in G.OPTIMIZERS and r.random() < 0.7:
        mode, sim = G.parallel_world(r, c, kinds=("threading", "threading", "loky", "loky", "mpi"))
        par = "mpi" if mode == "mpi" else c["opts"].get("backend") or "threading"
        if not O.is_parallel(c):
            par = "serial"
    o = c["opts"]
    n = O.popsize(c) * O.maxiter(c) if c["method"] in G.OPTIMIZERS else O.maxiter(c)
    kinds = ["objective", "objective", "line", "line"]
    if c.get("callback"):
        kinds += ["callback"]
    if par in ("threading", "loky"):
        kinds += ["block", "block"]
    if par == "loky" and wanted(c, sim["cpu"]) > 1:     # else evaluated in the caller's process
        kinds += ["crash", "crash"]
    k = G.pick(r, kinds)
    if k == "objective":
        do = G.pick(r, ("raise", "raisebase", "interrupt", "memory") + (("stopiter",) if par == "serial" else ()) + (G.pick(r, COMMON),) * 4)
        f = {"do": do}
        u = r.random()
        if u < 0.5:
            f["at"] = r.randrange(n)
        elif u < 0.65:
            f["at"] = 0
        elif u < 0.8:
            f["from"] = r.randrange(n)
        else:
            f["where"], f["salt"] = G.pick(r, (0.02, 0.1, 0.5)), r.randrange(100)
        c["faults"] = [f]
    elif k == "crash":
        c["faults"] = [{"do": "crash", "at": r.randrange(n)}]
    elif k == "callback":
        c["cbfaults"] = [{"at": r.randrange(O.maxiter(c)), "do": G.pick(r, ("raise", "raisebase", "interrupt", "memory", "stopiter") + (G.pick(r, COMMON),) * 3)}]
    elif k == "line":
        c["line_fault"] = {"at": 1 + int(10 ** r.uniform(0, 3.5)), "do": G.pick(r, ("interrupt", "memory", "boom"))}
    else:
        c["block_fault"] = {"at": 1 + int(10 ** r.uniform(0, 1.7)), "do": G.pick(r, ("interrupt", "interrupt", "boom"))}
    calls = [c]
    if mode == "seq":
        d = G.gen_call(r, maxiter=G.pick(r, (1, 2, 4)), seed="int", values=False)
        if r.random() < 0.5:
            d = copy.deepcopy(c)
            for x in ("faults", "cbfaults", "line_fault", "block_fault"):
                d.pop(x, None)
            d["opts"]["seed"] = r.randrange(2**31)
        elif d["method"] in G.OPTIMIZERS and r.random() < 0.5 and par != "serial":
            G.parallel_world(r, d, kinds=(par,) if par != "mpi" else ("threading",))
        calls.append(d)
        if r.random() < 0.3:
            sim["hop"] = True
    case = G.case(r, calls, mode, sim)
    case["fault"] = k
    case["par"] = par
    return case


def valid(case):
    return case["fault"] != "crash" or wanted(case["calls"][0], case["sim"].get("cpu", 4)) > 1


def fired(rec):
    """The exceptions that were injected during this call."""
    out = []
    for n, do in rec.obj.fired:
        out.append((do, "%s#%d" % (rec.obj.name, n)))
    if rec.cb is not None:
        for n, do in rec.cb.fired:
            out.append((do, "%s#%d" % (rec.cb.name, n)))
    return out



def surfaced(rec, case):
    call = rec.call
    inj = getattr(rec, "injected", None)
    if inj is not None and not rec.fault_left:
        if rec.exc is not inj:
            return "an injected %r at a %s of the call ended in %s" % (inj, case["fault"], said(rec))
        return None
    f = fired(rec)
    if not f:
        return None
    if rec.exc is None:
        return "the failure %s ended in %s" % (f[0], said(rec))
    if any(do == "crash" for do, _ in f):
        # a dead worker process; another failure of the same instant may win
        if type(rec.exc).__name__ == "TerminatedWorkerError":
            return None
    for do, tag in f:
        if do == "crash":
            continue
        if type(rec.exc) is TYPES[do] and (rec.exc.args == (tag,)):
            return None
    return "the failure %s ended in %s" % (f[0], said(rec))


def said(rec):
    return "a result" if rec.exc is None and rec.ended else "%s %r %s" % (rec.outcome(), rec.exc, O.describe_exc(rec.exc))


def check(ctx, case):
    h = ctx.run(case)
    if h.hang:
        return [("hang", "the run does not come to an end")]
    if case["mode"] == "mpi":
        return check_mpi(ctx, h, case)
    if h.deadlock:
        return [(h.deadlock[0], "%s: %s" % h.deadlock)]
    rec = h.recs[0]
    if not rec.ended:
        return [("unfinished", "the call never ended")]
    msg = surfaced(rec, case)
    if msg:
        return [("surface", msg)]
    struck = bool(fired(rec)) or (getattr(rec, "injected", None) is not None and not rec.fault_left)
    if not struck and rec.exc is not None:
        return [("exception-" + type(rec.exc).__name__, "no fault struck, but the call ended with %s" % said(rec))]
    for r in h.recs:
        if r.ended and r.pools_open:
            return [("pool", "%s call left a worker pool behind" % ("failed" if r.exc is not None else "completed"))]
        if r.ended and r.settings_changed:
            return [("settings", "%s call left changed: %s" % ("failed" if r.exc is not None else "completed", ", ".join(r.settings_changed)))]
    left = [x for x in h.sim.leaked if x[0][0] in "wh"]     # idle worker processes are joblib's to keep
    if left:
        return [("pool", "worker threads left behind: %s" % (left[:3],))]
    v = later_starts(rec)
    if v:
        return v
    if struck and case["par"] == "serial" and case["fault"] == "objective":
        # no retry, nothing evaluated after the failing evaluation
        n0 = rec.obj.fired[0][0]
        if rec.obj.started > n0 + 1:
            return [("retry", "%d evaluations after the failed one" % (rec.obj.started - n0 - 1))]
    if struck and case["par"] != "serial" and case["fault"] == "objective":
        # no candidate of the failing iteration is evaluated twice
        p = O.popsize(rec.call)
        n0 = rec.obj.fired[0][0]
        if rec.obj.started > (n0 // p + 1) * p:
            return [("retry", "evaluations %d to %d came after the failed iteration" % ((n0 // p + 1) * p, rec.obj.started - 1))]
    ctx.info["struck"] = struck
    if struck:
        ctx.count("struck_" + case["fault"] + "_" + case["par"])
    if len(h.recs) > 1:
        alone = copy.deepcopy(case)
        alone["calls"] = [alone["calls"][1]]
        alone["sim"]["rng"] = (case["sim"].get("rng", 1) + 17) % 2**31
        ha = ctx.run(alone)
        v = O.trouble(ha)
        if v:
            return v
        r = h.recs[1]
        if not r.ended or r.exc is not None:
            return [("next", "the call after the failed one ended with %s" % said(r))]
        v = compare(ha.recs[0], r, "next call alone vs after the failure")
        if v:
            return [("next", v[0][1])]
        if len(r.evals) != len(ha.recs[0].evals):
            return [("next", "the next call made %d evaluations, alone %d" % (len(r.evals), len(ha.recs[0].evals)))]
    return []


def later_starts(rec):
    if rec.exc is None or rec.seq1 is None:
        return []
    late = [e for e in rec.evals if e.start > rec.seq1 and (not e.task_seq or e.task_seq > rec.seq1)]
    if late:
        return [("late-start", "%d evaluations were started after the failure had reached the caller" % len(late))]
    return []


def check_mpi(ctx, h, case):
    """The failing rank raises; the job is then aborted, as mpiexec does."""
    for rec in h.recs:
        f = fired(rec)
        inj = getattr(rec, "injected", None)
        if f or (inj is not None and not rec.fault_left):
            if type(rec.exc).__name__ == "JobAborted" and rec is not first_failed(h):
                continue
            if not rec.ended and h.world.error is not None:
                continue
            msg = surfaced(rec, case)
            if msg:
                return [("surface", "rank %d: %s" % (rec.rank, msg))]
            ctx.info["struck"] = True
            ctx.count("struck_" + case["fault"] + "_mpi")
        elif rec.exc is not None and type(rec.exc).__name__ != "JobAborted":
            return [("exception-" + type(rec.exc).__name__, "rank %d without a fault ended with %s" % (rec.rank, said(rec)))]
    if not ctx.info.get("struck"):
        if h.deadlock:
            return [(h.deadlock[0], "%s: %s" % h.deadlock)]
    return []


def first_failed(h):
    c = [r for r in h.recs if r.ended and r.exc is not None and type(r.exc).__name__ != "JobAborted"]
    return min(c, key=lambda r: r.seq1) if c else None


def nontrivial(ctx, case):
    return bool(ctx.info.get("struck"))
