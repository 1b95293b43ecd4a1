"""Invalid requests are rejected before anything happens, wherever in a history they come."""
import copy

import numpy as np

from .. import gen as G
from .. import oracles as O
from .c01 import compare

ID = "C23"
RUNS = {"quick": 4000, "thorough": 120000}
RULE = ("one case = a history of one to four calls made one after the other (by one or several threads, with worker pools), on "
        "every rank of an MPI job, at the same time in several threads, or by the objective of another call; one or two of "
        "them are spoilt in one argument; they must be rejected before anything is called or started, on all ranks, and the "
        "others are compared with the same calls made alone; non-trivial when a valid call was made beside a rejected one")
ASSUMPTIONS = ["numpy's global generator is kept per caller in concurrent histories (sharing it is a known finding of C12)"]
NAN = float("nan")
RATES = {
    "de": {"mutation": (-0.1, 2.1, 20, NAN), "recombination": (-0.1, 1.1, -1, NAN)},
    "pso": {"inertia": (-0.1, 1.1, NAN), "cognitivity": (-0.5, 4.5, NAN), "sociability": (-0.5, 4.5, NAN)},
    "na": {"nrperc": (0.0, -0.5, 1.5, 0, NAN)},
    "cmaes": {"sigma": (0.0, -0.1, -1), "muperc": (0.0, -0.5, 1.5, NAN, "few")},
    "mcmc": {"perc": (-0.1, 1.1, 2, NAN)},
    "hmc": {"nleap": (0, -1)},
}
RATES["cpso"] = dict(RATES["pso"], competitivity=(-0.5, 2.5, NAN))
RATES["vdcma"] = RATES["cmaes"]


def spoil(r, c):
    """Make one argument of a valid call invalid."""
    m, nd, o = c["method"], len(c["bounds"]), c["opts"]
    ways = ["fun", "callback", "bounds", "x0", "x0", "rate", "rate", "rate", "name"]
    if m in G.OPTIMIZERS:
        ways += ["popsize"]
    else:
        ways += ["stepsize"]
    if m in ("de", "pso", "cpso"):
        ways += ["updating"]
    if m == "hmc":
        ways += ["jac"]
    if m in G.OPTIMIZERS and not (m in ("de", "pso", "cpso") and o.get("updating") != "deferred") and o.get("backend") != "mpi":
        ways += ["backend"]
    w = G.pick(r, ways)
    bad = {"what": w}
    pt = lambda k: [0.5 * (lo + hi) for lo, hi in (list(c["bounds"]) * 2)[:k]]
    if w in ("fun", "callback", "jac"):
        bad["value"] = G.pick(r, (3, "f", [1.0], [] if w == "callback" else None if w == "fun" else 1))
    elif w == "bounds":
        bad["value"] = G.pick(r, ([0.0, 1.0], [[[0.0, 1.0]] * nd], 1.0))
    elif w == "x0":
        n = o.get("popsize", 10)
        if m in G.POP:
            bad["value"] = G.pick(r, (pt(nd), [pt(nd + 1)] * n, [pt(nd)] * (n - 1), [pt(nd)] * (n + 1), [[pt(nd)] * n]))
        elif m in G.OPTIMIZERS:
            bad["value"] = G.pick(r, (pt(nd + 1), pt(nd - 1), [pt(nd)], [pt(nd)] * nd))
        else:
            bad["value"] = G.pick(r, (pt(nd + 1), pt(nd - 1), [pt(nd)] * (nd + 1)))
    elif w == "rate":
        k = G.pick(r, sorted(RATES[m]))
        v = G.pick(r, RATES[m][k])
        bad["opt"], bad["value"] = k, 0.9 / o["popsize"] if v == "few" else v
    elif w == "name":
        bad["opt"], bad["value"] = G.pick(r, ("popsiz", "max_iter", "tol", "MAXITER")), 5
    elif w == "popsize":
        bad["opt"], bad["value"] = w, G.pick(r, (1, 1, 0, -1, -7))
    elif w == "stepsize":
        bad["opt"], bad["value"] = w, [0.1] * G.pick(r, (nd + 1, nd + 2, nd - 1))
    elif w == "updating":
        bad["opt"], bad["value"] = w, G.pick(r, ("both", "Immediate", "async", None, ""))
    elif w == "backend":
        o["workers"] = G.pick(r, (1, 2, -1))
        bad["opt"], bad["value"] = w, G.pick(r, ("threads", "processes", "MPI", "dask"))
    c["invalid"] = bad


def gen(r, i, tier):
    where = G.pick(r, ("seq", "seq", "pool", "pool", "mpi", "mpi", "conc", "nest"))
    n = 2 if where == "nest" else G.pick(r, (1, 2, 2, 3, 4))
    methods = G.OPTIMIZERS if where == "mpi" else G.ALL
    calls = []
    sim = None
    for k in range(n):
        if calls and r.random() < 0.4:
            c = copy.deepcopy(calls[0])
            c["opts"]["seed"] = r.randrange(2**31)
            c["callback"] = r.random() < 0.6
        else:
            c = G.gen_call(r, methods=methods, maxiter=G.pick(r, (1, 2, 3, 5)), x0=0.5,
                           sync=True if where == "mpi" else None, popsize=G.pick(r, (None, 4, 6)))
            if where == "pool" and c["method"] in G.OPTIMIZERS:
                G.parallel_world(r, c, kinds=("threading", "loky"))
            if where == "mpi":
                _, s = G.parallel_world(r, c, kinds=("mpi",), always=True)
                sim = sim or s
        calls.append(c)
    for k in r.sample(range(n), G.pick(r, (1, 1, 2)) if n > 2 else 1):
        if where != "nest":
            spoil(r, calls[k])
    if where == "nest":
        spoil(r, calls[1])
        calls[0]["opts"].pop("workers", None)
        sim = {"rng": r.randrange(2**30), "nest": {"in": "obj", "at": r.randrange(8)}}
    elif where == "conc":
        sim = {"rng": r.randrange(2**30), "preempt": G.pick(r, (2, 5, 20))}
    elif where != "mpi":
        sim = {"rng": r.randrange(2**31), "cpu": G.pick(r, (1, 2, 4, 8))}
        if r.random() < 0.3:
            sim["hop"] = True
    else:
        sim["ranks"] = min(sim["ranks"], 8)
    return G.case(r, calls, where if where in ("mpi", "conc", "nest") else "seq", sim)


def valid(case):
    for c in case["calls"]:
        if not c.get("invalid"):
            if case["mode"] == "seq" and c["opts"].get("seed") is None:
                return False
            continue
        b = c["invalid"]
        if b["what"] == "backend" and (c["method"] in ("de", "pso", "cpso") and c["opts"].get("updating") != "deferred"):
            return False
        if b["what"] in ("x0", "bounds", "stepsize") or b.get("opt") == "muperc":
            # shapes and sizes belong to the call as it was drawn
            n, nd = c["opts"].get("popsize", 10), len(c["bounds"])
            s = np.shape(b["value"])
            if b["what"] == "x0":
                good = (n, nd) if c["method"] in G.POP else (nd,)
                if s == good or c["method"] in G.SAMPLERS and s[:1] == (nd,):
                    return False
            elif b["what"] == "stepsize" and s == (nd,):
                return False
            elif b.get("opt") == "muperc" and 0.0 < b["value"] <= 1.0 and int(b["value"] * n) >= 1:
                return False
    if case["mode"] == "nest":
        return len(case["calls"]) == 2 and case["calls"][0]["opts"].get("workers") in (None, 1)
    return True


def check(ctx, case):
    h = ctx.run(case)
    if h.hang or h.deadlock:
        return O.trouble(h)
    n = len(case["calls"])
    seen = 0
    for k, rec in enumerate(h.recs):
        who = "call %d (%s)%s" % (k % n + 1, rec.call["method"], " on rank %d" % rec.rank if rec.rank is not None else "")
        bad = rec.call.get("invalid")
        if case["mode"] == "nest" and k == 1 and not rec.started:
            continue
        if not rec.ended:
            return [("unfinished", who)]
        if rec.inputs_changed():
            return [("input-changed", "%s: %s changed" % (who, rec.inputs_changed()))]
        if not bad:
            if rec.exc is not None:
                return [("exception-" + type(rec.exc).__name__, "%s ended with %r %s" % (who, rec.exc, O.describe_exc(rec.exc)))]
            continue
        seen += 1
        who += " with %s" % (bad,)
        if rec.exc is None:
            return [("accepted", who)]
        if not isinstance(rec.exc, (TypeError, ValueError)):
            return [("raised", "%s: %r" % (who, rec.exc))]
        if rec.obj.started or rec.obj.jacs or rec.cbs:
            return [("called", "%s: rejected after %d evaluations, %d gradients and %d callbacks"
                     % (who, rec.obj.started, rec.obj.jacs, len(rec.cbs)))]
        if rec.pools_used:
            return [("pool", "%s: workers were started" % who)]
        ctx.count("rejected")
        ctx.count("fault_invalid_" + (bad.get("opt") or bad["what"]))
    good = [k for k in range(n) if not case["calls"][k].get("invalid")]
    if case["mode"] == "seq":
        good = good[-1:]
    if not seen or not good:
        return []
    ctx.info["nt"] = True
    for k in good:
        s = copy.deepcopy(case)
        s["calls"] = [s["calls"][k]]
        s["sim"]["rng"] = case["sim"]["rng"] + (k if case["mode"] in ("conc", "nest") else 7)
        s["sim"].pop("nest", None)
        if case["mode"] in ("conc", "nest"):
            s["mode"] = "seq"
            s["sim"].pop("preempt", None)
        a = ctx.run(s)
        v = O.trouble(a)
        if v:
            return v
        for rec in h.recs[k::n]:
            v = compare(a.rec, rec, "call %d (%s) alone vs beside rejected calls" % (k + 1, rec.call["method"]))
            if v:
                return [("interferes", v[0][1])]
            if case["mode"] != "mpi" and len(rec.evals) != len(a.rec.evals):
                return [("interferes", "call %d made %d evaluations, alone %d" % (k + 1, len(rec.evals), len(a.rec.evals)))]
    return []


def nontrivial(ctx, case):
    return bool(ctx.info.get("nt"))
