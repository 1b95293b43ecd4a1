"""Concurrent calls in one process do not interfere."""
import copy

import numpy as np

from .. import gen as G
from .. import oracles as O
from ..scenario import same
from .c01 import compare

ID = "C12"
RUNS = {"quick": 6000, "thorough": 60000}
RULE = ("one case = two or three calls made at the same time in different threads of one process, preempted between random "
        "source lines of stochopy (and at evaluations and waits), or one call made by the objective or callback of another, with their own or shared bounds, x0, options and stepsize "
        "objects, some with worker pools, some struck by a failure; each is compared with the same call made alone; "
        "non-trivial when the callers really interleaved or nested")
ASSUMPTIONS = ["numpy's global generator is kept per caller (sharing it is a known finding, replayed separately)",
               "preemption happens at source lines, not inside them"]


def gen(r, i, tier):
    nest = r.random() < 0.2
    n = 2 if nest else G.pick(r, (2, 2, 2, 3))
    mi = (1, 2, 3, 4, 6, 8)
    first = G.gen_call(r, seed="maybe", maxiter=G.pick(r, mi), x0=0.5)
    how = G.pick(r, ("same", "same", "shape", "free", "shared", "shared")[:4 if nest else 6])
    calls = [first]
    nd = len(first["bounds"])
    for _ in range(n - 1):
        if how == "free":
            c = G.gen_call(r, seed="maybe", maxiter=G.pick(r, mi), x0=0.5)
        elif how == "shape":        # another call of the same method and sizes
            c = G.gen_call(r, methods=(first["method"],), seed="maybe", maxiter=G.pick(r, mi), x0=0.5, ndim=nd,
                           popsize=first["opts"].get("popsize"))
        else:
            c = copy.deepcopy(first)
            c["obj"] = G.gen_obj(r, nd)
            if c["opts"].get("use_jac") and c["obj"]["kind"] not in ("quad", "gauss", "linear", "rastrigin", "stybl"):
                c["obj"]["kind"] = "quad"
            c["callback"] = r.random() < 0.6
            if how == "same":
                if r.random() < 0.6:
                    c["opts"]["seed"] = r.randrange(2**31)
                c["opts"]["maxiter"] = G.pick(r, mi)
            if r.random() < 0.5:
                c["args"] = G.pick(r, ([2.5], [0.0, "tag"], [-1.0, 3], [1.5, 0.25]))
            elif how != "shared":
                c.pop("args", None)
        calls.append(c)
    par = r.random() < 0.3 and all(c["method"] in G.OPTIMIZERS for c in calls)
    if par:
        kinds = G.pick(r, (("threading",), ("threading",), ("loky",)))
        for k, c in enumerate(calls):
            if how == "shared" and k:
                for o in ("workers", "backend"):
                    if o in first["opts"]:
                        c["opts"][o] = first["opts"][o]
                c["durations"] = G.gen_durations(r)
            elif r.random() < 0.8:
                G.parallel_world(r, c, kinds=kinds)
    if how == "shared":
        for c in calls:
            c["opts"].pop("use_jac", None)
            c["opts"] = copy.deepcopy(calls[0]["opts"])
            c["x0"], c["x0kind"], c["bkind"] = calls[0].get("x0"), calls[0].get("x0kind", "array"), calls[0]["bkind"]
            c["stepkind"] = calls[0].get("stepkind")
            c["api"] = calls[0]["api"] if r.random() < 0.5 else c["api"]
    if r.random() < 0.15:
        c = calls[r.randrange(n)]
        c["faults"] = [{"at": r.randrange(12), "do": G.pick(r, ("raise", "interrupt", "nan"))}]
        if c["faults"][0]["do"] == "nan":       # a function of the point: schedules order evaluations differently
            c["faults"] = [{"where": 0.15, "salt": 3, "do": "nan"}]
    if nest:
        return nested(r, calls)
    sim = {"rng": r.randrange(2**30), "preempt": G.pick(r, (2, 5, 5, 20, 100)), "cpu": G.pick(r, (2, 4))}
    case = G.case(r, calls, "conc", sim)
    if how == "shared":
        case["shared"] = True
    return case


def nested(r, calls):
    """The second call is made by the objective or the callback of the first."""
    a, b = calls
    where = "cb" if r.random() < 0.25 else "obj"
    if where == "cb":
        a["callback"] = True
    if a["opts"].get("workers") not in (None, 1):
        if a["opts"].get("backend", "loky") != "threading":
            a["opts"].pop("workers")
        else:
            b["opts"].pop("workers", None)
    sim = {"rng": r.randrange(2**30), "cpu": G.pick(r, (2, 4)),
           "nest": {"in": where, "at": r.randrange(3) if where == "cb" else r.randrange(14)}}
    return G.case(r, calls, "nest", sim)


def valid(case):
    if case["mode"] != "nest":
        return True
    if len(case["calls"]) != 2:
        return False
    a, b = (c["opts"] for c in case["calls"])
    return a.get("workers") in (None, 1) or a.get("backend") == "threading" and b.get("workers") in (None, 1)


def alone(case, k):
    s = copy.deepcopy(case)
    s["mode"] = "seq"
    s.pop("shared", None)
    s["calls"] = [s["calls"][k]]
    s["sim"] = {"rng": case["sim"]["rng"] + k, "cpu": case["sim"]["cpu"]}
    return s


def canonical(case):
    """Calls sharing objects have the first call's ones (a shrunk case too)."""
    if not case.get("shared"):
        return case
    case = copy.deepcopy(case)
    first = case["calls"][0]
    for c in case["calls"][1:]:
        for n in ("method", "bounds", "x0", "x0kind", "bkind", "stepkind", "opts"):
            if n in first:
                c[n] = copy.deepcopy(first[n])
            else:
                c.pop(n, None)
    return case


def check(ctx, case):
    case = canonical(case)
    h = ctx.run(case)
    if h.hang or h.deadlock:
        return O.trouble(h)
    ctx.info["sw"] = h.sim.stats["switches"]
    for k, rec in enumerate(h.recs):
        if case["mode"] == "nest" and k == 1:
            if not rec.started:
                continue
            ctx.info["nested"] = True
            ctx.count("nested_calls")
        a = ctx.run(alone(case, k)).rec
        what = "call %d (%s) alone vs %s" % (k + 1, rec.call["method"], "nested" if case["mode"] == "nest" else "concurrently")
        if not rec.ended:
            return [("unfinished", what)]
        v = compare(a, rec, what)
        if v:
            return [("interferes", v[0][1])]
        v = evaluations(a, rec, what)
        if v:
            return v
        if any(not e.args_ok or not e.shape_ok for e in rec.evals):
            return [("args", "%s: foreign arguments reached the objective" % what)]
        bad = rec.inputs_changed()
        if bad:
            return [("input-changed", "%s: %s changed" % (what, bad))]
        if rec.pools_open:
            return [("pool", "%s: pool left open" % what)]
        if rec.res is not None:
            bad = [n for n in rec.res if not same(rec.res[n], rec.res_late[n])]
            if bad:
                return [("result-changed", "%s: %s of the result changed after the call" % (what, bad))]
            for q in h.recs[:k]:
                if q.res_ref is not None:
                    for n in rec.res_ref:
                        x = rec.res_ref[n]
                        if isinstance(x, np.ndarray) and any(isinstance(y, np.ndarray) and np.shares_memory(x, y)
                                                             for y in q.res_ref.values()):
                            return [("alias", "%s: %s shares memory with another call's result" % (what, n))]
    own = {id(p) for p in h.sim.pools}
    if len(own) != len(h.sim.pools):
        return [("pool", "a pool was used by two calls")]
    return []


def evaluations(a, b, what):
    if a.exc is not None:
        return []
    if len(a.evals) != len(b.evals):
        return [("count", "%s: %d / %d evaluations" % (what, len(a.evals), len(b.evals)))]
    if not O.is_parallel(a.call):
        x, y = O.xs(a.evals), O.xs(b.evals)
    else:
        x, y = (np.array(sorted(map(tuple, O.xs(r.evals)))) for r in (a, b))
    if not np.array_equal(x, y, equal_nan=True):
        return [("points", "%s: other points evaluated" % what)]
    return []


def nontrivial(ctx, case):
    return ctx.info.get("nested") if case["mode"] == "nest" else ctx.info.get("sw", 0) > 10
