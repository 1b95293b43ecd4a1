"""Calls leave their inputs alone and do not depend on history."""
import copy

import numpy as np

from .. import gen as G
from .. import oracles as O
from .c01 import compare

ID = "C11"
RUNS = {"quick": 3900, "thorough": 120000}
RULE = ("one case = a sequence of calls (some failing) sharing one process, the last one compared with the same call alone in a "
        "fresh process state, or one call made with arrays and again with other array-likes of equal values; all inputs are "
        "compared before and after, results checked for memory shared with inputs; non-trivial when array inputs or a preceding call exist")


def gen(r, i, tier):
    if r.random() < 0.45:
        return likes(r)
    n = G.pick(r, (1, 2, 2, 3))
    calls = []
    for k in range(n):
        last = k == n - 1
        c = G.gen_call(r, seed="int" if last else "maybe", maxiter=G.pick(r, (1, 2, 3, 6)), x0=0.6, containers=0.4,
                       popsize=G.pick(r, (None, 4, 6)))
        if last and k and r.random() < 0.4:
            c = copy.deepcopy(calls[0])
            c.pop("faults", None)
            if r.random() < 0.6 or c["opts"].get("seed") is None:
                c["opts"]["seed"] = r.randrange(2**31)
        if r.random() < 0.12:
            default_maxiter(c)
            if c["method"] in G.OPTIMIZERS and r.random() < 0.4:
                c["opts"]["ftol"] = 1e300
        if c["method"] in G.OPTIMIZERS and r.random() < 0.12 and c["opts"].get("popsize", 10) < 10 and not c.get("x0"):
            c["opts"].pop("popsize")
        if not last and r.random() < 0.4:
            c["faults"] = [{"at": r.randrange(12), "do": G.pick(r, ("raise", "interrupt", "nan"))}]
        if c["method"] in G.OPTIMIZERS and r.random() < 0.3:
            _, _ = G.parallel_world(r, c, kinds=("threading", "loky"))
        calls.append(c)
    case = G.case(r, calls)
    case["what"] = "history"
    if n > 1 and r.random() < 0.3:
        case["sim"]["hop"] = True
    return case


def valid(case):
    last = case["calls"][-1]
    return case["what"] != "history" or last["opts"].get("seed") is not None and not last.get("faults")


def default_maxiter(c):
    c["opts"].pop("maxiter", None)
    if c["opts"].get("popsize", 0) > 13 and c.get("x0") is None:
        c["opts"]["popsize"] = 13


def likes(r):
    c = G.gen_call(r, x0=0.8, containers=0.0, maxiter=G.pick(r, (1, 2, 4, 8)))
    nd = len(c["bounds"])
    ints = r.random() < 0.5
    if ints:
        c["bounds"] = G.int_box(r, nd)
        if c.get("x0") is not None:
            pt = lambda: [float(r.randrange(int(lo), int(hi) + 1)) for lo, hi in c["bounds"]]
            c["x0"] = [pt() for _ in c["x0"]] if isinstance(c["x0"][0], list) else pt()
            if c["method"] == "na" and len({tuple(x) for x in c["x0"]}) < len(c["x0"]):
                c.pop("x0")
        if c["method"] in G.SAMPLERS and r.random() < 0.5:
            if r.random() < 0.5:
                c["opts"]["stepsize"] = 1
            else:
                c["opts"]["stepsize"] = [float(r.randrange(1, 3)) for _ in range(nd)]
    if r.random() < 0.1:
        default_maxiter(c)
    case = G.case(r, [c])
    case["what"] = "likes"
    kinds = ("list", "tuple", "fortran", "view", "readonly") + (("int", "intarray") * 2 if ints else ())
    case["other"] = {"bkind": G.pick(r, kinds), "x0kind": G.pick(r, kinds),
                     "stepkind": G.pick(r, kinds), "scalar": ints and r.random() < 0.5}
    st = c["opts"].get("stepsize")
    if isinstance(st, list) and any(v != int(v) for v in st):
        case["other"]["stepkind"] = G.pick(r, kinds[:5])
    return case


def check(ctx, case):
    h = ctx.run(case)
    v = basic(h)
    if v:
        return v
    for k, rec in enumerate(h.recs):
        bad = rec.inputs_changed()
        if bad:
            return [("input-changed", "call %d (%s) changed %s" % (k + 1, rec.call["method"], bad))]
        v = aliases(rec)
        if v:
            return v
    ctx.info["nt"] = True
    if case["what"] == "likes":
        c2 = copy.deepcopy(case)
        c = c2["calls"][0]
        o = case["other"]
        c["bkind"], c["x0kind"] = o["bkind"], o["x0kind"]
        if isinstance(c["opts"].get("stepsize"), list):
            c["stepkind"] = o["stepkind"]
        elif o.get("scalar") and c["opts"].get("stepsize") == 1:
            c["opts"]["stepsize"] = 1.0
        h2 = ctx.run(c2)
        v = basic(h2)
        if v:
            return v
        v = compare(h.rec, h2.rec, "arrays vs bounds as %s, x0 as %s" % (o["bkind"], o["x0kind"]))
        if v:
            return [("array-like", v[0][1])]
        bad = h2.rec.inputs_changed()
        if bad:
            return [("input-changed", "the call changed %s" % bad)]
        return aliases(h2.rec)
    if len(case["calls"]) > 1:
        c2 = copy.deepcopy(case)
        c2["calls"] = c2["calls"][-1:]
        c2["sim"]["rng"] = (case["sim"]["rng"] + 5) % 2**31
        h2 = ctx.run(c2)
        v = O.trouble(h2)
        if v:
            return v
        v = compare(h2.rec, h.recs[-1], "alone vs after %d other calls" % (len(h.recs) - 1))
        if v:
            return [("history", v[0][1])]
    # what was returned earlier must not change later
    for k, rec in enumerate(h.recs):
        if rec.res is not None:
            from ..scenario import same
            bad = [n for n in rec.res if not same(rec.res[n], rec.res_late[n])]
            if bad:
                return [("result-changed", "result %d: %s changed during later calls" % (k + 1, bad))]
    return []


def basic(h):
    if h.hang or h.deadlock:
        return O.trouble(h)
    for k, rec in enumerate(h.recs):
        o = rec.outcome()
        if o == "ok":
            continue
        if rec.obj.fired and o in ("exc:BoomError", "exc:KeyboardInterrupt"):
            continue
        return [("exception-" + type(rec.exc).__name__, "call %d (%s) ended with %s %s"
                 % (k + 1, rec.call["method"], o, O.describe_exc(rec.exc)))]
    return []


def aliases(rec):
    if rec.res_ref is None:
        return []
    ins = [("bounds", rec.inputs["bounds"]), ("x0", rec.inputs["x0"])]
    ins += [("option " + k, v) for k, v in rec.inputs["options"].items()]
    for n, a in ins:
        if isinstance(a, np.ndarray):
            for k, b in rec.res_ref.items():
                if isinstance(b, np.ndarray) and np.shares_memory(a, b):
                    return [("alias", "result field %s shares memory with %s" % (k, n))]
    return []


def nontrivial(ctx, case):
    return bool(ctx.info.get("nt"))
