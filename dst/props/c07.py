"""Callbacks see every iteration once, in order, with truthful state."""
import copy

import numpy as np

from .. import gen as G
from .. import oracles as O
from ..scenario import num_same, same

ID = "C07"
RUNS = {"quick": 4500, "thorough": 150000}
RULE = ("one case = one random call with a callback under a random backend and schedule; every state is compared with the "
        "evaluations made so far, with itself after the run, with the result, and (except CPSO, whose schedule depends on "
        "maxiter) with the result of a second run whose maxiter is that iteration; non-trivial with at least two iterations")


def gen(r, i, tier):
    c = G.gen_call(r, methods=G.OPTIMIZERS * 2 + G.SAMPLERS * 2, callback=True)
    if c["opts"]["maxiter"] > 300:    # every state is copied and compared
        c["opts"]["maxiter"] = 300
    mode, sim = "seq", {"rng": r.randrange(2**31)}
    if c["method"] in G.OPTIMIZERS and r.random() < 0.45:
        mode, sim = G.parallel_world(r, c)
    case = G.case(r, [c], mode, sim)
    if c["method"] != "cpso" and r.random() < 0.5:
        case["stop_at"] = r.random()
    return case


def check(ctx, case):
    if not case["calls"][0].get("callback"):
        return []
    h = ctx.run(case)
    v = O.trouble(h)
    if v:
        return v
    call = case["calls"][0]
    ev = O.merged(h.recs)
    for rec in h.recs:
        v = states(call, rec, ev, case["mode"] == "mpi")
        if v:
            return v
    rec = h.rec
    if case.get("stop_at") is not None and len(rec.cbs) > 1:
        k = min(len(rec.cbs) - 1, int(case["stop_at"] * len(rec.cbs)))
        c2 = copy.deepcopy(case)
        c2["calls"][0]["opts"]["maxiter"] = k + 1
        h2 = ctx.run(c2)
        v = O.trouble(h2)
        if v:
            return v
        a, b = rec.cbs[k]["state"], h2.rec.res
        for f in a:
            if f in b and not num_same(a[f], b[f]):
                return [("stop", "%s reported to callback %d is %r, a run with maxiter=%d returns %r"
                         % (f, k + 1, a[f], k + 1, b[f]))]
        ctx.count("stopped_reruns")
    return []


def states(call, rec, ev, mpi):
    m, res, cbs = call["method"], rec.res, rec.cbs
    sampler = m in G.SAMPLERS
    n = O.maxiter(call) if sampler else int(res["nit"])
    if len(cbs) != n:
        return [("once", "%d callbacks in a run of %d iterations" % (len(cbs), n))]
    p = O.popsize(call)
    ra = call["opts"].get("return_all", True if sampler else False)
    V, E = O.vals(ev), O.xs(ev)
    best = None
    chain = []
    for k, c in enumerate(cbs):
        s = c["state"]
        where = "callback %d: " % (k + 1)
        if not num_same(s.get("nit"), k + 1):
            return [("nit", where + "nit is %r" % (s.get("nit"),))]
        if not sampler and not num_same(s.get("nfev"), p * (k + 1)):
            return [("nfev", where + "nfev is %r after %d evaluations" % (s.get("nfev"), p * (k + 1)))]
        if sampler and "nfev" in s and s["nfev"] != c["nev"]:
            return [("nfev", where + "nfev is %r after %d evaluations" % (s["nfev"], c["nev"]))]
        f = float(s["fun"])
        hi = c["nev"] if sampler else p * (k + 1)
        lo = p * k if m in G.EVO else 0
        msg = O.pair_ok(call, s["x"], f, E[lo:hi], V[lo:hi])
        if msg:
            return [("solution", where + msg)]
        if m in G.POP:
            if f != np.nanmin(V[:hi]):
                return [("solution", where + "fun is %r, smallest value so far %r" % (f, float(np.nanmin(V[:hi]))))]
        elif m in G.EVO:
            v = O.best_result(call, {"x": s["x"], "fun": f}, ev[:hi])
            if v:
                return [("solution", where + v[0][1])]
        else:
            idx = O.match(call, np.asarray(c["X"], float), E[:hi])
            if len(idx) == 0:
                return [("sample", where + "the sample %s was never evaluated" % O.fmt(c["X"]))]
            chain.append(float(np.min(V[idx])))
            if f != min(chain):
                return [("solution", where + "fun is %r, smallest value in the chain so far %r" % (f, min(chain)))]
        if not sampler:
            v = population(call, c, k, E[:hi], V[:hi], f)
            if v:
                return [("population", where + v)]
        if m not in G.EVO:
            if best is not None and f > best:
                return [("increases", where + "fun rose from %r to %r" % (best, f))]
            best = f
        for a in ("xall", "funall"):
            if ra and a not in s:
                return [("rows", where + "%s is missing" % a)]
            if not ra and a in s:
                return [("rows", where + "%s without return_all" % a)]
            if ra:
                if len(s[a]) != k + 1:
                    return [("rows", where + "%s has %d rows" % (a, len(s[a])))]
                if not np.array_equal(s[a], res[a][:k + 1], equal_nan=True):
                    return [("rows", where + "%s is not the first %d rows of the final one" % (a, k + 1))]
        if sampler and ra and not np.array_equal(np.asarray(c["X"], float), res["xall"][k], equal_nan=True):
            return [("sample", where + "sample differs from row %d of xall" % k)]
        late = {a: b for a, b in c["state_ref"].items()}
        if not same(late, s):
            bad = [a for a in set(late) | set(s) if a not in late or a not in s or not same(late[a], s[a])]
            return [("mutated", where + "%s of the state was changed afterwards" % bad)]
    last = cbs[-1]["state"]
    for a in last:
        if a not in res or not num_same(last[a], res[a]):
            return [("last", "%s is %r in the last callback and %r in the result" % (a, last[a], res.get(a)))]
    return []


def population(call, c, k, E, V, f):
    """The first argument is the current population."""
    m, p = call["method"], O.popsize(call)
    X = c["X"]
    if np.shape(X) != (p, len(call["bounds"])):
        return "the population has shape %s" % (np.shape(X),)
    if m != "de":
        if O.is_parallel(call):
            msg = O.multiset_match(call, X, E[p * k:])
            return msg and "the population is not the one evaluated: " + msg
        for i in range(p):
            if not len(O.match(call, X[i], E[p * k + i:p * k + i + 1])):
                return "member %d of the population is %s, candidate evaluated %s" % (i, O.fmt(X[i]), O.fmt(E[p * k + i]))
        return None
    for i in range(p):
        if O.is_parallel(call):
            own = O.match(call, X[i], E)
        else:       # a member is one of the trials made for it
            own = [q for q in range(i, len(E), p) if len(O.match(call, X[i], E[q:q + 1]))]
        if not len(own):
            return "member %d of the population, %s, was not evaluated for it" % (i, O.fmt(X[i]))
    if not O.is_parallel(call):
        with np.errstate(all="ignore"):
            best = [np.nanmin(V[i::p]) if not np.isnan(V[i::p]).all() else np.nan for i in range(p)]
        for i in range(p):
            if not any(O.eqf(V[q], best[i]) for q in range(i, len(E), p) if len(O.match(call, X[i], E[q:q + 1]))):
                return "member %d of the population is %s, which is not the best trial made for it" % (i, O.fmt(X[i]))
    return None


def nontrivial(ctx, case):
    return O.maxiter(case["calls"][0]) > 1
