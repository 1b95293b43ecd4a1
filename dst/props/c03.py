"""Every candidate is evaluated exactly once, intact, and counted."""
import numpy as np

from .. import gen as G
from .. import oracles as O

ID = "C03"
RUNS = {"quick": 4800, "thorough": 150000}
RULE = ("one case = one random call under a random backend and schedule, with callbacks; every objective call is matched "
        "against the population of its iteration and the reported counts; non-trivial with at least two iterations")


def gen(r, i, tier):
    c = G.gen_call(r, methods=G.OPTIMIZERS * 2 + G.SAMPLERS, callback=r.random() < 0.8, args=0.6)
    mode, sim = "seq", {"rng": r.randrange(2**31)}
    if c["method"] in G.OPTIMIZERS:
        mode, sim = G.parallel_world(r, c)
    return G.case(r, [c], mode, sim)


def check(ctx, case):
    h = ctx.run(case)
    v = O.trouble(h)
    if v:
        return v
    call = case["calls"][0]
    m = call["method"]
    ev = O.merged(h.recs)
    for e in ev:
        if not e.shape_ok:
            return [("shape", "objective got something that is not a float vector of length %d" % len(call["bounds"]))]
        if not e.args_ok:
            return [("args", "objective got wrong extra arguments")]
        if e.changed:
            return [("changed", "the array given to the objective changed during the evaluation")]
    if any(r.obj.jac_args_bad for r in h.recs):
        return [("args", "jac got wrong extra arguments")]
    rec = h.rec
    res = rec.res
    mi = O.maxiter(call)
    if m in G.SAMPLERS:
        if m == "hmc" and "nfev" in res and res["nfev"] != len(ev):
            return [("nfev", "hmc reports nfev=%r after %d evaluations" % (res["nfev"], len(ev)))]
        if m == "hmc" and "nfev" not in res:
            return [("nfev", "hmc reports no nfev")]
        if m == "mcmc":
            if len(ev) > mi:
                return [("count", "%d evaluations for %d samples" % (len(ev), mi))]
            if rec.cbs:
                pn = 0
                for k, c in enumerate(rec.cbs):
                    if c["nev"] - pn > 1:
                        return [("count", "%d evaluations in step %d" % (c["nev"] - pn, k))]
                    pn = c["nev"]
        return []
    p = O.popsize(call)
    nit = res["nit"]
    if len(ev) != p * nit:
        return [("count", "%d evaluations in %d iterations of %d candidates" % (len(ev), nit, p))]
    for r in h.recs:
        if r.res["nfev"] != len(ev):
            return [("nfev", "nfev=%r after %d evaluations" % (r.res["nfev"], len(ev)))]
        for k, c in enumerate(r.cbs):
            if c["state"]["nfev"] != p * (k + 1):
                return [("nfev", "callback %d reports nfev=%r after %d evaluations" % (k + 1, c["state"]["nfev"], p * (k + 1)))]
    if rec.cbs and case["mode"] != "mpi":
        for k, c in enumerate(rec.cbs):
            if c["nev"] != p * (k + 1):
                return [("count", "%d evaluations when iteration %d was complete" % (c["nev"], k + 1))]
    if rec.cbs:
        gens = O.generations(call, ev)
        prev = None
        for k, c in enumerate(rec.cbs[:len(gens)]):
            X = c["X"]
            if X.shape != (p, len(call["bounds"])):
                return [("shape", "population shown to callback %d has shape %s" % (k + 1, X.shape))]
            if m != "de" or k == 0:
                msg = O.multiset_match(call, X, O.xs(gens[k]))
                if msg:
                    return [("once", "iteration %d: population and evaluated points differ: %s" % (k + 1, msg))]
            else:
                pool = np.vstack([prev, O.xs(gens[k])])
                for x in X:
                    if len(O.match(call, x, pool)) == 0:
                        return [("once", "iteration %d: member %s was never evaluated" % (k + 1, O.fmt(x)))]
            prev = X
    return []


def nontrivial(ctx, case):
    return O.maxiter(case["calls"][0]) > 1
