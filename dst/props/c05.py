"""The returned solution is a real evaluation, and the best one."""
from .. import gen as G
from .. import oracles as O

ID = "C05"
RUNS = {"quick": 5400, "thorough": 200000}
RULE = ("one case = one random call (method, objective shape, scale, drift, backend, schedule); the returned pair is "
        "matched against all recorded evaluations; non-trivial when at least two distinct values were obtained")


def gen(r, i, tier):
    long = r.random() < 0.12
    meth = G.ALL
    if long:
        meth = ("cpso", "cpso", "cpso", "de", "pso", "na", "cmaes")
    c = G.gen_call(r, methods=meth, maxiter=G.pick(r, (60, 100, 150)) if long else None, seed="maybe")
    if r.random() < 0.15:
        c["obj"]["drift"] = G.pick(r, (1.0, -1.0, 1e-3)) * abs(c["obj"].get("a", 1.0))
    mode, sim = "seq", {"rng": r.randrange(2**31)}
    if c["method"] in G.OPTIMIZERS and not long and r.random() < 0.5:
        mode, sim = G.parallel_world(r, c)
        if mode == "mpi" and c["obj"].get("drift"):
            c["obj"].pop("drift")       # ranks count separately
    return G.case(r, [c], mode, sim)


def check(ctx, case):
    h = ctx.run(case)
    v = O.trouble(h)
    if v:
        return v
    call = case["calls"][0]
    ev = O.merged(h.recs)
    for rec in h.recs:
        v = O.best_result(call, rec.res, ev)
        if v:
            return v
    ctx.info["vals"] = len(set(e.val for e in ev))
    return []


def nontrivial(ctx, case):
    return ctx.info.get("vals", 0) > 1
