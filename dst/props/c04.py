"""Parallel evaluation uses the requested workers and no more."""
import math
from collections import Counter

from .. import gen as G
from .. import oracles as O

ID = "C04"
KEEP = ("durations",)
RUNS = {"quick": 3600, "thorough": 100000}
RULE = ("one case = one random call on a simulated thread pool, process pool or MPI job; in-flight evaluations, "
        "simulated makespan of every generation and balance over ranks are measured; non-trivial when more than one worker or rank exists")


def gen(r, i, tier):
    c = G.gen_call(r, methods=G.OPTIMIZERS, maxiter=G.pick(r, (1, 2, 3, 5)), ftol=-1e300, rets=False, x0=0.1,
                   popsize=G.pick(r, (None, None, 6, 9, 16, 25)))
    mode, sim = G.parallel_world(r, c, always=True)
    if mode == "seq" and c["opts"].get("backend") != "loky" and r.random() < 0.75:
        c["durations"] = {"mode": "equal", "d": G.pick(r, (0.5, 1.0, 8.0))}
    sim["cpu"] = G.pick(r, (1, 2, 3, 4, 6, 8))
    return G.case(r, [c], mode, sim)


def wanted(call, cpu):
    w = call["opts"].get("workers", 1)
    return max(1, cpu + 1 + w) if w < 0 else w


def check(ctx, case):
    h = ctx.run(case)
    v = O.trouble(h)
    if v:
        return v
    call = case["calls"][0]
    p = O.popsize(call)
    if case["mode"] == "mpi":
        ev = O.merged(h.recs)
        n = case["sim"]["ranks"]
        for k, g in enumerate(O.generations(call, ev)):
            c = Counter(e.rank for e in g)
            cnt = [c.get(r, 0) for r in range(n)]
            if max(cnt) - min(cnt) > 1:
                return [("unbalanced", "iteration %d: evaluations per rank %s" % (k + 1, cnt))]
        return []
    w = wanted(call, case["sim"]["cpu"])
    o = h.rec.obj
    if o.max_inflight > w:
        return [("oversubscribed", "%d evaluations in progress at once with %d workers" % (o.max_inflight, w))]
    if call["opts"].get("backend") == "loky":
        return []
    d = call["durations"]
    if d["mode"] == "equal":
        for k, g in enumerate(O.generations(call, o.evals)):
            span = max(e.t1 for e in g) - min(e.t0 for e in g)
            want = math.ceil(p / w) * d["d"]
            if abs(span - want) > 1e-6 * want:
                return [("makespan", "iteration %d: %d evaluations of %gs on %d workers took %gs, expected %gs"
                         % (k + 1, p, d["d"], w, span, want))]
        ctx.count("makespans")
    return []


def nontrivial(ctx, case):
    return case["sim"].get("ranks", 0) > 1 or case["mode"] == "seq"
