"""xall and funall are a faithful record of the run."""
import numpy as np

from .. import gen as G
from .. import oracles as O

ID = "C06"
RUNS = {"quick": 4800, "thorough": 150000}
RULE = ("one case = one random call with return_all and random verbosity; every recorded row is matched against the "
        "evaluations and the populations shown to callbacks; non-trivial with at least two recorded iterations")


def gen(r, i, tier):
    c = G.gen_call(r, methods=G.OPTIMIZERS * 2 + G.SAMPLERS, return_all=r.random() < 0.95, callback=r.random() < 0.6)
    mode, sim = "seq", {"rng": r.randrange(2**31)}
    if c["method"] in G.OPTIMIZERS and r.random() < 0.45:
        mode, sim = G.parallel_world(r, c)
    return G.case(r, [c], mode, sim)


def check(ctx, case):
    h = ctx.run(case)
    v = O.trouble(h)
    if v:
        return v
    call = case["calls"][0]
    ev = O.merged(h.recs)
    for rec in h.recs:
        if call["method"] in G.SAMPLERS:
            v = sampler_rows(call, rec)
        else:
            v = O.record_rows(call, rec.res, ev, rec.cbs)
            if not v and rec.cbs and call["opts"].get("return_all"):
                for k, c in enumerate(rec.cbs):
                    s = c["state"]
                    for n in ("xall", "funall"):
                        if n not in s or not np.array_equal(s[n], rec.res[n][:k + 1], equal_nan=True):
                            return [("partial", "%s in callback %d is not the first %d rows of the final record" % (n, k + 1, k + 1))]
        if v:
            return v
    return []


def sampler_rows(call, rec):
    res = rec.res
    mi, nd = O.maxiter(call), len(call["bounds"])
    if not call["opts"].get("return_all", True):
        return [("unexpected-xall", "xall returned without return_all")] if "xall" in res else []
    xa, fa = np.asarray(res["xall"]), np.asarray(res["funall"])
    if xa.shape != (mi, nd) or fa.shape != (mi,):
        return [("shape", "xall %s funall %s for maxiter=%d" % (xa.shape, fa.shape, mi))]
    E, V = O.xs(rec.evals), O.vals(rec.evals)
    for k in range(mi):
        msg = O.pair_ok(call, xa[k], fa[k], E, V)
        if msg:
            return [("bad-pair", "sample %d: %s" % (k, msg))]
    return []


def nontrivial(ctx, case):
    return O.maxiter(case["calls"][0]) > 1
