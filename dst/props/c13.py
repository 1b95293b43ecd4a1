"""Failed evaluations never win and never derail a run."""
import numpy as np

from .. import gen as G
from .. import oracles as O

ID = "C13"
RUNS = {"quick": 4800, "thorough": 150000}
RULE = ("one case = one random call some of whose evaluations return NaN or +inf (initial individuals, whole generations, regions "
        "of space, single evaluations), under random backends; non-trivial when at least one evaluation failed and one did not")


def gen(r, i, tier):
    c = G.gen_call(r, methods=G.OPTIMIZERS * 2 + G.SAMPLERS, seed="maybe", rets=False, return_all=r.random() < 0.85,
                   maxiter=G.pick(r, (1, 2, 3, 5, 8, 12, 20)), callback=r.random() < 0.8)
    if r.random() < 0.7 and c["method"] not in G.SAMPLERS:
        c["opts"]["ftol"] = -1e300
    mode, sim = "seq", {"rng": r.randrange(2**31)}
    smp = c["method"] in G.SAMPLERS
    if not smp and r.random() < 0.3:
        mode, sim = G.parallel_world(r, c)
    p = O.popsize(c)
    n = p * O.maxiter(c) if not smp else O.maxiter(c) * (1 if c["method"] == "mcmc" else 2 * len(c["bounds"]) * c["opts"].get("nleap", 10))
    fs = []
    for _ in range(G.pick(r, (1, 1, 2, 3))):
        do = G.pick(r, ("nan", "nan", "inf"))
        u = r.random()
        if u < 0.35:
            fs.append({"do": do, "where": G.pick(r, (0.05, 0.3, 0.7, 0.95)), "salt": r.randrange(100), "skip": 0})
        elif u < 0.55 and not smp:
            fs.append({"do": do, "at": r.randrange(p)})
        elif u < 0.7:
            a = r.randrange(n)
            fs.append({"do": do, "from": a, "to": a + G.pick(r, (1, 2, p, 2 * p))})
        elif u < 0.8 and not smp:
            fs.append({"do": do, "from": 0, "to": G.pick(r, (p, p - 1, p + 1, 2 * p))})
        else:
            fs.append({"do": do, "at": r.randrange(n)})
    if smp:
        for f in fs:                    # a finite start
            if "where" in f:
                f["skip"] = 1
            for k in ("at", "from"):
                if f.get(k) == 0:
                    f[k] = 1
    if mode == "mpi":                   # counts are per rank there
        fs = [f if "where" in f else {"do": f["do"], "where": 0.2, "salt": 3, "skip": 0} for f in fs]
    c["faults"] = fs
    return G.case(r, [c], mode, sim)


def check(ctx, case):
    h = ctx.run(case)
    v = O.trouble(h)
    if v:
        return v
    call = case["calls"][0]
    m, o = call["method"], call["opts"]
    ev = O.merged(h.recs)
    E, V = O.xs(ev), O.vals(ev)
    fin = np.isfinite(V)
    ctx.info["nt"] = bool(fin.any() and not fin.all())
    if m != "hmc":
        bad = ~np.isfinite(E).all(axis=1)
        if bad.any():
            return [("candidate", "candidate %d is %s" % (np.flatnonzero(bad)[0], O.fmt(E[bad][0])))]
    if m in G.SAMPLERS:
        return sampler(call, h.rec, ev)
    p = O.popsize(call)
    for rec in h.recs:
        res = rec.res
        f = float(res["fun"])
        if m in G.POP:
            if fin.any() and f != V[fin].min():
                return [("not-best", "fun is %r, smallest real value obtained %r" % (f, float(V[fin].min())))]
            if fin.any():
                msg = O.pair_ok(call, res["x"], f, E, V)
                if msg:
                    return [("not-real", msg)]
            for k, c in enumerate(rec.cbs):
                w = V[:p * (k + 1)]
                w = w[np.isfinite(w)]
                if len(w) and float(c["state"]["fun"]) != w.min():
                    return [("not-best", "callback %d: fun is %r, smallest real value so far %r"
                             % (k + 1, float(c["state"]["fun"]), float(w.min())))]
        else:
            g = V[-p:]
            if np.isfinite(g).any():
                if not np.isfinite(f):
                    return [("not-best", "fun is %r, the last iteration's real values start at %r" % (f, float(np.nanmin(g))))]
                v = O.best_result(call, res, ev)
                if v:
                    return v
    v = rows(call, h.recs, ev)
    return v


def rows(call, recs, ev):
    m, o = call["method"], call["opts"]
    p = O.popsize(call)
    res = recs[0].res
    if "funall" not in res:
        return []
    fa = np.asarray(res["funall"])
    gens = O.generations(call, ev)
    nout = int(np.ceil(o.get("verbosity", 1.0) * p))
    if nout == 0:
        for k, g in enumerate(gens):
            if m == "de":
                g = [e for x in gens[:k + 1] for e in x]
            w = O.vals(g)
            if np.isfinite(w).any() and not np.isfinite(fa[k, 0]):
                return [("row", "verbosity=0 row %d holds %r though a real value was obtained" % (k, float(fa[k, 0])))]
    elif m == "de" and not O.is_parallel(call):
        cur = [e.val for e in gens[0]]
        for k in range(1, len(gens)):
            for i in range(nout):
                t = gens[k][i].val
                old = cur[i]
                if np.isfinite(t) and not (old <= t):
                    cur[i] = t
                f = fa[k, i]
                if np.isfinite(cur[i]):
                    if f != cur[i]:
                        return [("stuck", "row %d: member %d has value %r; was %r, trial %r" % (k, i, float(f), old, t))]
                elif np.isfinite(f):
                    return [("row", "row %d: member %d has value %r; was %r, trial %r" % (k, i, float(f), old, t))]
    return []


def sampler(call, rec, ev):
    res = rec.res
    E, V = O.xs(ev), O.vals(ev)
    if not np.isfinite(V[0]):
        return []
    if not np.isfinite(res["fun"]):
        return [("not-best", "fun is %r" % (res["fun"],))]
    if "funall" in res:
        fa = np.asarray(res["funall"])
        if not np.isfinite(fa).all():
            k = int(np.flatnonzero(~np.isfinite(fa))[0])
            return [("accepted", "sample %d has value %r" % (k, float(fa[k])))]
        for k in range(len(fa)):
            msg = O.pair_ok(call, res["xall"][k], fa[k], E, V)
            if msg:
                return [("not-real", "sample %d: %s" % (k, msg))]
        if float(res["fun"]) != fa.min():
            return [("not-best", "fun is %r, smallest in chain %r" % (float(res["fun"]), float(fa.min())))]
    return []


def nontrivial(ctx, case):
    return bool(ctx.info.get("nt"))
