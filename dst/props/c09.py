"""Constrained runs never evaluate or report points outside the bounds."""
import numpy as np

from .. import gen as G
from .. import oracles as O

ID = "C09"
RUNS = {"quick": 4500, "thorough": 150000}
RULE = ("one case = one random constrained call (or an unconstrained one for the initial population) with optima on or beyond "
        "the boundary, starts on faces and corners, extreme rates and boxes with bounds near zero, some long; every evaluated, "
        "reported and recorded point is compared with the box; non-trivial when points on the boundary or infeasible moves occurred")
ASSUMPTIONS = ["rounding error means at most 1e-12 of the box width plus the magnitude of the bounds"]


def gen(r, i, tier):
    u = r.random()
    if u < 0.1:
        return corner(r, long=True, tier=tier)
    if u < 0.35:
        return corner(r)
    c = G.gen_call(r, constraints="on" if u < 0.8 else "any", seed="maybe")
    if r.random() < 0.4:
        c["obj"]["c"] = [G.pick(r, (-1.0, 1.0, 1.5, -3.0)) for _ in c["bounds"]]
    mode, sim = "seq", {"rng": r.randrange(2**31)}
    if c["method"] in G.OPTIMIZERS and r.random() < 0.25:
        mode, sim = G.parallel_world(r, c)
    return G.case(r, [c], mode, sim)


def corner(r, long=False, tier="quick"):
    """Pressed against the boundary for many iterations."""
    m = G.pick(r, ("pso", "pso", "cpso", "cpso", "de", "cmaes", "vdcma", "na", "mcmc"))
    nd = G.pick(r, (1, 2, 3))
    c = G.gen_call(r, methods=(m,), constraints="on", ndim=nd, maxiter=G.pick(r, (100, 200)) if long else G.pick(r, (20, 40)),
                   popsize=G.pick(r, (3, 4, 6, 8)), ftol=-1e300, values=False, rets=False,
                   kinds=("linear", "mixed", "mixed", "abs", "hash"), containers=0.1)
    b = []
    for _ in range(nd):
        lo = G.pick(r, (0.0, 0.0, 1e-6, -1e-4, 1e-2, -1.0, 3.0, 1000.0))
        b.append([lo, lo + G.pick(r, (1.0, 2.0, 7.3, 0.1))])
    c["bounds"] = b
    if c.get("x0"):
        st = G.pick(r, ("uniform", "edge", "corner"))
        c["x0"] = ([G.inside(r, b, st) for _ in c["x0"]] if m in G.POP else G.inside(r, b, st))
        if m == "na":
            c["x0"] = [G.inside(r, b) for _ in c["x0"]]
    if c["obj"]["kind"] in ("linear", "mixed"):
        c["obj"]["w"] = [G.pick(r, (1.0, -1.0, 100.0, -1e4)) for _ in b]
    c["obj"]["c"] = [G.pick(r, (-1.0, 1.0, 1.5, -3.0)) for _ in b]
    if m in ("pso", "cpso"):
        c["opts"]["inertia"] = G.pick(r, (0.0, 0.3, 0.7298, 1.0))
    return G.case(r, [c])


def check(ctx, case):
    h = ctx.run(case)
    v = O.trouble(h)
    if v:
        return v
    call = case["calls"][0]
    m, o = call["method"], call["opts"]
    ev = O.merged(h.recs)
    E = O.xs(ev)
    cons = o.get("constraints")
    lo, up = O.box(call)
    if m in G.SAMPLERS:
        if call.get("x0") is None:
            v = O.in_box(call, E[:1], "initial sample")
            if v:
                return v
        if cons == "Reject":
            if m == "mcmc" or o.get("use_jac"):
                v = O.in_box(call, E, "evaluated sample")
            for rec in h.recs:
                v = v or O.in_box(call, rec.res["x"], "returned x")
                if "xall" in rec.res:
                    v = v or O.in_box(call, rec.res["xall"], "chain")
                for c in rec.cbs:
                    v = v or O.in_box(call, c["X"], "sample shown to callback")
            if v:
                return v
            # it must still move: small steps on a constant target from the middle of the box
            if ctx.stats.get("moved") is None and case["seed"] % 4 == 0:
                return moves(ctx, case)
        ctx.info["nt"] = True
        return []
    p = O.popsize(call)
    if cons or m == "na":
        v = O.in_box(call, E, "evaluated point")
        for rec in h.recs:
            v = v or O.in_box(call, rec.res["x"], "returned x")
            if "xall" in rec.res:
                v = v or O.in_box(call, rec.res["xall"].reshape(-1, len(lo)), "xall")
            for c in rec.cbs:
                v = v or O.in_box(call, c["X"], "population shown to callback")
                v = v or O.in_box(call, c["state"]["x"], "state.x")
    elif m in G.POP and call.get("x0") is None:
        v = O.in_box(call, E[:p], "initial population")
    if v:
        return v
    ctx.info["nt"] = bool(cons or m == "na") and bool(len(E) > p)
    return []


def moves(ctx, case):
    import copy
    c2 = copy.deepcopy(case)
    call = c2["calls"][0]
    lo, up = O.box(call)
    call["x0"], call["x0kind"] = list(0.5 * (lo + up)), "array"
    call["obj"] = {"kind": "const"}
    call["opts"]["maxiter"] = 40
    call["opts"]["return_all"] = True
    # the size of an HMC step does not depend on the box only: momentum is standard normal
    call["opts"]["stepsize"] = 0.02 if call["method"] == "mcmc" else float(0.02 / max(1.0, call["opts"].get("nleap", 10)))
    call.pop("stepkind", None)
    h = ctx.run(c2)
    v = O.trouble(h)
    if v:
        return v
    xa = h.rec.res["xall"]
    if len(np.unique(xa, axis=0)) < 10:
        return [("stuck", "a chain of %d small steps on a constant target inside the box has only %d different samples"
                 % (len(xa), len(np.unique(xa, axis=0))))]
    ctx.count("moving_chains")
    ctx.info["nt"] = True
    return []


def nontrivial(ctx, case):
    return bool(ctx.info.get("nt"))
