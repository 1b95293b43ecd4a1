"""Searches reach the minimum and chains reach their target, once evaluations succeed."""
import copy

import numpy as np

from .. import gen as G
from .. import oracles as O

ID = "C26"
RUNS = {"quick": 400, "thorough": 20000}
KEEP = ("obj", "x0", "popsize", "maxiter", "ftol", "xtol", "constraints", "faults", "updating", "stepsize", "use_jac", "strategy")
NEAR = 0.01
BULK = 8.0
RULE = ("one case = the same problem searched or sampled with 3 to 12 seeds (any method with default coefficients, serial, joblib or MPI, "
        "any box and start, evaluations failing early); progress is judged at the end of the run: 5 of 12 failing seeds are "
        "a violation; non-trivial when faults struck, evaluations were parallel or the box was not the unit one")
ASSUMPTIONS = ["on the unchanged tree at most 2 % of the runs miss (thousands were measured), so that 5 misses in 12 do not happen by chance"]


def gen(r, i, tier):
    m = G.pick(r, ("de", "pso", "cpso", "na", "cmaes", "vdcma", "mcmc", "hmc"))
    nd = G.pick(r, (1, 2, 2, 3, 4))
    c = {"method": m, "api": G.pick(r, ("generic", "direct")), "bkind": "array", "callback": r.random() < 0.3}
    c["bounds"] = G.gen_bounds(r, nd)
    o = c["opts"] = {}
    s = c["obj"] = {"kind": G.pick(r, ("quad", "rquad")), "salt": r.randrange(1000)}
    s["c"] = [r.uniform(-0.6, 0.6) for _ in range(nd)]
    s["w"] = [G.pick(r, (1.0, 1.0, 0.2, 5.0)) for _ in range(nd)]
    if r.random() < 0.3:
        s["a"], s["b"] = G.pick(r, (1e-6, 1e6)), 0.0
    elif r.random() < 0.2:
        s["b"] = G.pick(r, (-7.0, 40.0))
    mode, sim = "seq", {"rng": r.randrange(2**31)}
    if m in G.SAMPLERS:
        return sampler(r, m, nd, c, o, s)
    pop = o["popsize"] = 20
    o.update(maxiter=150, ftol=-1e300, xtol=0.0)
    if m in ("de", "pso", "cpso"):
        o["updating"] = G.pick(r, ("immediate", "deferred"))
    if m == "de":
        o["strategy"] = G.pick(r, ("best1bin", "rand1bin", "best2bin", "rand2bin"))
        if nd > 3 and o["strategy"] == "best1bin":
            o["updating"] = "immediate"         # a population of 20 is too small for it when updated at once
    if m != "na":
        o["constraints"] = G.pick(r, (None, {"de": "Random", "pso": "Shrink", "cpso": "Shrink", "cmaes": "Penalize", "vdcma": "Penalize"}[m]))
        if o["constraints"] and m != "vdcma" and r.random() < 0.4:
            s["kind"] = "quad"
            s["c"] = [G.pick(r, (-1.5, 1.5, 0.3, r.uniform(-1, 1))) for _ in range(nd)]
    if r.random() < 0.4:
        if m in G.EVO:
            c["x0"] = G.inside(r, c["bounds"], G.pick(r, ("uniform", "corner")))
        else:
            c["x0"] = [G.inside(r, c["bounds"]) for _ in range(pop)]
        c["x0kind"] = "array"
    u = r.random()
    if u < 0.25:
        mode, sim = G.parallel_world(r, c)
        if c["durations"]["mode"] not in ("zero", "equal"):
            c["durations"] = {"mode": "equal", "d": 0.5}
        if mode == "mpi":
            sim["ranks"] = min(sim["ranks"], 4)
            sim.pop("stall", None)
    if r.random() < 0.6 and not (m == "na" and nd == 1):
        do = G.pick(r, ("nan", "nan", "inf"))
        n = pop * 20 // (sim.get("ranks", 1) if mode == "mpi" else 1)
        if m == "na" or r.random() < 0.6:
            c["faults"] = [{"where": G.pick(r, (0.2, 0.5)) if m != "na" else 0.2, "salt": r.randrange(100), "to": n, "do": do}]
        else:
            a = r.randrange(n // 2)
            c["faults"] = [{"from": a, "to": a + G.pick(r, (1, 7, n // 20, n // 4)), "do": do}]
    return G.case(r, [c], mode, sim)


def sampler(r, m, nd, c, o, s):
    w = G.pick(r, (0.1, 0.2, 0.3))
    s.update(kind="gauss", w=[w] * nd)
    s.pop("a", None)
    o["return_all"] = True
    o["constraints"] = G.pick(r, (None, "Reject"))
    o["stepsize"] = w * G.pick(r, (0.5, 1.0)) if m == "mcmc" else w * G.pick(r, (0.1, 0.15))
    if m == "mcmc":
        o["maxiter"] = 900
        o["perc"] = G.pick(r, (0.3, 1.0, 1.0))
    else:
        o["maxiter"] = 80
        o["use_jac"] = True
    c["x0"] = G.inside(r, c["bounds"], G.pick(r, ("uniform", "corner")))
    c["x0kind"] = "array"
    if r.random() < 0.4:
        c["faults"] = [{"where": 0.3, "salt": r.randrange(100), "skip": 1, "to": o["maxiter"] // 4, "do": G.pick(r, ("nan", "inf"))}]
    return G.case(r, [c])


def miss(call, rec, ev):
    """How far the run ended from where it should be, in units of what is allowed."""
    f = rec.obj.formula
    if call["method"] in G.SAMPLERS:
        z = f.z(np.asarray(rec.res["xall"][-1]))
        return float(np.max(np.abs(z - f.c) / f.w)) / BULK
    t = f.c if not call["opts"].get("constraints") else np.clip(f.c, -1.0, 1.0)
    return float(np.max(np.abs(f.z(rec.res["x"]) - t))) / NEAR


def check(ctx, case):
    call = case["calls"][0]
    out, n = [], 0
    for k in range(12):
        c2 = copy.deepcopy(case)
        c2["calls"][0]["opts"]["seed"] = (case["seed"] + 7919 * k) % 2**31
        h = ctx.run(c2)
        v = O.trouble(h)
        if v:
            return v
        n += 1
        d = miss(call, h.recs[0], None)
        if not d <= 1.0:
            out.append(d)
        ctx.count("runs")
        if n == 3 and not out or len(out) >= 5 or len(out) + 11 - k < 5:
            break
    ctx.count("misses", len(out))
    ctx.info["nt"] = bool(call.get("faults")) or O.is_parallel(call) if call["method"] in G.OPTIMIZERS else True
    ctx.info["nt"] = ctx.info["nt"] or any(b != [-1.0, 1.0] for b in call["bounds"])
    if len(out) >= 5:
        return [("progress", "%s: %d of %d runs ended away from %s (e.g. %.2g times the distance allowed)" % (
            call["method"], len(out), n, "the target" if call["method"] in G.SAMPLERS else "the minimum", np.median(out)))]
    return []


def nontrivial(ctx, case):
    return bool(ctx.info.get("nt"))
