"""Searches depend on the ranking of values only, and on the box only affinely."""
import copy
import math

import numpy as np

from .. import gen as G
from .. import oracles as O
from ..scenario import same

ID = "C19"
KEEP = ("ftol", "xtol", "callback")
RUNS = {"quick": 4500, "thorough": 120000}
RULE = ("one case = one random serial call and a related one: the objective seen through a strictly increasing map, or bounds, x0 and "
        "argument scaled by powers of two, coordinate by coordinate; the sequences of evaluated points are compared bit for bit; non-trivial when at least "
        "three generations (ten samples) were compared")
ASSUMPTIONS = ["a power of two scales floating point numbers exactly (no overflow or underflow in the cases made)",
               "objective values are rounded to single precision, so that the maps keep different values different"]
MAPS = (["scale", 2.0**-40], ["scale", 0.125], ["scale", 32.0], ["scale", 2.0**60], ["shift", 1.0], ["shift", -100.0], ["shift", 1e6],
        ["cube"], ["sqrt"], ["log"], ["ordinal"], ["ordinal"])


def gen(r, i, tier):
    scale = r.random() < 0.5
    ms = ("de", "pso", "cpso", "na", "cmaes", "vdcma") + (("mcmc",) if scale else ())
    c = G.gen_call(r, methods=ms, seed="maybe", rets=False, ftol=-1e300)
    o = c["opts"]
    if c["method"] != "mcmc":
        o["xtol"] = 0.0
    if c["method"] in G.EVO and not scale:
        o["constraints"] = None
    if r.random() < 0.3 and c["method"] != "mcmc":
        o["maxiter"] = G.pick(r, (40, 60, 100)) if O.popsize(c) <= 40 else 12
    if c["method"] == "cpso" and r.random() < 0.5:
        o["inertia"], o["maxiter"] = G.pick(r, (0.0, 0.3)), 40
    if c["method"] == "cpso" or c["method"] in G.EVO:
        c["callback"] = True
    cs = G.case(r, [c])
    if scale:
        k = (-30, -8, -1, 0, 1, 1, 2, 5, 20)
        cs["scale"] = [G.pick(r, k) for _ in c["bounds"]] if r.random() < 0.6 else [G.pick(r, k)] * len(c["bounds"])
    else:
        c["obj"]["q32"] = True
        cs["mono"] = G.pick(r, MAPS)
    return cs


def twin(case):
    c2 = copy.deepcopy(case)
    call = c2["calls"][0]
    if "scale" in case:
        s = 2.0 ** np.array(case["scale"][:len(call["bounds"])], dtype=float)
        call["bounds"] = (np.array(call["bounds"]) * s[:, None]).tolist()
        if call.get("x0") is not None:
            call["x0"] = (np.array(call["x0"]) * s).tolist()
        return c2, s
    call["obj"]["mono"] = case["mono"]
    return c2, 1.0


def check(ctx, case):
    c2, s = twin(case)
    a, b = ctx.run(case), ctx.run(c2)
    for h in (a, b):
        v = O.trouble(h)
        if v:
            return v
    call = case["calls"][0]
    m = call["method"]
    A, B = O.xs(a.rec.evals), O.xs(b.rec.evals)
    FA, FB = O.vals(a.rec.evals), O.vals(b.rec.evals)
    n = min(len(A), len(B))
    full = True
    if m == "cpso" and "scale" in case and not case.get("strict"):
        n2 = collapse(call, c2["calls"][0], a, b)
        if n2 is not None:
            n, full = min(n, n2), False
    what = "bounds, x0 and argument scaled by 2^%s" % case["scale"] if "scale" in case else "objective mapped by %s" % case["mono"]
    if "mono" in case:
        # where the map was not strictly increasing on the values met, nothing follows
        d = np.flatnonzero((A[:n] != B[:n]).any(axis=1))
        k = (d[0] if len(d) else n)
        f, t = FA[:k], FB[:k]
        order = np.argsort(f, kind="stable")
        if (np.sign(np.diff(f[order])) != np.sign(np.diff(t[order]))).any() or not np.isfinite(t).all():
            ctx.count("map not strict")
            return []
    bad = np.flatnonzero((A[:n] * s != B[:n]).any(axis=1))
    if len(bad):
        k = int(bad[0])
        return [("sequence", "%s, %s: evaluation %d is at %s instead of %s" % (m, what, k, O.fmt(B[k]), O.fmt(A[k] * s)))]
    if "scale" in case and not np.array_equal(FA[:n], FB[:n]):
        return [("harness", "scaled objective differs")]
    if full and m not in G.EVO or "scale" in case and full:
        if len(A) != len(B):
            return [("length", "%s, %s: %d evaluations instead of %d" % (m, what, len(B), len(A)))]
        ra, rb = a.rec.res, b.rec.res
        if not same(np.asarray(ra["x"]) * s, np.asarray(rb["x"])) or ra["nit"] != rb["nit"] or ra.get("status") != rb.get("status"):
            return [("result", "%s, %s: result %s (nit %s, status %s) instead of %s (nit %s, status %s)" % (
                m, what, O.fmt(rb["x"]), rb["nit"], rb.get("status"), O.fmt(np.asarray(ra["x"]) * s), ra["nit"], ra.get("status")))]
        if "xall" in ra and not same(ra["xall"] * s, rb["xall"]):
            return [("record", "%s, %s: xall differs" % (m, what))]
        if "scale" in case and not same(np.float64(ra["fun"]), np.float64(rb["fun"])):
            return [("result", "%s, %s: fun %r instead of %r" % (m, what, rb["fun"], ra["fun"]))]
    ctx.info["nt"] = n >= (10 if m == "mcmc" else 3 * O.popsize(call))
    ctx.count("points compared", n)
    return []


def collapse(ca, cb, a, b):
    """Evaluations up to the first iteration where only one of the two swarms is under CPSO's absolute threshold."""
    o = ca["opts"]
    if not o.get("competitivity", 1.0):
        return None
    if not a.rec.cbs:
        return 0
    p, mi = O.popsize(ca), O.maxiter(ca)
    delta = math.log(1.0 + 0.003 * p) / max(0.2, math.log(0.01 * mi))
    for g, (x, y) in enumerate(zip(a.rec.cbs, b.rec.cbs)):
        u, v = (np.linalg.norm(c["X"] - c["state"]["x"], axis=1).max() / math.sqrt(4.0 * len(ca["bounds"])) for c in (x, y))
        if (u < delta * 1.000001) != (v < delta * 0.999999) or (u < delta * 0.999999) != (v < delta * 1.000001):
            return (g + 1) * p
    return None


def nontrivial(ctx, case):
    return bool(ctx.info.get("nt"))
