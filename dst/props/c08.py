"""Runs end within maxiter iterations and report the true reason."""
import copy

import numpy as np

from .. import gen as G
from .. import oracles as O

ID = "C08"
KEEP = ("callback",)
RUNS = {"quick": 4800, "thorough": 150000}
RULE = ("one case = one random call with a callback, often rerun with ftol (and xtol) taken from its own recorded history so "
        "that the threshold is met exactly at a chosen iteration; the iteration of the stop and the status are derived from "
        "the recorded values; non-trivial when a threshold was met or a second run made")


def gen(r, i, tier):
    c = G.gen_call(r, methods=G.OPTIMIZERS * 3 + G.SAMPLERS, callback=True, seed="int")
    mode, sim = "seq", {"rng": r.randrange(2**31)}
    if c["method"] in G.EVO and r.random() < 0.2:           # long enough for the numerical criteria
        o = c["opts"]
        o.update(maxiter=G.pick(r, (200, 400)), ftol=-1e300, xtol=0.0, popsize=G.pick(r, (6, 8, 10)), muperc=0.5)
        for k in ("faults", "args"):
            c.pop(k, None)
        case = G.case(r, [c], mode, sim)
        return case
    if c["method"] in G.OPTIMIZERS and r.random() < 0.35:
        mode, sim = G.parallel_world(r, c)
    case = G.case(r, [c], mode, sim)
    if c["method"] in G.OPTIMIZERS and r.random() < 0.6:
        case["derive"] = [r.random(), G.pick(r, ("equal", "equal", "above", "below")), G.pick(r, (None, 1.01, 0.99, 0.0))]
        c["opts"]["ftol"] = -1e300
        c["opts"].pop("xtol", None)
    return case


def check(ctx, case):
    h = ctx.run(case)
    v = O.trouble(h)
    if v:
        return v
    call = case["calls"][0]
    for rec in h.recs:
        v = ending(call, rec, O.merged(h.recs))
        if v:
            return v
    d = case.get("derive")
    if d and call.get("callback") and h.rec.res["nit"] > 1:
        best = bests(call, h.rec, O.merged(h.recs))
        k = min(len(best) - 1, int(d[0] * len(best)))
        f = best[k]
        if np.isfinite(f) and abs(f) < 1e300:
            c2 = copy.deepcopy(case)
            o = c2["calls"][0]["opts"]
            o["ftol"] = float(f if d[1] == "equal" else np.nextafter(f, np.inf if d[1] == "above" else -np.inf))
            if d[2] is not None:
                mv = moves(call, h.rec, O.merged(h.recs), k)
                o["xtol"] = float(d[2] * (max(mv) if mv else 1e-8))
            h2 = ctx.run(c2)
            v = O.trouble(h2)
            if v:
                return v
            for rec in h2.recs:
                v = ending(c2["calls"][0], rec, O.merged(h2.recs))
                if v:
                    return v
            ctx.count("derived_thresholds")
            ctx.info["hit"] = True
    ctx.count("status_%d" % h.rec.res["status"] if "status" in h.rec.res else "samplers")
    return []


def bests(call, rec, ev):
    """Best value per iteration, as defined by the property."""
    if call["opts"].get("constraints") == "Penalize":
        return [float(c["state"]["fun"]) for c in rec.cbs]
    g = [np.nanmin(O.vals(x)) for x in O.generations(call, ev)]
    if call["method"] in G.POP:
        g = list(np.minimum.accumulate(g))
    return [float(x) for x in g]


def moves(call, rec, ev, k):
    """How far the best solution moved in iteration k (all movements of that iteration if updated immediately)."""
    if k == 0:
        return []
    lo, up = O.box(call)
    if call["method"] in G.EVO:
        if call["opts"].get("constraints") == "Penalize":
            return None
        ms = [mean_of(call, g) for g in O.generations(call, ev)[k - 1:k + 1]]
        return None if any(m is None for m in ms) else [float(np.linalg.norm(ms[1] - ms[0]))]
    if O.is_sync(call):
        a, b = rec.cbs[k - 1]["state"]["x"], rec.cbs[k]["state"]["x"]
        d = np.asarray(b, float) - np.asarray(a, float)
        if call["method"] == "na":
            span = np.where(up > lo, up - lo, 1.0)
            return [float(np.linalg.norm(d / span))]
        return [float(np.linalg.norm(d))]
    p = O.popsize(call)
    best, xb = rec.cbs[k - 1]["state"]["fun"], np.asarray(rec.cbs[k - 1]["state"]["x"], float)
    out = []
    for e in ev[k * p:(k + 1) * p]:
        if e.val <= best:
            out.append(float(np.linalg.norm(e.x - xb)))
            best, xb = e.val, e.x
    return out or [0.0]


def mean_of(call, g):
    lo, up = O.box(call)
    o = call["opts"]
    mu = int(o.get("muperc", 0.5) * O.popsize(call))
    v = O.vals(g)
    idx = np.argsort(v, kind="stable")
    if mu < len(v) and v[idx[mu - 1]] == v[idx[mu]] or len(set(v[idx[:mu]])) < mu:
        return None             # ties: which candidates were selected is not determined
    w = np.log(mu + 0.5) - np.log(np.arange(1, mu + 1))
    X = (O.xs(g) - 0.5 * (lo + up)) / (0.5 * (up - lo))
    return (w / w.sum()) @ X[idx[:mu]]


def ending(call, rec, ev):
    m, res, o = call["method"], rec.res, call["opts"]
    mi = O.maxiter(call)
    if m in G.SAMPLERS:
        if res["nit"] != mi:
            return [("samples", "nit=%r for maxiter=%d" % (res["nit"], mi))]
        if o.get("return_all", True) and len(res["xall"]) != mi:
            return [("samples", "%d samples for maxiter=%d" % (len(res["xall"]), mi))]
        return []
    p, nit, st = O.popsize(call), int(res["nit"]), res["status"]
    if nit > mi:
        return [("maxiter", "%d iterations with maxiter=%d" % (nit, mi))]
    if len(ev) > p * mi:
        return [("maxiter", "%d evaluations with popsize=%d and maxiter=%d" % (len(ev), p, mi))]
    if st not in O.MESSAGES:
        return [("status", "undocumented status %r" % (st,))]
    if bool(res["success"]) != (st >= 0) or not isinstance(res["success"], (bool, np.bool_)):
        return [("success", "success=%r with status %r" % (res["success"], st))]
    if res["message"] != O.MESSAGES[st]:
        return [("message", "message %r with status %r" % (res["message"], st))]
    ftol = o.get("ftol", 1e-8)
    xtol = o.get("xtol", 1e-8)
    best = bests(call, rec, ev)
    evo = m in G.EVO
    first = 1 if evo else 2
    for k in range(first, nit):
        if best[k - 1] <= ftol:
            return [("late", "best value %r at iteration %d is at or below ftol=%r but the run went on to iteration %d"
                     % (best[k - 1], k, ftol, nit))]
    b = best[nit - 1]
    hit = b <= ftol
    what = "stopped at iteration %d of at most %d with best value %r, ftol=%r: status %r" % (nit, mi, b, ftol, st)
    if nit == mi and (evo or not hit or mi == 1):
        if st != -1 and not (mi == 1 and hit and not evo and st in (0, 1)):
            return [("reason", what)]
        return []
    if hit and nit >= first:
        if st not in (0, 1):
            return [("reason", what)]
        mv = moves(call, rec, ev, nit - 1)
        if mv:
            if st == 0 and min(mv) > xtol * (1 + 1e-9) + 1e-300:
                return [("reason", what + ", but the best solution moved by %r, xtol=%r" % (min(mv), xtol))]
            if st == 1 and len(mv) == 1 and mv[0] < xtol * (1 - 1e-9) - 1e-13 and b < ftol and O.is_sync(call):
                return [("reason", what + ", but the best solution moved only by %r, xtol=%r" % (mv[0], xtol))]
        return []
    # neither maxiter nor ftol
    if not evo or st >= -1:
        return [("reason", what)]
    if st == -5:
        n = int(10 + 30.0 * len(call["bounds"]) / p)
        g = best[max(0, nit - n):nit]
        if nit < n or max(g) - min(g) >= 1e-10:
            return [("reason", what + " (EqualFunValues), but the best values range from %r to %r" % (min(g), max(g)))]
    if o.get("constraints") == "Penalize":
        return []
    last = O.generations(call, ev)[nit - 1]
    if st == -7:
        g = O.vals(last)
        if g.max() - g.min() >= 1e-12:
            return [("reason", what + " (TolFun), but the values range from %r to %r" % (g.min(), g.max()))]
    return numerical(call, last, st, what)


def numerical(call, last, st, what):
    """Criteria on the spread of the search distribution, of which the last candidates are a sample.

    The criterion is applied to the distribution updated once more; the factor 100 covers that and the luck of the draw.
    """
    lo, up = O.box(call)
    half = 0.5 * (up - lo)
    X = O.xs(last) / half
    Y = np.abs(X - X.mean(axis=0)).max(axis=0)          # per coordinate
    eps = 1e-14 * (np.abs(X).max(axis=0) + np.abs(lo + up) / half) + 1e-300
    s0 = float(call["opts"].get("sigma", 0.1))
    if call["method"] == "vdcma" and st in (-2, -4):
        return [("reason", what + ", a criterion VD-CMA does not have")]
    if st == -2:
        low = np.linalg.svd(X - X.mean(axis=0), compute_uv=False)
        low = low[-1] if len(X) > X.shape[1] else 0.0
        if low > 1e-7 * np.sqrt(X.shape[1]) + eps.max():
            return [("reason", what + " (NoEffectAxis), but no axis of the last candidates is shorter than %.3g" % low)]
    elif st == -3 and (Y > 5e-8 + eps).all():
        return [("reason", what + " (NoEffectCoord), but the last candidates spread by %.3g and more" % Y.min())]
    elif st == -4 and len(X) > X.shape[1]:
        d = np.linalg.svd(X - X.mean(axis=0), compute_uv=False)
        if d[0] < 1e4 * d[-1] and d[-1] > eps.max():
            return [("reason", what + " (ConditionCov), but the last candidates' axes have ratio %.3g" % (d[0] / d[-1]))]
    elif st == -6 and (Y < 10.0 * s0).all():
        return [("reason", what + " (TolXUp), but the last candidates spread by %.3g at most, initially %.3g" % (Y.max(), s0))]
    elif st == -8 and (Y > 1e-9 * s0 + eps).any():
        return [("reason", what + " (TolX), but the last candidates spread by %.3g, initially %.3g" % (Y.max(), s0))]
    return []


def nontrivial(ctx, case):
    return bool(ctx.info.get("hit")) or case["calls"][0]["opts"].get("ftol", 0) > -1e299
