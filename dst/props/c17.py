"""PSO and CPSO particles move by the documented velocity rule."""
import math

import numpy as np

from .. import gen as G
from .. import oracles as O
from ..stats import Bounded

ID = "C17"
KEEP = ("callback",)
RUNS = {"quick": 4500, "thorough": 120000}
RULE = ("one case = one random serial PSO or CPSO run; every displacement between consecutive positions of a particle is compared "
        "with the set of displacements the rule allows from its previous displacement, personal best and swarm best (for Shrink: "
        "with the best common factor), the weights drawn are tested for mean, spread and independence, and CPSO's relocations are "
        "predicted from the swarm radius; non-trivial when at least three generations moved")
ASSUMPTIONS = ["the collapse threshold and the number of relocated particles follow the reference cited by the docstring (Luu et al. 2018)",
               "parallel runs are covered through C01 (same result as the serial deferred run)"]


def gen(r, i, tier):
    c = G.gen_call(r, methods=("pso", "pso", "cpso"), seed="maybe", callback=True, values=False, rets=False,
                   popsize=G.pick(r, (2, 3, 4, 5, 6, 8, 10, 12, 20) if r.random() < 0.9 else (30, 60)), maxiter=G.pick(r, (3, 5, 8, 12, 25)), ftol=-1e300)
    o = c["opts"]
    if r.random() < 0.25:
        o["maxiter"] = G.pick(r, (60, 150))
        o["inertia"] = G.pick(r, (0.4, 0.6, 0.7298))
    if r.random() < 0.3:
        o[G.pick(r, ("cognitivity", "sociability"))] = 0.0
    if c["method"] == "cpso":
        if r.random() < 0.8:
            o["competitivity"] = G.pick(r, (0.5, 1.0, 1.0, 1.5, 2.0, 0.1, 0.0, None))
        if r.random() < 0.6:                    # let the swarm collapse
            o["inertia"], o["maxiter"] = G.pick(r, (0.0, 0.3, 0.5)), G.pick(r, (25, 60))
            c["bounds"] = G.gen_bounds(r, len(c["bounds"]), scales=False)
            if c.get("x0"):
                c["x0"] = [G.inside(r, c["bounds"]) for _ in range(o["popsize"])]
        if r.random() < 0.15:                   # a collapsed start, relocated points visible as such
            n = o["popsize"] = G.pick(r, (8, 20, 60))
            o.update(maxiter=G.pick(r, (3, 6)), sociability=0.0, competitivity=2.0)
            q = G.inside(r, c["bounds"])
            c["x0"] = [[min(max(x + 1e-3 * r.uniform(-1, 1), a), b) for x, (a, b) in zip(q, c["bounds"])] for _ in range(n)]
        if r.random() < 0.02:                   # a big swarm, collapsed, early in a long run; stopped by its callback
            n = o["popsize"] = G.pick(r, (300, 500))
            o.update(maxiter=G.pick(r, (400, 1000)), competitivity=G.pick(r, (0.0, 0.0, None, 0.2, 1.0)))
            q = G.inside(r, c["bounds"])
            c["x0"] = [[min(max(x + 1e-6 * (b - a) * r.uniform(-1, 1), a), b) for x, (a, b) in zip(q, c["bounds"])] for _ in range(n)]
            c["cbfaults"] = [{"at": G.pick(r, (1, 2, 3)), "do": "raise"}]
    elif r.random() < 0.1:
        c["obj"]["kind"] = "linear"
    if o["popsize"] >= 20 and not c.get("cbfaults"):
        o["maxiter"] = min(o["maxiter"], 25)
    o["xtol"] = 0.0
    return G.case(r, [c])


def check(ctx, case):
    h = ctx.run(case)
    v = O.trouble(h, ("exc:BoomError",) if case["calls"][0].get("cbfaults") else ("ok",))
    if v:
        return v
    rec, call = h.rec, case["calls"][0]
    o = call["opts"]
    p = O.popsize(call)
    w, c1, c2 = (float(o.get(k, d)) for k, d in (("inertia", 0.7298), ("cognitivity", 1.49618), ("sociability", 1.49618)))
    gamma = o.get("competitivity", 1.0) if call["method"] == "cpso" else None
    shrink = o.get("constraints") == "Shrink"
    immediate = not O.is_sync(call)
    lo, up = O.box(call)
    E, F = O.xs(rec.evals), O.vals(rec.evals)
    nd, mi = E.shape[1], O.maxiter(call)
    ngen = len(E) // p
    if len(E) != ngen * p or len(rec.cbs) != ngen:
        return [("history", "%d evaluations and %d callbacks for population %d" % (len(E), len(rec.cbs), p))]
    E, F = E.reshape(ngen, p, nd), F.reshape(ngen, p)
    if gamma:
        delta = math.log(1.0 + 0.003 * p) / max(0.2, math.log(0.01 * mi))
    st = {"mean": Bounded(), "dim": Bounded(), "particle": Bounded(), "spread": Bounded(0.25), "pair": Bounded(0.25)}
    X = E[0].copy()
    vl, vh = np.zeros((p, nd)), np.zeros((p, nd))
    pbf = F[0].copy()
    pb = [[x] for x in E[0]]
    gf, gb = F[0].min(), unique([E[0][k] for k in np.flatnonzero(F[0] == F[0].min())])
    relocated = []
    moved = nrel = 0
    fresh, uni = set(), [Bounded() for _ in range(nd)]
    for g in range(ngen):
        if not np.array_equal(rec.cbs[g]["X"], E[g]):
            return [("population", "iteration %d: population shown to the callback is not the one evaluated" % (g + 1))]
        if g == 0:
            continue
        if not np.isfinite(E[g]).all() or np.abs(E[g]).max() > 1e100:
            break
        gf0, gb0, gball = gf, list(gb), list(gb)
        last = None
        for i in range(p):
            bests = gb if immediate else gb0
            if i in relocated:
                a = np.array(bests)
                cl = np.minimum(lo, ((1 - c2) * np.where(c2 > 1, up, lo) + c2 * a)).min(axis=0)
                ch = np.maximum(up, ((1 - c2) * np.where(c2 > 1, lo, up) + c2 * a)).max(axis=0)
                tol = 1e-9 * (np.abs(cl) + np.abs(ch) + up - lo)
                if (E[g, i] < cl - tol).any() or (E[g, i] > ch + tol).any():
                    return [("relocation", "iteration %d, particle %d: relocated to %s, outside what one step from inside the box can reach"
                             % (g + 1, i, O.fmt(E[g, i])))]
                nrel += 1
                vl[i] = np.minimum(0.0, c2 * (a - up)).min(axis=0)
                vh[i] = np.maximum(0.0, c2 * (a - lo)).max(axis=0)
                pbf[i], pb[i] = np.inf, []
                if c2 == 0.0:
                    vl[i] = vh[i] = 0.0
                    for j in range(nd):
                        if (j, E[g, i, j]) in fresh and up[j] - lo[j] > 1e-3 * abs(lo[j]):
                            return [("relocation", "iteration %d: coordinate %d of two relocated particles is the same, %.17g"
                                     % (g + 1, j, E[g, i, j]))]
                        fresh.add((j, E[g, i, j]))
                        uni[j].add((E[g, i, j] - lo[j]) / (up[j] - lo[j]) - 0.5)
                last = None
            else:
                msg, last = step(X[i], vl[i], vh[i], E[g, i], pb[i], bests, w, c1, c2, shrink, lo, up, st, last)
                if msg:
                    return [("move", "iteration %d, particle %d (%s, inertia %g, cognitivity %g, sociability %g%s): %s" % (
                        g + 1, i, "immediate" if immediate else "deferred", w, c1, c2, ", Shrink" if shrink else "", msg))]
                vl[i] = vh[i] = E[g, i] - X[i]
                moved += 1
            X[i] = E[g, i]
            f = F[g, i]
            if f < pbf[i]:
                pbf[i], pb[i] = f, [X[i].copy()]
            elif f == pbf[i]:
                put(pb[i], X[i])
            if f < gf:
                gf, gb = f, [X[i].copy()]
            elif f == gf:
                put(gb, X[i])
        relocated = []
        if gamma and g + 1 < mi:
            d = [np.sqrt(((X - b) ** 2).sum(axis=1)).max() / math.sqrt(4.0 * nd) for b in gb]
            sure = max(d) < delta * (1 - 1e-9)
            if sure or min(d) < delta * (1 + 1e-9):
                q = (p - 1.0) / (1.0 + math.exp(1.0 / 0.09 * ((g + 1.0) / mi - float(gamma) + 0.5)))
                nw = int(q)
                if nw < 1 and abs(q - 1.0) > 1e-9:
                    continue
                order = np.argsort(-pbf, kind="stable")
                # undecided: radius on the threshold, ties at the cut, or a rounding case
                if not sure or abs(q - round(q)) < 1e-9 and nw not in (0, p - 1) or pbf[order[nw - 1]] == pbf[order[nw]]:
                    break
                relocated = list(order[:nw])
    ctx.info["nt"] = moved > 2 * p
    ctx.count("displacements", moved)
    ctx.count("relocations", nrel)
    for j in range(nd):
        if uni[j].bad():
            return [("relocation", "coordinate %d of relocated particles is not uniform over the box" % j)]
    for k, name in (("mean", "the attraction weights are not centred on half the coefficient"),
                    ("dim", "the weights of consecutive coordinates are not independent"),
                    ("particle", "the weights of consecutive particles are not independent"),
                    ("spread", "the weights are not spread like uniform draws"),
                    ("pair", "the weights of the two attractions are not independent")):
        if st[k].bad():
            return [("weights-" + k, "%s: deviation %+.1f over %d displacements" % (name, st[k].s, st[k].n))]
    return []


def unique(rows):
    return rows if len(rows) < 2 else list(np.unique(np.array(rows), axis=0))


def put(rows, x):
    if not rows or not (np.array(rows) == x).all(axis=1).any():
        rows.append(x.copy())


def step(X, vl, vh, Xn, pbs, gbs, w, c1, c2, shrink, lo, up, st, last):
    D = Xn - X
    nd = len(D)
    if not pbs:
        pbs = [X]
    if len(pbs) * len(gbs) > 64:
        ga, pa = np.array(gbs), np.array(pbs)
        pairs = [((pa.min(axis=0), pa.max(axis=0)), (ga.min(axis=0), ga.max(axis=0)))]
    else:
        pairs = [((a, a), (b, b)) for a in pbs for b in gbs]
    tol = 1e-10 * (np.abs(X) + np.abs(Xn) + w * np.maximum(np.abs(vl), np.abs(vh))
                   + c1 * max(np.abs(x).max() for x in pbs) + c2 * max(np.abs(x).max() for x in gbs)) + 1e-300
    worst = None
    for (pl, ph), (gl, gh) in pairs:
        wl = w * vl + c1 * np.minimum(0.0, pl - X) + c2 * np.minimum(0.0, gl - X)
        wh = w * vh + c1 * np.maximum(0.0, ph - X) + c2 * np.maximum(0.0, gh - X)
        bad = np.maximum(wl - D, D - wh) - tol
        if (bad <= 0.0).all():
            worst = None
            break
        if shrink:
            why = shrunk(X, Xn, D, wl, wh, tol, lo, up)
            if why is None:
                worst = None
                break
            worst = worst or why
        else:
            j = int(np.argmax(bad))
            worst = worst or "coordinate %d moved by %.9g, the rule allows %.9g to %.9g" % (j, D[j], wl[j], wh[j])
    if worst:
        return worst, None
    # the draws behind the move
    if shrink or len(pairs) > 1 or len(pbs) > 1 or len(gbs) > 1 or not np.array_equal(vl, vh):
        return None, None
    A, B = c1 * (pbs[0] - X), c2 * (gbs[0] - X)
    s = np.abs(A) + np.abs(B)
    us, prev = np.zeros(nd), 0.0
    for j in range(nd):
        if s[j] <= 1e5 * tol[j]:
            prev = 0.0
            continue
        u = (D[j] - w * vl[j] - 0.5 * (A[j] + B[j])) / s[j]
        us[j] = u
        st["mean"].add(u, (A[j] + B[j]) / s[j])
        if prev:
            st["dim"].add(u, math.copysign(1.0, prev) * sgn(A[j] + B[j]))
        if last is not None and last[j]:
            st["particle"].add(u, math.copysign(1.0, last[j]) * sgn(A[j] + B[j]))
        q = u * u - (A[j] ** 2 + B[j] ** 2) / (12.0 * s[j] ** 2)
        st["spread"].add(q)
        if A[j] and B[j]:
            st["pair"].add(q, sgn(A[j]) * sgn(B[j]))
        us[j] = u * sgn(A[j] + B[j])
        prev = us[j]
    return None, us


def sgn(x):
    return 1.0 if x >= 0 else -1.0


def shrunk(X, Xn, D, wl, wh, tol, lo, up):
    """Is D = W / s for one s >= 1 and a W allowed by the rule, stopping at the boundary?"""
    tb = 1e-9 * ((up - lo) + np.abs(lo) + np.abs(up)) + 2.0 * tol
    if (np.abs(D) <= tol).all():
        out = (np.abs(X - up) <= tb) & (wh > -tol) | (np.abs(X - lo) <= tb) & (wl < tol)
        return None if out.any() else "the particle stands still away from the boundary"
    s0, s1 = 1.0, np.inf
    for j in range(len(D)):
        a, b = D[j] - tol[j], D[j] + tol[j]
        h, l = wh[j] + tol[j], wl[j] - tol[j]
        # s * a <= h
        if a > 0.0:
            s1 = min(s1, h / a)
        elif a < 0.0:
            s0 = max(s0, h / a)
        elif h < 0.0:
            s1 = 0.0
        # s * b >= l
        if b < 0.0:
            s1 = min(s1, l / b)
        elif b > 0.0:
            s0 = max(s0, l / b)
        elif l > 0.0:
            s1 = 0.0
    if s0 > s1 * (1 + 1e-9):
        return "displacement %s is no common fraction of a displacement between %s and %s" % (O.fmt(D), O.fmt(wl), O.fmt(wh))
    at = (np.abs(Xn - up) <= tb) & (D > -tol) | (np.abs(Xn - lo) <= tb) & (D < tol)
    if not at.any():
        return "displacement %s was shortened although %s is not on the boundary" % (O.fmt(D), O.fmt(Xn))
    return None


def nontrivial(ctx, case):
    return bool(ctx.info.get("nt"))
