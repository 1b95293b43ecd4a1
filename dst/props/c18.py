"""NA resamples inside the Voronoi cells of the best models so far."""
import numpy as np

from .. import gen as G
from .. import oracles as O
from ..stats import Bounded

ID = "C18"
KEEP = ("callback",)
RUNS = {"quick": 4000, "thorough": 120000}
RULE = ("one case = one random serial NA run; each candidate is compared with all models evaluated in earlier iterations: it must be "
        "at least as close (normalised coordinates) to the model whose cell it belongs to as to any other, and its position on every "
        "axis between the cell walls met there must be uniform; non-trivial when three iterations were resampled")
ASSUMPTIONS = ["models tied in value are interchangeable", "parallel runs are covered through C01 (same result as the serial run)"]


def gen(r, i, tier):
    c = G.gen_call(r, methods=("na",), seed="maybe", callback=True, rets=False, popsize=G.pick(r, (2, 3, 4, 5, 6, 8, 12) if r.random() < 0.92 else (20, 40)),
                   maxiter=G.pick(r, (3, 5, 8, 12, 25)), ftol=-1e300)
    o = c["opts"]
    nd = len(c["bounds"])
    if r.random() < 0.5:
        o["nrperc"] = G.pick(r, (0.01, 0.2, 0.34, 0.5, 0.75, 0.9, 1.0))
    if r.random() < 0.2 and nd > 1:             # more fixed coordinates
        for j in range(nd):
            if r.random() < 0.4 and sum(b[0] < b[1] for b in c["bounds"]) > 1:
                c["bounds"][j][1] = c["bounds"][j][0]
        if c.get("x0"):
            c["x0"] = [G.inside(r, c["bounds"]) for _ in c["x0"]]
    if r.random() < 0.15:
        o["maxiter"] = G.pick(r, (40, 80))
    if o["popsize"] >= 20:
        o["maxiter"] = min(o["maxiter"], 40)
    o["xtol"] = 0.0
    return G.case(r, [c])


def check(ctx, case):
    h = ctx.run(case)
    v = O.trouble(h)
    if v:
        return v
    rec, call = h.rec, case["calls"][0]
    o = call["opts"]
    p = O.popsize(call)
    nr = max(1, int(o.get("nrperc", 0.5) * p))
    lo, up = O.box(call)
    E, F = O.xs(rec.evals), O.vals(rec.evals)
    nd = E.shape[1]
    ngen = len(E) // p
    if len(E) != ngen * p or len(rec.cbs) != ngen:
        return [("history", "%d evaluations and %d callbacks for population %d" % (len(E), len(rec.cbs), p))]
    fixed = up <= lo
    if (E[p:][:, fixed] != lo[fixed]).any():
        return [("fixed", "a coordinate of zero width left its value %s" % O.fmt(lo[fixed]))]
    v = O.in_box(call, E[p:], "candidate")
    if v:
        return v
    w = np.where(fixed, 1.0, up - lo)
    N = np.where(fixed, 0.0, (E - lo) / w)
    eps = 4e-16 * (1.0 + np.where(fixed, 0.0, (np.abs(lo) + np.abs(up)) / w))     # error of a normalised coordinate
    free = np.flatnonzero(~fixed)
    st = {"mean": Bounded(), "spread": Bounded(0.25), "dim": Bounded(), "member": Bounded()}
    for g in range(1, ngen):
        P, f = N[:g * p], F[:g * p]
        srt = np.sort(f)
        if not (rec.cbs[g]["X"].shape == (p, nd) and np.allclose(rec.cbs[g]["X"], E[g * p:(g + 1) * p], rtol=1e-12, atol=0)):
            return [("population", "iteration %d: population shown to the callback is not the one evaluated" % (g + 1))]
        last = None
        for i in range(p):
            x = N[g * p + i]
            ks = np.flatnonzero(f == srt[i % nr])
            d = ((P - x) ** 2).sum(axis=1)
            worst = None
            for k in ks[np.argsort(d[ks])][:5]:
                D = np.abs(P - P[k])
                tol = 1e-12 + 8.0 * (D * eps).sum(axis=1) + 8.0 * np.sqrt(d[k]) * eps.sum()
                bad = d[k] - d - tol
                j = int(np.argmax(bad))
                if bad[j] <= 0.0:
                    worst = None
                    break
                if worst is None or bad[j] < worst[0]:
                    worst = (bad[j], "iteration %d, candidate %d (nr=%d, %d models): at squared distance %.9g from model %d, number %d by "
                             "value, but %.9g from model %d" % (g + 1, i, nr, g * p, d[k], k, i % nr, d[j], j))
            if worst:
                return [("cell", worst[1])]
            last = None if len(ks) > 1 else walk(P, ks[0], x, free, eps, st, last)
    ctx.info["nt"] = ngen > 3
    ctx.count("candidates", (ngen - 1) * p)
    ctx.count("axis draws tested", st["mean"].n)
    for k, name in (("mean", "positions between the cell walls are not centred"),
                    ("spread", "positions between the cell walls are not spread uniformly"),
                    ("dim", "positions on consecutive axes are not independent"),
                    ("member", "positions of consecutive candidates are not independent")):
        if st[k].bad():
            return [("draws-" + k, "%s: deviation %+.1f over %d draws" % (name, st[k].s, st[k].n))]
    return []


def walk(P, k, x, free, eps, st, last):
    """Cell walls met on each axis of the walk from model k to x; position of x between them."""
    y = P[k].copy()
    U = np.delete(P, k, axis=0)
    out = np.zeros(len(x))
    prev = 0.0
    for j in free:
        rest = np.arange(len(x)) != j
        d1 = ((P[k] - y)[rest] ** 2).sum()
        d2 = ((U - y)[:, rest] ** 2).sum(axis=1)
        D = P[k, j] - U[:, j]
        near = np.abs(D) < 1e-6
        if (near & (np.abs(d1 - d2) < 1e-6)).any():     # walls that rounding could move
            return None
        lim = 0.5 * (P[k, j] + U[:, j] + (d1 - d2) / np.where(D == 0.0, 1e-300, D))
        l = max([0.0] + [v for v in lim if v <= y[j]])
        h = min([1.0] + [v for v in lim if v >= y[j]])
        if h - l > 1e-5 + 1e4 * eps[j]:
            u = (x[j] - l) / (h - l) - 0.5
            if abs(u) > 0.5001:
                return None
            st["mean"].add(u)
            st["spread"].add(u * u - 1.0 / 12.0)
            if prev:
                st["dim"].add(u, 1.0 if prev > 0 else -1.0)
            if last is not None and last[j]:
                st["member"].add(u, 1.0 if last[j] > 0 else -1.0)
            out[j] = prev = u
        else:
            prev = 0.0
        y[j] = x[j]
    return out


def nontrivial(ctx, case):
    return bool(ctx.info.get("nt"))
