"""Oracles over recorded histories, shared by the property checks.

They look only at what a user can observe: objective calls, callbacks, return
values, exceptions.  Points are matched to evaluations within a relative
tolerance of 1e-9 (reported points may go through a change of coordinates);
values are compared exactly.
"""
import math

import numpy as np

from .gen import EVO, POP, SAMPLERS

MESSAGES = {
    -8: "TolX", -7: "TolFun", -6: "TolXUp", -5: "EqualFunValues", -4: "ConditionCov",
    -3: "NoEffectCoord", -2: "NoEffectAxis", -1: "maximum number of iterations is reached",
    0: "best solution changes less than xtol", 1: "best solution value is lower than ftol",
}
RTOL = 1.0e-9


def box(call):
    b = np.array(call["bounds"], dtype=float)
    return b[:, 0], b[:, 1]


def point_tol(call, x):
    lo, up = box(call)
    tol = RTOL if call["method"] != "hmc" else 1e-12   # gradients are taken close by
    return tol * (np.abs(up - lo) + np.maximum(np.abs(lo), np.abs(up)) * 1e-3 + np.abs(x))


def merged(recs):
    """Evaluations of all ranks in the order they started."""
    ev = [e for r in recs for e in r.evals]
    ev.sort(key=lambda e: e.start)
    return ev


def xs(evals):
    return np.array([e.x for e in evals]) if evals else np.empty((0, 0))


def vals(evals):
    return np.array([np.nan if e.val is None else e.val for e in evals], dtype=float)


def match(call, x, E):
    """Indices of the evaluated points equal to x."""
    if len(E) == 0:
        return np.empty(0, int)
    x = np.asarray(x, dtype=float)
    if x.shape != E.shape[1:]:
        return np.empty(0, int)
    with np.errstate(invalid="ignore"):
        d = np.abs(E - x) <= point_tol(call, x)
    d |= (E == x)
    d |= np.isnan(E) & np.isnan(x)
    return np.flatnonzero(d.all(axis=1))


def strictly_inside(call, x):
    lo, up = box(call)
    m = 1e-9 * (up - lo)
    return bool(np.all(x > lo + m) and np.all(x < up - m))


def eqf(a, b):
    a, b = float(a), float(b)
    return a == b or (math.isnan(a) and math.isnan(b))


def pair_ok(call, x, f, E, V):
    """Was value f obtained at x (up to a non-negative penalty)?"""
    idx = match(call, x, E)
    if len(idx) == 0:
        return "the point %s was never evaluated" % fmt(x)
    if any(eqf(V[i], f) for i in idx):
        return None
    if call["opts"].get("constraints") == "Penalize" and not strictly_inside(call, np.asarray(x, float)):
        if any(not (f < V[i]) for i in idx):
            return None
        return "recorded %r is below the value %r obtained there" % (float(f), [float(V[i]) for i in idx[:3]])
    return "recorded value %r, but the objective returned %r at %s" % (float(f), [float(V[i]) for i in idx[:3]], fmt(x))


def fmt(x):
    return "[" + ", ".join("%.17g" % v for v in np.atleast_1d(np.asarray(x, float))[:6]) + "]"


def popsize(call):
    return call["opts"].get("popsize", 10)


def maxiter(call):
    return call["opts"].get("maxiter", 100)


def generations(call, evals):
    p = popsize(call)
    return [evals[i:i + p] for i in range(0, len(evals), p)]


def is_parallel(call):
    o = call["opts"]
    return o.get("backend") == "mpi" or o.get("workers", 1) not in (0, 1)


def is_sync(call):
    return call["method"] in ("na", "cmaes", "vdcma") or is_parallel(call) or call["opts"].get("updating") == "deferred"


def trouble(h, ok=("ok",)):
    """Violations common to every fault-free run: it must simply end well."""
    out = []
    if h.hang:
        out.append(("hang", "the run does not come to an end (real time limit)"))
        return out
    if h.deadlock:
        out.append((h.deadlock[0], "%s: %s" % h.deadlock))
        return out
    if h.world is not None and h.world.error is not None and h.world.error[0] == "mismatch":
        out.append(("mpi-mismatch", h.world.error[1]))
        return out
    # the rank that failed first says why the job was aborted
    recs = [r for r in h.recs if type(r.exc).__name__ != "JobAborted"] or h.recs
    for r in recs:
        o = r.outcome()
        if o not in ok:
            out.append(("exception-" + type(r.exc).__name__ if r.exc is not None else "unfinished",
                        "call ended with %s %s" % (o, describe_exc(r.exc))))
            return out
    return out


def describe_exc(e):
    if e is None:
        return ""
    s = "%r" % (e,)
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is not None:
        s += " at %s:%d" % (last.tb_frame.f_code.co_filename, last.tb_lineno)
    return s[:500]


# ---------------------------------------------------------------- single checks
def best_result(call, res, evals, allow_faulty=False):
    """C05: x, fun is a real evaluation and the best one."""
    E, V = xs(evals), vals(evals)
    out = []
    x, f = np.asarray(res["x"], float), float(res["fun"])
    msg = pair_ok(call, x, f, E, V)
    if msg:
        out.append(("not-real", "returned solution: " + msg))
        return out
    m = call["method"]
    if m in POP:
        b = np.nanmin(V)
        if not f == b:
            out.append(("not-best", "returned fun %r, smallest value obtained is %r" % (f, float(b))))
    elif m in EVO:
        G = evals[-popsize(call):]
        Vg = vals(G)
        b = np.nanmin(Vg)
        if call["opts"].get("constraints") == "Penalize":
            ins = [v for e, v in zip(G, Vg) if strictly_inside(call, e.x) and v == v]
            if f < b or (ins and f > min(ins)):
                out.append(("not-best", "returned fun %r, last iteration's values range from %r, best unpenalised %r"
                            % (f, float(b), min(ins) if ins else None)))
            if "funall" in res and len(res["funall"]) and call["opts"].get("verbosity", 1.0) in (1, 1.0, 0, 0.0):
                if f != np.nanmin(res["funall"][-1]):
                    out.append(("not-best", "returned fun %r is not the best of the last row of funall" % f))
        elif f != b:
            out.append(("not-best", "returned fun %r, best of the last iteration is %r" % (f, float(b))))
        if len(match(call, x, xs(G))) == 0:
            out.append(("not-last", "returned x is not a candidate of the last iteration"))
    else:
        if f < np.nanmin(V):
            out.append(("not-best", "fun below every value obtained"))
        if V[0] < f:
            out.append(("not-best", "fun %r is worse than the first sample's value %r" % (f, float(V[0]))))
        if "funall" in res and f != np.nanmin(res["funall"]):
            out.append(("not-best", "fun %r, smallest in chain %r" % (f, float(np.nanmin(res["funall"])))))
    return out


def in_box(call, X, what, slack=1e-12):
    lo, up = box(call)
    X = np.atleast_2d(np.asarray(X, float))
    tol = slack * ((up - lo) + np.abs(lo) + np.abs(up))
    bad = ~((X >= lo - tol) & (X <= up + tol))
    if bad.any():
        i, j = np.argwhere(bad)[0]
        return [("out-of-bounds", "%s: coordinate %d is %.17g, bounds [%.17g, %.17g]" % (what, j, X[i, j], lo[j], up[j]))]
    return []


def multiset_match(call, A, B):
    """Do the rows of A and B coincide as multisets (within tolerance)?"""
    A, B = np.asarray(A, float), np.asarray(B, float)
    if A.shape != B.shape:
        return "different numbers of points: %s and %s" % (A.shape, B.shape)
    free = np.ones(len(B), bool)
    for a in A:
        idx = [i for i in match(call, a, B) if free[i]]
        if not idx:
            return "point %s has no counterpart" % fmt(a)
        # prefer the exact one
        k = next((i for i in idx if np.array_equal(B[i], a)), idx[0])
        free[k] = False
    return None


def record_rows(call, res, evals, cbs):
    """C06 for optimizers: xall/funall against evaluations and callback populations."""
    out = []
    o = call["opts"]
    if not o.get("return_all"):
        if "xall" in res or "funall" in res:
            out.append(("unexpected-xall", "xall/funall returned without return_all"))
        return out
    m, p, nit = call["method"], popsize(call), int(res["nit"])
    nd = len(call["bounds"])
    nout = int(math.ceil(o.get("verbosity", 1.0) * p))
    xa, fa = np.asarray(res.get("xall")), np.asarray(res.get("funall"))
    rows = max(nout, 1)
    if xa.shape != (nit, rows, nd) or fa.shape != (nit, rows):
        return [("shape", "xall %s funall %s for nit=%d, %d rows, %d dimensions" % (xa.shape, fa.shape, nit, rows, nd))]
    gens = generations(call, evals)
    pen = o.get("constraints") == "Penalize"
    E, V = xs(evals), vals(evals)
    for k in range(nit):
        # the evaluations that can explain iteration k
        hi = min(len(evals), (k + 1) * p)
        lo = 0 if m == "de" else k * p
        Ek, Vk = E[lo:hi], V[lo:hi]
        for i in range(rows):
            msg = pair_ok(call, xa[k, i], fa[k, i], Ek, Vk)
            if msg:
                return [("bad-pair", "row %d, entry %d: %s" % (k, i, msg))]
    # agreement with the populations shown to the callback
    if cbs:
        for k in range(min(nit, len(cbs))):
            X = cbs[k]["X"]
            if nout > 0:
                for i in range(nout):
                    if len(match(call, xa[k, i], X[i:i + 1])) == 0:
                        return [("not-population", "row %d entry %d is %s, population member is %s"
                                 % (k, i, fmt(xa[k, i]), fmt(X[i])))]
            elif len(match(call, xa[k, 0], X)) == 0:
                return [("not-population", "row %d is no member of the population" % k)]
    parallel = is_parallel(call)
    for k in range(nit):
        G = gens[k]
        g = vals(G)
        if m != "de":
            if nout == 0:
                b = np.nanmin(g)
                if (not pen and fa[k, 0] != b) or (pen and fa[k, 0] < b):
                    return [("not-best-row", "verbosity=0 row %d holds %r, best of the iteration %r" % (k, float(fa[k, 0]), float(b)))]
            elif not parallel:
                for i in range(nout):
                    if len(match(call, xa[k, i], xs(G[i:i + 1]))) == 0:
                        return [("wrong-member", "row %d entry %d is not candidate %d of the iteration" % (k, i, i))]
            elif nout == p:
                msg = multiset_match(call, xa[k], xs(G))
                if msg:
                    return [("wrong-member", "row %d: %s" % (k, msg))]
        else:
            if nout == 0:
                b = np.nanmin(V[: (k + 1) * p])
                if fa[k, 0] != b:
                    return [("not-best-row", "verbosity=0 row %d holds %r, best of the population %r" % (k, float(fa[k, 0]), float(b)))]
            elif k == 0:
                if not parallel:
                    for i in range(nout):
                        if len(match(call, xa[0, i], xs(G[i:i + 1]))) == 0:
                            return [("wrong-member", "first row entry %d is not initial member %d" % (i, i))]
            elif not parallel:
                for i in range(nout):
                    prev, trial = fa[k - 1, i], g[i]
                    want = np.nanmin([prev, trial]) if not (np.isnan(prev) and np.isnan(trial)) else np.nan
                    if not eqf(fa[k, i], want):
                        return [("wrong-member", "row %d entry %d has value %r; previous member %r, trial %r"
                                 % (k, i, float(fa[k, i]), float(prev), float(trial)))]
    return out
