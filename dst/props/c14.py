"""A sampler's output is a genuine Metropolis chain record."""
import math

import numpy as np

from .. import gen as G
from .. import oracles as O
from ..stats import Coins, Martingale, Normals

ID = "C14"
KEEP = ("callback",)
RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("one case = one random MCMC or HMC run (target, step sizes, perc, dimension, constraint, start, gradient) observed through "
        "a callback, every step of which is refined against a Metropolis step; accept/reject frequencies, perturbations and "
        "momenta are pooled over the run and judged by concentration bounds at p < 1e-13; non-trivial with both accepted "
        "and rejected steps")


def gen(r, i, tier):
    c = G.gen_call(r, methods=("mcmc", "mcmc", "hmc"), seed="maybe", callback=True, return_all=True, x0=0.4, rets=True,
                   kinds=G.KINDS + ("gauss", "gauss", "mixed"), ndim=G.pick(r, (None, None, 2, 5, 7)))
    o = c["opts"]
    if c["method"] == "mcmc":
        o["maxiter"] = G.pick(r, (1, 2, 5, 20, 60, 200, 600))
        if r.random() < 0.5:
            c["obj"].pop("a", None)
            c["obj"].pop("b", None)
    else:
        o["maxiter"] = G.pick(r, (1, 2, 5, 20, 60))
        if r.random() < 0.6 and c["obj"]["kind"] in ("quad", "gauss", "linear", "rastrigin", "stybl"):
            o["use_jac"] = True
    if c["method"] == "mcmc" and r.random() < 0.03 and not o.get("constraints"):
        c["obj"] = {"kind": "const", "c": [0.0] * len(c["bounds"]), "w": [1.0] * len(c["bounds"])}
        o["maxiter"] = 20000
    if r.random() < 0.05 and not o.get("constraints") and len(c["bounds"]) <= 4:
        # a long run: enough draws to judge their laws and their dependence on each other
        c["obj"]["kind"] = "gauss" if c["method"] == "mcmc" else G.pick(r, ("gauss", "quad"))
        c["obj"].pop("a", None)
        c["obj"].pop("b", None)
        if c["method"] == "mcmc":
            o["stepsize"] = G.pick(r, (0.5, 1.0, 2.0))
            o["maxiter"] = 6000
        else:
            o["nleap"] = G.pick(r, (1, 2))
            o["use_jac"] = True
            o["maxiter"] = 400
    if r.random() < 0.06:
        c["faults"] = [{"do": G.pick(r, ("nan", "inf")), "where": 0.2, "salt": 3}]
    c["cblite"] = True
    return G.case(r, [c])


def check(ctx, case):
    h = ctx.run(case)
    v = O.trouble(h)
    if v:
        return v
    rec, call = h.rec, case["calls"][0]
    res, o = rec.res, call["opts"]
    n = O.maxiter(call)
    xa, fa = np.asarray(res["xall"]), np.asarray(res["funall"])
    nd = len(call["bounds"])
    if xa.shape != (n, nd) or fa.shape != (n,):
        return [("shape", "xall %s, funall %s for maxiter=%d" % (xa.shape, fa.shape, n))]
    if res["nit"] != n:
        return [("nit", "nit is %r for maxiter=%d" % (res["nit"], n))]
    if len(rec.cbs) != n:
        return [("callbacks", "%d callbacks for %d samples" % (len(rec.cbs), n))]
    E, V = O.xs(rec.evals), O.vals(rec.evals)
    if call.get("x0") is not None:
        if not np.array_equal(xa[0], np.array(call["x0"], float)):
            return [("start", "chain starts at %s, x0 is %s" % (O.fmt(xa[0]), O.fmt(call["x0"])))]
    else:
        v = O.in_box(call, xa[:1], "first sample")
        if v:
            return v
    if not np.array_equal(xa[0], E[0]) or not O.eqf(fa[0], V[0]):
        return [("start", "first sample %s %r; first evaluation %s %r" % (O.fmt(xa[0]), float(fa[0]), O.fmt(E[0]), float(V[0])))]
    step = mcmc_step if call["method"] == "mcmc" else hmc_step
    st = {"acc": Coins(), "out": Martingale(), "z": Normals(), "p": Normals(), "moved": {}}
    accepted = rejected = unsure = 0
    for k in range(1, n):
        lo, hi = rec.cbs[k - 1]["nev"], rec.cbs[k]["nev"]
        ev = rec.evals[lo:hi]
        copy = np.array_equal(xa[k], xa[k - 1], equal_nan=True) and O.eqf(fa[k], fa[k - 1])
        if copy and any(np.array_equal(e.x, xa[k], equal_nan=True) and O.eqf(e.val, fa[k]) for e in ev[-1:]):
            unsure += 1                 # the proposal is the previous sample (no room for a move in floating point)
            continue
        acc, v = step(call, rec, k, xa, fa, ev, copy, st)
        if v:
            return v
        accepted += acc
        rejected += not acc
        a = rec.cbs[k]["state"]["accept_ratio"]
        if unsure == 0 and abs(a - accepted / (k + 1)) > 1e-12:
            return [("accept-ratio", "callback %d: accept_ratio %r, %d of %d samples accepted" % (k + 1, a, accepted, k + 1))]
    if not accepted - 1e-9 <= res["accept_ratio"] * n <= accepted + unsure + 1e-9:
        return [("accept-ratio", "accept_ratio %r, %d of %d samples accepted" % (res["accept_ratio"], accepted, n))]
    ctx.info["nt"] = accepted > 0 and rejected > 0
    ctx.count("accepted", accepted)
    ctx.count("rejected", rejected)
    b = st["acc"].bad()
    if b:
        return [("metropolis", b)]
    if st["out"].bad():
        return [("reject", "%d proposals: %.1f more excluded than fall outside the bounds" % (st["out"].n, st["out"].s))]
    b = st["z"].bad()
    if b:
        return [("perturbation", "in units of stepsize times half width: " + b)]
    b = st["p"].bad()
    if b:
        return [("momentum", b)]
    for j, (visits, moves) in st["moved"].items():
        if visits >= 4 and moves == 0:
            return [("stuck", "coordinate %d was proposed %d times and never moved" % (j, visits))]
    return []


def steps(call):
    lo, up = O.box(call)
    s = call["opts"].get("stepsize", 0.1 if call["method"] == "mcmc" else 0.01)
    return 0.5 * (up - lo) * np.asarray(s, float)


def mcmc_step(call, rec, k, xa, fa, ev, copy, st):
    o = call["opts"]
    nd = len(call["bounds"])
    m = max(1, int(o.get("perc", 1.0) * nd))
    nb = -(-nd // m)
    b = (k - 1) % nb
    blk = np.zeros(nd, bool)
    blk[b * m:(b + 1) * m] = True
    s = steps(call)
    lo, up = O.box(call)
    rej = o.get("constraints") == "Reject"
    if len(ev) > 1:
        return 0, [("evaluations", "%d evaluations at step %d" % (len(ev), k + 1))]
    if rej:
        from math import erf, sqrt
        p = 1.0
        for j in np.flatnonzero(blk):
            if s[j] > 0:
                p *= 0.5 * (erf((up[j] - xa[k - 1][j]) / s[j] / sqrt(2)) - erf((lo[j] - xa[k - 1][j]) / s[j] / sqrt(2)))
        inside = np.all((xa[k - 1] >= lo) & (xa[k - 1] <= up))
        if inside:
            st["out"].add(not ev, 1.0 - p)
    if not ev:
        if not rej:
            return 0, [("evaluations", "no evaluation at step %d without constraint" % (k + 1))]
        if not copy:
            return 0, [("not-evaluated", "sample %d is new but was not evaluated" % (k + 1))]
        return 0, []
    P, v = ev[0].x, ev[0].val
    if rej and not np.all((P >= lo) & (P <= up)):
        return 0, [("outside", "step %d evaluates %s, outside the bounds" % (k + 1, O.fmt(P)))]
    if not np.array_equal(P[~blk], xa[k - 1][~blk]):
        return 0, [("block", "proposal %d changes coordinates outside block %d (of %d)" % (k + 1, b, m))]
    with np.errstate(all="ignore"):
        z = (P - xa[k - 1])[blk] / s[blk]
    draws = []
    for j, zz in zip(np.flatnonzero(blk), z):
        a = st["moved"].setdefault(j, [0, 0])
        a[0] += 1
        a[1] += P[j] != xa[k - 1][j]
        res = 1e-6 * s[j] > np.spacing(max(abs(lo[j]), abs(up[j]), abs(P[j])))
        if not rej and res and np.isfinite(zz):
            draws.append((int(j), float(zz)))
    if draws:
        st["z"].add(*zip(*draws))
    now = np.array_equal(xa[k], P) and O.eqf(fa[k], v)
    if not now and not copy:
        return 0, [("not-metropolis", "sample %d (%s, %r) is neither the proposal (%s, %r) nor a copy of the previous one"
                    % (k + 1, O.fmt(xa[k]), float(fa[k]), O.fmt(P), v))]
    f0 = fa[k - 1]
    if v != v or v == math.inf:
        if now and f0 < math.inf:
            return 0, [("accepted", "sample %d with value %r was accepted" % (k + 1, v))]
        return int(now), []
    if not now and v < f0:
        return 0, [("downhill", "proposal %d with value %r was rejected though the previous is %r" % (k + 1, v, float(f0)))]
    if f0 == f0 and v >= f0:
        d = f0 - v
        st["acc"].add(now, math.exp(d) if d > -700 else 0.0)
    else:
        st["acc"].push()
    return int(now), []


def hmc_step(call, rec, k, xa, fa, ev, copy, st):
    o = call["opts"]
    lo, up = O.box(call)
    rej = o.get("constraints") == "Reject"
    now = any(np.array_equal(e.x, xa[k]) and O.eqf(e.val, fa[k]) for e in ev) and not copy
    if not now and not copy:
        return 0, [("not-metropolis", "sample %d (%s, %r) is neither a point evaluated at this step nor a copy of the previous one"
                    % (k + 1, O.fmt(xa[k]), float(fa[k])))]
    if now and rej and not np.all((xa[k] >= lo) & (xa[k] <= up)):
        return 0, [("outside", "sample %d is %s, outside the bounds" % (k + 1, O.fmt(xa[k])))]
    if now and not (fa[k] < math.inf) and fa[k - 1] < math.inf:
        return 0, [("accepted", "sample %d with value %r was accepted" % (k + 1, float(fa[k])))]
    if not call.get("faults"):
        v = leapfrog(call, rec, k, xa, fa, ev, now, st, lo, up, rej)
        if v:
            return 0, v
    return int(now), []


def close(a, b):
    return bool(np.all(np.abs(a - b) <= 1e-12 * (1e-3 + np.abs(a) + np.abs(b))))


def numerical(call, ev):
    """Points and central differences of the gradients made of this step's evaluations, and the evaluations left."""
    nd = len(call["bounds"])
    h = call["opts"].get("finite_diff_abs_step", 1e-4)
    pts, grads, i = [], [], 0
    while i + 2 * nd <= len(ev):
        g, q = np.full(nd, np.nan), None
        for j in range(0, 2 * nd, 2):
            a, b = ev[i + j], ev[i + j + 1]
            d = a.x - b.x
            k = int(np.argmax(np.abs(d)))
            tol = 1e-12 * (np.abs(a.x) + np.abs(b.x)) + 1e-3 * h
            if abs(abs(d[k]) - 2.0 * h) > tol[k] or np.any(np.delete(np.abs(d) > tol, k)):
                g = None
                break
            g[k] = (a.val - b.val) / (2.0 * h) * (1.0 if d[k] > 0 else -1.0)
            m = 0.5 * (a.x + b.x)
            if q is None:
                q = m
                first = k
            elif j == 2:
                q[first] = m[first]
        if g is None or np.isnan(g).any():
            break
        pts.append(q)
        grads.append(g)
        i += 2 * nd
    return pts, grads, ev[i:]


def leapfrog(call, rec, k, xa, fa, ev, now, st, lo, up, rej):
    """With a user gradient the trajectory is visible: it must be a leap-frog one."""
    q0 = xa[k - 1]
    end = None
    if call["opts"].get("use_jac"):
        pts = list(rec.obj.jac_points[rec.cbs[k - 1]["njac"]:rec.cbs[k]["njac"]])
        grads = [rec.obj.formula.gradient(t) for t in pts]
        fin = ev
    else:
        pts, grads, fin = numerical(call, ev)
    for e in fin:
        if not np.array_equal(e.x, q0):
            end = e
    lead = not pts or not close(pts[0], q0)
    if lead:
        pts.insert(0, q0)
        grads.insert(0, None)
    if end is not None and not close(pts[-1], end.x):
        pts.append(end.x)
        grads.append(None)
    T = np.array(pts)
    eps = steps(call)
    if len(T) < 2 or not np.isfinite(T).all() or np.any(eps <= 0):
        return []
    for i in range(len(T)):
        if grads[i] is None:            # gradients taken elsewhere (reused, say)
            if not call["opts"].get("use_jac"):
                return []
            grads[i] = rec.obj.formula.gradient(T[i])
    g = np.array(grads)
    if not np.isfinite(g).all() or np.abs(g).max() > 1e100:
        return []
    dq = np.diff(T, axis=0)
    tol = 1e-7 * (np.abs(dq).max(axis=0) + np.abs(eps ** 2 * g).max(axis=0)) + 1e-9 * np.abs(T).max(axis=0)
    if len(T) > 2:
        err = np.abs(dq[1:] - dq[:-1] + eps**2 * g[1:-1])
        if (err > tol).any():
            return [("leap-frog", "step %d: position %d of the trajectory departs by %.3g from the leap-frog rule"
                     % (k + 1, int(np.argmax((err > tol).any(axis=1))) + 2, float((err - tol).max())))]
    if (tol > 1e-3 * eps).any():
        return []                       # momenta cannot be told precisely enough
    p0 = dq[0] / eps + 0.5 * eps * g[0]
    p1 = dq[-1] / eps - 0.5 * eps * g[-1]
    if np.abs(eps * g).max() > 1e4:
        return []
    st["p"].add(range(len(p0)), p0)
    q = T[-1]
    inside = np.all((q >= lo) & (q <= up))
    if rej and not inside:
        return [("outside", "step %d accepted a point outside" % (k + 1))] if now else []
    if end is None or not close(q, end.x) or not np.isfinite(end.val) or not np.isfinite(fa[k - 1]):
        return []
    u0, u1 = float(fa[k - 1]), end.val
    d = u0 - u1 + 0.5 * float((p0**2).sum() - (p1**2).sum())
    ep = 8.0 * np.spacing(np.abs(T).max(axis=0)) / eps + 1e-9 * np.abs(eps * g).max(axis=0)
    slack = 1e-5 + 2.0 * float(((np.abs(p0) + np.abs(p1) + ep) * ep).sum()) + 1e-9 * (abs(u0) + abs(u1))
    if slack > 0.01:
        return []
    if d > slack and not now:
        return [("downhill", "step %d: a proposal of lower energy (by %.3g) was rejected" % (k + 1, d))]
    if d <= 0:
        st["acc"].add(now, math.exp(d) if d > -700 else 0.0)
    return []


def nontrivial(ctx, case):
    return bool(ctx.info.get("nt"))
