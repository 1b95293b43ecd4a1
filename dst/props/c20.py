"""Runs start where they were told to, or stratified over the box."""
import math

import numpy as np

from .. import gen as G
from .. import oracles as O
from ..stats import Bounded, Moments, binomial_bad

ID = "C20"
RUNS = {"quick": 4500, "thorough": 120000}
RULE = ("one case = the first iteration of one random call (any method, serial, joblib or MPI), or of an ensemble of 60 to 200 short "
        "calls: first points against x0, Latin hypercube strata counted, pairing of the strata and draws around x0 tested over the "
        "ensemble; non-trivial when a start was checked")
ASSUMPTIONS = ["a candidate within 1e-9 of a stratum's edge may count for either side"]


def gen(r, i, tier):
    if r.random() < 0.85:
        c = G.gen_call(r, seed="maybe", x0=0.5, maxiter=G.pick(r, (1, 1, 2, 3)), popsize=G.pick(r, (2, 3, 4, 5, 7, 10, 16, 31)))
        mode, sim = "seq", {"rng": r.randrange(2**31)}
        if c["method"] in G.OPTIMIZERS and r.random() < 0.4:
            mode, sim = G.parallel_world(r, c)
        return G.case(r, [c], mode, sim)
    c = G.gen_call(r, seed="none", x0=0.5, maxiter=1, popsize=G.pick(r, (2, 3, 4, 5, 7)), degenerate=False, rets=False,
                   methods=("de", "pso", "cpso", "na", "cmaes", "cmaes", "vdcma", "mcmc", "hmc"), constraints=None)
    if c["method"] in G.POP:
        c.pop("x0", None)
    elif c["method"] in G.SAMPLERS:
        c.pop("x0", None)
        c["opts"]["maxiter"] = 2
        c["opts"].pop("nleap", None)
    c["opts"].pop("seed", None)
    cs = G.case(r, [c])
    cs["ensemble"] = G.pick(r, (60, 200, 200))
    cs["seeded"] = r.random() < 0.3
    return cs


def check(ctx, case):
    call = case["calls"][0]
    if "ensemble" in case:
        calls = []
        for k in range(case["ensemble"]):
            c = dict(call, opts=dict(call["opts"]))
            if case["seeded"]:
                c["opts"]["seed"] = (case["seed"] + 104729 * k) % 2**31
            calls.append(c)
        h = ctx.run(dict(case, calls=calls))
    else:
        h = ctx.run(case)
    v = O.trouble(h)
    if v:
        return v
    ctx.info["nt"] = True
    m, p, nd = call["method"], O.popsize(call), len(call["bounds"])
    lo, up = O.box(call)
    groups = [[r] for r in h.recs] if case["mode"] == "seq" else [h.recs]
    first = []
    for g in groups:
        ev = O.merged(g)
        n = 1 if m in G.SAMPLERS else p
        if len(ev) < n:
            return [("history", "only %d evaluations" % len(ev))]
        X = O.xs(ev[:n])
        first.append(X)
        v = start(call, X, O.is_parallel(call) if m in G.OPTIMIZERS else False)
        if v:
            return v
        for r in g:
            if m in G.POP and r.res.get("xall") is not None and len(r.res["xall"]):
                msg = None
                for row in r.res["xall"][0]:
                    if not len(O.match(call, row, X)):
                        msg = "first row of xall holds %s, which was not evaluated in the first iteration" % O.fmt(row)
                if msg:
                    return [("record", msg)]
    if "ensemble" in case:
        return ensemble(call, first)
    return []


def start(call, X, parallel):
    m = call["method"]
    lo, up = O.box(call)
    x0 = call.get("x0")
    p = len(X)
    if m in G.POP:
        if x0 is not None:
            x0 = np.array(x0, dtype=float)
            if not parallel:
                tol = 0.0 if m != "na" else 1e-12 * (up - lo + np.abs(lo) + np.abs(up))
                bad = np.argwhere(np.abs(X - x0) > tol)
                if len(bad):
                    return [("x0", "%s: first evaluations differ from x0: member %d is %s instead of %s" % (
                        m, bad[0][0], O.fmt(X[bad[0][0]]), O.fmt(x0[bad[0][0]])))]
                return []
            msg = O.multiset_match(call, X, x0)
            return [("x0", "%s: first evaluations are not x0: %s" % (m, msg))] if msg else []
        for j in range(len(lo)):
            if up[j] <= lo[j]:
                continue
            t = (X[:, j] - lo[j]) / (up[j] - lo[j]) * p
            e = 1e-9 * p + 1e-14 * p * (abs(lo[j]) + abs(up[j])) / (up[j] - lo[j])
            if e > 0.1:
                continue
            s = np.sort(t)
            k = np.arange(p)
            # the k-th smallest must be in the k-th interval
            bad = (s < k - e) | (s > k + 1 + e)
            if bad.any():
                return [("strata", "%s: coordinate %d of the first population in units of strata: %s" % (m, j, O.fmt(s)))]
            # (x0 absent) draws within the strata are not all alike
            if p >= 4 and e < 1e-6 and np.ptp(s - np.floor(s + e)) < 1e-9:
                return [("strata", "%s: coordinate %d of the first population is a regular grid" % (m, j))]
        return []
    if m in G.EVO:
        if call["opts"].get("constraints") == "Penalize":
            return O.in_box(call, X, "first population")
        s = float(call["opts"].get("sigma", 0.1)) * 0.5 * (up - lo)
        k = 9.0 if m == "cmaes" else 60.0
        if x0 is not None:
            c = np.array(x0, dtype=float)
            bad = np.abs(X - c) > k * s + 1e-9 * np.abs(c)
            if bad.any():
                return [("around", "%s: first population: %s is %.3g step sizes from x0 %s" % (
                    m, O.fmt(X[np.argwhere(bad)[0][0]]), float((np.abs(X - c) / s).max()), O.fmt(c)))]
        else:
            a, b = X.min(axis=0) - k * s, X.max(axis=0) + k * s
            if (a > up).any() or (b < lo).any() or (np.ptp(X, axis=0) > 2 * k * s).any():
                return [("around", "%s: first population cannot be a draw around a point of the box: %s" % (m, O.fmt(X[0])))]
        return []
    if x0 is not None:
        if not np.array_equal(X[0], np.array(x0, dtype=float)):
            return [("x0", "%s starts at %s instead of %s" % (m, O.fmt(X[0]), O.fmt(x0)))]
        return []
    return O.in_box(call, X, "initial sample")


def ensemble(call, first):
    m, nd = call["method"], len(call["bounds"])
    lo, up = O.box(call)
    F = np.array(first)                     # calls x members x coordinates
    n, p = F.shape[:2]
    if m in G.POP:
        R = F.argsort(axis=1).argsort(axis=1) - 0.5 * (p - 1)
        cols = [(j, R[:, :, j]) for j in range(nd)]
        idx = np.arange(p) - 0.5 * (p - 1)
        q = (idx ** 2).sum()
        pairs = [("coordinates %d and %d" % (a, b), (A * B).sum(axis=1) / q) for a, A in cols for b, B in cols if a < b]
        pairs += [("coordinate %d and the member's number" % a, (A * idx).sum(axis=1) / q) for a, A in cols]
        pairs += [("coordinate %d and that of the call before" % a, (A[1:] * A[:-1]).sum(axis=1) / q) for a, A in cols]
        for what, rho in pairs:
            b = Bounded(2.0)
            for x in rho:
                b.add(float(x))
            if b.bad():
                return [("pairing", "%s: %s are paired with mean correlation %.2f over %d first populations of %d" % (
                    m, what, float(rho.mean()), n, p))]
        if p >= 3:
            K = F.argsort(axis=1).argsort(axis=1)
            for j in range(nd):
                for d in (1, p - 1):
                    hits = int(((K[:, 0, j] + d) % p == K[:, 1, j]).sum())
                    if binomial_bad(hits, n, 1.0 / (p - 1)):
                        return [("pairing", "%s: the second candidate lies %d strata after the first in %d of %d first populations of %d"
                                 % (m, d, hits, n, p))]
                for i in range(j):
                    hits = int((K[:, 0, i] == K[:, 0, j]).sum())
                    if binomial_bad(hits, n, 1.0 / p):
                        return [("pairing", "%s: coordinates %d and %d of the first candidate are in the same stratum in %d of %d "
                                 "first populations of %d" % (m, i, j, hits, n, p))]
        return []
    s = float(call["opts"].get("sigma", 0.1)) * 0.5 * (up - lo)
    if m in G.EVO and call.get("x0") is not None:
        Z = (F - np.array(call["x0"], dtype=float)) / s
        for j in range(nd):
            mo, sg = Moments(), Bounded()
            for z in Z[:, :, j].ravel():
                mo.add(float(z))
                sg.add(0.5 if z > 0 else -0.5)
            bad = mo.bad() if m == "cmaes" else None
            if m == "vdcma" and mo.s2 < n * p - 2.0 * math.sqrt(n * p * 32.0):
                bad = "mean square %.3g" % (mo.s2 / mo.n)
            if sg.bad() or binomial_bad(int((Z[:, 0, j] > 0).sum()), n, 0.5):
                bad = "%.0f%% of the draws on one side" % (50 + 100 * abs(sg.s) / sg.n)
            if bad:
                return [("around", "%s: coordinate %d of the first candidates around x0, in units of sigma: %s" % (m, j, bad))]
        if m == "cmaes":
            return indep(m, Z)
        return []
    if m == "cmaes":
        D = (F - F.mean(axis=1, keepdims=True)) / s
        dof = n * (p - 1)
        for j in range(nd):
            q = float((D[:, :, j] ** 2).sum())
            if not dof - 2.0 * math.sqrt(dof * 32.0) <= q <= dof + 2.0 * math.sqrt(dof * 32.0) + 64.0:
                return [("around", "cmaes: variance of coordinate %d in the first population is %.3g times sigma squared" % (j, q / dof))]
    # starting point drawn in the box
    C = F.mean(axis=1)
    for j in range(nd):
        u = (C[:, j] - lo[j]) / (up[j] - lo[j]) - 0.5
        b = Bounded()
        for x in u:
            b.add(min(max(float(x), -0.5), 0.5))
        if b.bad():
            return [("start", "%s: starting points are off the middle of the box by %.2f of its width on average" % (m, b.s / n))]
        if np.ptp(u) < 1e-3:
            return [("start", "%s: always starts at the same point" % m)]
        below = int((u < 0.0).sum())
        if binomial_bad(below, n, 0.5):
            return [("start", "%s: %d of %d starts lie in the lower half of the box" % (m, below, n))]
        for a in (-0.4, -0.2, 0.0, 0.2, 0.4):
            near = int((np.abs(u - a) < 0.1).sum())
            if binomial_bad(near, n, 0.2, upper_only=True):
                return [("start", "%s: %d of %d starts crowd within a tenth of the box's width" % (m, near, n))]
    return []


def indep(m, Z):
    n, p, nd = Z.shape
    tests = []
    if nd > 1:
        tests.append(("coordinates", (Z[:, :, 1:] * Z[:, :, :-1])))
    if p > 1:
        tests.append(("candidates", (Z[:, 1:] * Z[:, :-1])))
    for what, Q in tests:
        # signs of products of independent centred draws are fair coins, in sequence
        q = np.sign(Q).ravel()
        b = Bounded(2.0)
        for x in q:
            b.add(float(x))
        if b.bad():
            return [("around", "%s: consecutive %s of the first population are correlated" % (m, what))]
    return []


def nontrivial(ctx, case):
    return bool(ctx.info.get("nt"))
