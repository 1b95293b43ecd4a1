"""The samplers leave the target distribution exp(-fun) invariant."""
import copy
import math
import random

import numpy as np

from .. import gen as G
from .. import oracles as O
from ..objectives import Formula

ID = "C15"
KEEP = ("obj", "constraints")
RUNS = {"quick": 480, "thorough": 4000}
CHAINS = {"quick": 1200, "thorough": 6000}
RULE = ("one case = an ensemble of simulated chains (1200 in the quick tier, 6000 in the thorough one) started in exact draws "
        "from the target; the probability integral transforms of all later samples, coordinate by coordinate and jointly, are "
        "compared with uniformity by tests at 8.5 standard deviations; non-trivial when both moves and rejections occurred")
ASSUMPTIONS = ["numpy's generator is a good source of randomness", "targets are separable or normal, so that exact starts can be drawn"]
Q = (0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9)
ZMAX = 8.5


def gen(r, i, tier):
    m = G.pick(r, ("mcmc", "mcmc", "hmc"))
    nd = G.pick(r, (1, 1, 2, 2, 3)) if m == "hmc" else G.pick(r, (1, 2, 2, 3, 3, 5))
    c = {"method": m, "api": G.pick(r, ("generic", "direct")), "bkind": "array"}
    c["bounds"] = G.gen_bounds(r, nd)
    o = c["opts"] = {"return_all": True}
    rej = r.random() < 0.55
    k = G.pick(r, ("gauss", "gauss2", "linear", "const", "abs", "steps", "rastrigin", "stybl") if rej else
               ("gauss", "gauss", "gauss2", "abs", "rastrigin", "stybl"))
    if k == "gauss2" and (nd < 2 or rej):
        k = "gauss"
    s = c["obj"] = {"kind": k, "c": [r.uniform(-1, 1) for _ in range(nd)]}
    if k in ("gauss", "gauss2"):
        s["w"] = [G.pick(r, (0.2, 0.5, 1.0, 2.0)) for _ in range(nd)]
        if k == "gauss2":
            s["rho"] = G.pick(r, (-0.9, 0.6, 0.95))
    elif k == "linear":
        s["w"] = [G.pick(r, (1.0, -2.0, 4.0)) for _ in range(nd)]
    elif k == "abs":
        s["w"] = [G.pick(r, (1.0, 3.0, 8.0)) for _ in range(nd)]
    elif k == "rastrigin":
        s["a"] = G.pick(r, (0.05, 0.2))
    elif k == "stybl":
        s["a"] = G.pick(r, (0.02, 0.06))
    if rej:
        o["constraints"] = "Reject"
    if m == "mcmc":
        o["stepsize"] = G.pick(r, (0.2, 0.5, 1.0, 2.0, 3.0))
        o["perc"] = G.pick(r, (0.0, 0.3, 0.5, 0.67, 1.0, 1.0))
        o["maxiter"] = G.pick(r, (4, 8, 12))
    else:
        o["nleap"] = G.pick(r, (1, 2, 3, 5))
        o["maxiter"] = G.pick(r, (3, 5))
        # the position step is stepsize times half the width, squared in the force
        half = 0.5 * max(b[1] - b[0] for b in c["bounds"])
        wmin = min(s.get("w", [1.0])) if k in ("gauss", "gauss2") else 0.3
        o["stepsize"] = G.pick(r, (0.3, 0.8, 1.3)) * max(wmin, 0.3)
        if k in ("gauss", "gauss2", "linear", "rastrigin", "stybl", "const", "abs") and r.random() < 0.5:
            o["use_jac"] = True
        else:
            o["finite_diff_abs_step"] = 1e-4 * half
    if r.random() < 0.4:
        o["stepsize"] = [o["stepsize"] * G.pick(r, (0.5, 1.0, 1.5)) for _ in range(nd)]
    case = G.case(r, [c])
    case["chains"] = CHAINS[tier]
    case["seeded"] = r.random() < 0.2
    if r.random() < 0.09 and (m == "mcmc" or k != "steps"):     # fewer, longer chains: what only happens late in a run
        case["chains"] //= 4
        o["maxiter"] = G.pick(r, (130, 220))
        if "nleap" in o:
            o["nleap"] = min(o["nleap"], 2)
            o["use_jac"] = True
            o.pop("finite_diff_abs_step", None)
    return case


def margin(call, f, j):
    """Grid (in normalised coordinates) and distribution function of coordinate j."""
    s = call["obj"]
    rej = call["opts"].get("constraints") == "Reject"
    if rej:
        z = np.linspace(-1.0, 1.0, 4001)
    else:
        k = s["kind"]
        half = {"gauss": 9.0 * s.get("w", [1.0] * 9)[j], "abs": 35.0 / s.get("w", [1.0] * 9)[j], "rastrigin": 6.0, "stybl": 2.2}[k]
        z = (s["c"][j] if k != "stybl" else 0.0) + np.linspace(-half, half, 8001)
    x = np.tile(f.mid + f.half * np.array(s["c"]), (len(z), 1))
    x[:, j] = f.mid[j] + f.half[j] * z
    v = np.array([f.value(p) for p in x])
    d = np.exp(-(v - v.min()))
    w = 0.5 * (d[1:] + d[:-1]) * np.diff(z)
    F = np.concatenate(([0.0], np.cumsum(w)))
    return z, F / F[-1]


def check(ctx, case):
    call = case["calls"][0]
    f = Formula(call["obj"], call["bounds"])
    nd = len(call["bounds"])
    n = case["chains"]
    r = np.random.RandomState(case["seed"] % 2**32)
    rot = call["obj"]["kind"] == "gauss2"
    if rot:
        y = r.randn(n, nd)
        rho = call["obj"]["rho"]
        u = y.copy()
        u[:, 1] = rho * y[:, 0] + math.sqrt(1 - rho * rho) * y[:, 1]
        start = f.mid + f.half * (np.array(call["obj"]["c"]) + u * f.w)
    else:
        M = [margin(call, f, j) for j in range(nd)]
        U = r.rand(n, nd)
        start = np.transpose([f.mid[j] + f.half[j] * np.interp(U[:, j], M[j][1], M[j][0]) for j in range(nd)])
        lo, up = O.box(call)
        if call["opts"].get("constraints") == "Reject":
            start = np.clip(start, lo, up)
    big = {"mode": "seq", "sim": dict(case["sim"], max_steps=10**7), "seed": case["seed"], "calls": []}
    for k in range(n):
        c = dict(call, x0=start[k].tolist(), opts=dict(call["opts"]), x0kind="array")
        if case["seeded"]:
            c["opts"]["seed"] = (case["seed"] + k * 7919) % 2**31
        big["calls"].append(c)
    h = ctx.run(big)
    v = O.trouble(h)
    if v:
        return v
    X = np.array([rec.res["xall"] for rec in h.recs])       # chains, steps, dimensions
    K = X.shape[1]
    moved = (np.diff(X, axis=1) != 0).any(axis=2)
    ctx.info["nt"] = bool(moved.any() and not moved.all())
    ctx.count("chains", n)
    ctx.count("samples", n * K)
    if rot:
        Y = np.array([f.white(x) for x in X.reshape(-1, nd)]).reshape(X.shape)
        from statistics import NormalDist
        cdf = lambda y: 0.5 * (1.0 + np.array([math.erf(t) for t in y.ravel() / math.sqrt(2.0)])).reshape(y.shape)
        P = cdf(Y)
    else:
        Z = (X - f.mid) / f.half
        P = np.stack([np.interp(Z[:, :, j], M[j][0], M[j][1]) for j in range(nd)], axis=2)
    worst = (0.0, "")
    last, avg = P[:, -1], P[:, 1:]
    for j in range(nd):
        for q in Q:
            i0 = (P[:, 0, j] <= q) * 1.0
            il = (last[:, j] <= q) * 1.0
            im = (avg[:, :, j] <= q).mean(axis=1)
            for name, t in (("last samples", il - q), ("all samples", im - q), ("last minus first samples", il - i0),
                            ("all minus first samples", im - i0)):
                worst = max(worst, score(t, "coordinate %d, quantile %g, %s" % (j, q, name)))
    for j in range(nd):
        for l in range(j):
            t = ((avg[:, :, j] <= 0.5) == (avg[:, :, l] <= 0.5)).mean(axis=1) - 0.5
            worst = max(worst, score(t, "joint law of coordinates %d and %d" % (l, j)))
    ctx.info["z"] = worst[0]
    if worst[0] > ZMAX:
        return [("distribution", "%d chains of %s: %s deviates by %.1f standard deviations (%s)"
                 % (n, call["method"], call["obj"]["kind"], worst[0], worst[1]))]
    return []


def score(t, what):
    n = len(t)
    m = t.mean()
    s = t.std()
    if s < 0.02:
        s = 0.02
    return (abs(m) / s * math.sqrt(n), "%s: %+.3f" % (what, m))


def valid(case):
    c = case["calls"][0]
    return len(c["bounds"]) > 1 or c["obj"]["kind"] != "gauss2"


def nontrivial(ctx, case):
    return bool(ctx.info.get("nt"))
