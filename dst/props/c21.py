"""CMA-ES and VD-CMA sample from the distribution their update equations prescribe."""
import math

import numpy as np

from .. import gen as G
from .. import oracles as O
from ..stats import Bounded, Moments, binomial_bad

ID = "C21"
KEEP = ("x0",)
RUNS = {"quick": 2200, "thorough": 40000}
CONFIRM = 40
SCREEN = 4.0
RULE = ("one case = one random unconstrained CMA-ES run from a known x0 replayed by a reference model of the tutorial's update equations "
        "(candidates whitened by the model's mean, step size and covariance must be independent standard normal draws; a suspicious run "
        "is confirmed on an ensemble of 40 fresh ones before it is reported), or one VD-CMA run (candidates centred on the weighted "
        "recombination, first two mirrored along its last step); non-trivial when ten generations were replayed")
ASSUMPTIONS = ["runs are followed until values tie or steps come within a factor 1e6 of rounding error",
               "with constraints='Penalize' the infeasible candidates are not observable, so those runs are followed until one is met",
               "VD-CMA's random start vector is the first normal draw of the run (checked against the first generation; otherwise only "
               "first generations are judged); its updates are replayed for more than five dimensions, where its rates are positive"]


def gen(r, i, tier):
    m = "vdcma" if r.random() < 0.25 else "cmaes"
    c = G.gen_call(r, methods=(m,), seed="none", constraints=None, callback=False, kinds=("quad", "rosen", "rastrigin", "stybl", "linear", "abs"),
                   values=False, rets=False, maxiter=G.pick(r, (25, 50, 50, 80)), popsize=G.pick(r, (4, 6, 8, 10, 14, 20)),
                   ndim=G.pick(r, (1, 2, 2, 3, 3, 4, 6)), ftol=-1e300, args=0.0)
    o = c["opts"]
    o.pop("seed", None)
    if r.random() < 0.3:
        o["muperc"] = 0.5
    if r.random() < 0.1:
        o.pop("sigma", None)
    if r.random() < 0.2:                        # large populations, few dimensions
        o["popsize"], o["muperc"], o["maxiter"] = G.pick(r, (40, 80, 120)), G.pick(r, (0.5, 0.75, 1.0)), 25
        nd = G.pick(r, (1, 1, 2, 3))
        c["bounds"] = c["bounds"][:nd]
        for k in ("c", "w"):
            c["obj"][k] = c["obj"][k][:nd]
    elif r.random() < 0.1:                      # recombination of all or of few
        o["popsize"], o["muperc"] = G.pick(r, (20, 30)), G.pick(r, (0.1, 1.0))
    if m == "vdcma" and r.random() < 0.6:
        nd = G.pick(r, (6, 6, 8, 12, 20))
        c["bounds"] = G.gen_bounds(r, nd)
        c["obj"] = G.gen_obj(r, nd, kinds=("quad", "quad", "rosen", "rastrigin", "stybl", "linear", "abs"), values=False, rets=False)
        if r.random() < 0.2:                    # large steps of the covariance
            o["popsize"], o["muperc"], o["maxiter"] = G.pick(r, (60, 120, 200)), G.pick(r, (0.5, 0.5, 1.0)), G.pick(r, (10, 15))
    o["xtol"] = 0.0
    if r.random() < 0.2:                        # nothing to repair for a while
        o["constraints"] = "Penalize"
        o["sigma"] = G.pick(r, (0.01, 0.03, 0.1))
        c["bounds"] = [[a - 10.0 * (b - a), b + 10.0 * (b - a)] for a, b in c["bounds"]]
    c["x0"] = G.inside(r, c["bounds"])
    c["x0kind"] = "array"
    return G.case(r, [c])


def check(ctx, case):
    call = case["calls"][0]
    h = ctx.run(case)
    v = O.trouble(h)
    if v:
        return v
    if call["method"] == "vdcma":
        v = vd(ctx, call, h.rec)
        if v or len(call["bounds"]) < 6:
            return v
        model = vd_follow
    else:
        model = lambda call, rec, st, rng: follow(call, rec, st)
    rng = case["sim"].get("rng", 12345)
    st = {}
    n, msg = model(call, h.rec, st, rng)
    if msg:
        return [msg]
    ctx.info["nt"] = n >= 10
    ctx.count("generations", n)
    if not verdict(st, SCREEN):
        return []
    ctx.count("confirmations")
    st = {}
    for k in range(CONFIRM):
        rg = (rng * 31 + 7919 * (k + 1)) % 2**31
        h = ctx.run(dict(case, sim=dict(case["sim"], rng=rg)))
        v = O.trouble(h)
        if v:
            return v
        n, msg = model(call, h.rec, st, rg)
        if msg:
            return [msg]
    bad = verdict(st, 32.0)
    if bad:
        return [("distribution", "candidates whitened by the reference model, %s (ndim %d, popsize %d, %d runs)" % (
            bad, len(call["bounds"]), O.popsize(call), CONFIRM))]
    return []


def feasible(call, E):
    """Number of generations before the first one with a (possibly) repaired candidate."""
    if call["opts"].get("constraints") != "Penalize":
        return len(E)
    lo, up = O.box(call)
    tol = 1e-9 * (np.abs(lo) + np.abs(up))
    out = ((E <= lo + tol) | (E >= up - tol)).any(axis=(1, 2))
    return int(out.argmax()) if out.any() else len(E)


def verdict(st, lim):
    for k in sorted(st):
        b = st[k].bad(lim)
        if b:
            return "%s: %s instead of independent standard normal draws" % (k, b)
    return None


def follow(call, rec, st):
    o = call["opts"]
    lo, up = O.box(call)
    p, nd = O.popsize(call), len(lo)
    half, mid = 0.5 * (up - lo), 0.5 * (up + lo)
    E, F = O.xs(rec.evals), O.vals(rec.evals)
    if len(E) % p:
        return 0, ("history", "%d evaluations for population %d" % (len(E), p))
    ng = feasible(call, E.reshape(-1, p, nd))
    X = ((E - mid) / half).reshape(-1, p, nd)
    F = F.reshape(-1, p)
    err = 1e-15 * (1.0 + np.abs(mid) / half)
    mu = int(float(o.get("muperc", 0.5)) * p)
    w = np.log(mu + 0.5) - np.log(np.arange(1, mu + 1))
    w /= w.sum()
    me = 1.0 / (w ** 2).sum()
    cc = (4 + me / nd) / (nd + 4 + 2 * me / nd)
    cs = (me + 2) / (nd + me + 5)
    c1 = 2 / ((nd + 1.3) ** 2 + me)
    cmu = min(1 - c1, 2 * (me - 2 + 1 / me) / ((nd + 2) ** 2 + me))
    damps = 1 + 2 * max(0.0, math.sqrt((me - 1) / (nd + 1)) - 1) + cs
    chi = math.sqrt(nd) * (1 - 1 / (4.0 * nd) + 1 / (21.0 * nd ** 2))
    m = (np.array(call["x0"], dtype=float) - mid) / half
    s = float(o.get("sigma", 0.1))
    pc, ps, C = np.zeros(nd), np.zeros(nd), np.eye(nd)
    B, D = np.eye(nd), np.ones(nd)
    last, step = 0, None

    def add(k, z):
        mm = st.setdefault(k, Moments())
        for v in np.ravel(z):
            mm.add(float(v))

    for g in range(ng):
        if s * D.min() < 1e6 * err.max() or not D.max() < 1e7 * D.min() or not np.abs(X[g]).max() < 1e8:
            return g, None
        Y = (X[g] - m) / s
        Z = Y @ B / D                       # principal axes
        if np.abs(Z).max() > 12.0:
            return g, ("distribution", "generation %d: candidate %d is %.1f standard deviations of the reference model from its mean" % (
                g + 1, int(np.abs(Z).max(axis=1).argmax()), float(np.abs(Z).max())))
        late = "first generations" if g < 5 else "later generations"
        add("all coordinates, " + late, Z)
        add("all coordinates", Z)
        add("longest axis", Z[:, D.argmax()])
        add("shortest axis", Z[:, D.argmin()])
        zb = Z.mean(axis=0) * math.sqrt(p)
        add("mean of a generation", zb)
        for name, d in (("evolution path", pc), ("last step of the mean", step)):
            if d is not None and np.abs(d).max() > 0.0:
                u = (d @ B) / D
                u /= np.linalg.norm(u)
                add("along the " + name, Z @ u)
                add("mean of a generation along the " + name, zb @ u)
        if p > 1:
            # products of consecutive draws: fair signs
            add_sign(st, "consecutive candidates", Z[1:] * Z[:-1])
        if nd > 1:
            add_sign(st, "consecutive axes", Z[:, 1:] * Z[:, :-1])
        add_tail(st, Z)
        if len(np.unique(F[g])) < p or not np.isfinite(F[g]).all():
            return g, None
        best = np.argsort(F[g])[:mu]
        old = m
        m = w @ X[g][best]
        step = m - old
        isq = (B / D) @ B.T
        ps = (1 - cs) * ps + math.sqrt(cs * (2 - cs) * me) * (isq @ step) / s
        hs = np.linalg.norm(ps) / math.sqrt(1 - (1 - cs) ** (2.0 * (g + 1))) / chi < 1.4 + 2.0 / (nd + 1)
        pc = (1 - cc) * pc + (math.sqrt(cc * (2 - cc) * me) * step / s if hs else 0.0)
        A = (X[g][best] - old) / s
        C = ((1 - c1 - cmu) * C + c1 * (np.outer(pc, pc) + (0.0 if hs else cc * (2 - cc)) * C)
             + cmu * (A.T * w) @ A)
        s *= math.exp((cs / damps) * (np.linalg.norm(ps) / chi - 1))
        if (g + 1) * p - last > p / (c1 + cmu) / nd / 10.0:
            last = (g + 1) * p
            C = 0.5 * (C + C.T)
            ev, B = np.linalg.eigh(C)
            if not ev.min() > 0.0:
                return g, None
            D = np.sqrt(ev)
    return ng, None


class Signs:
    def __init__(self):
        self.k = self.n = 0

    def bad(self, lim):
        if self.n and binomial_bad(self.k, self.n, 0.5, lim=lim):
            return "products positive in %d of %d cases" % (self.k, self.n)
        return None


def add_sign(st, k, Q):
    b = st.setdefault("signs of " + k, Signs())
    q = np.ravel(Q)
    b.k += int((q > 0).sum())
    b.n += len(q)


class Tail:
    """Hits within half a standard deviation and beyond two."""

    def __init__(self):
        self.n = self.a = self.b = 0

    def bad(self, lim):
        if not self.n:
            return None
        for k, p, what in ((self.a, math.erf(0.5 / math.sqrt(2)), "within half a"), (self.b, 1 - math.erf(math.sqrt(2.0)), "beyond two")):
            if binomial_bad(k, self.n, p, lim=lim):
                return "%d of %d draws lie %s standard deviation(s) (expected %.0f)" % (k, self.n, what, p * self.n)
        return None


def add_tail(st, Z):
    t = st.setdefault("shape", Tail())
    z = np.abs(np.ravel(Z))
    t.n += len(z)
    t.a += int((z < 0.5).sum())
    t.b += int((z > 2.0).sum())


def vd(ctx, call, rec):
    o = call["opts"]
    lo, up = O.box(call)
    p, nd = O.popsize(call), len(lo)
    E, F = O.xs(rec.evals), O.vals(rec.evals)
    ng = feasible(call, E.reshape(-1, p, nd))
    half, mid = 0.5 * (up - lo), 0.5 * (up + lo)
    X = ((E - mid) / half).reshape(-1, p, nd)
    F = F.reshape(-1, p)
    err = 1e-14 * (1.0 + np.abs(mid) / half)
    mu = int(float(o.get("muperc", 0.5)) * p)
    w = np.log(mu + 0.5) - np.log(np.arange(1, mu + 1))
    w /= w.sum()
    m, dx = (np.array(call["x0"], dtype=float) - mid) / half, None
    side = [Bounded() for _ in range(nd)]
    n = 0
    for g in range(ng):
        Y = X[g] - m
        if not np.abs(X[g]).max() < 1e6:
            break
        if dx is not None:
            tol = 1e-9 * np.abs(Y[:2]).max() + 100 * err * (1 + np.abs(m))
            if (np.abs(Y[0] + Y[1]) > 2 * tol).any():
                return [("mirror", "generation %d: candidates 0 and 1 are %s and %s away from the weighted mean of the best %d "
                         "(not opposite)" % (g + 1, O.fmt(Y[0]), O.fmt(Y[1]), mu))]
            u = dx / np.linalg.norm(dx)
            off = Y[0] - (Y[0] @ u) * u
            if (np.abs(off) > 1e-6 * np.abs(Y[0]).max() + 100 * err * (1 + np.abs(m))).any():
                return [("mirror", "generation %d: candidate 0 departs by %s, not along the last step %s of the mean" % (
                    g + 1, O.fmt(Y[0]), O.fmt(dx)))]
            if Y[0] @ u <= 0.0 and np.linalg.norm(Y[0]) > 1e4 * err.max():
                return [("mirror", "generation %d: candidate 0 departs against the last step of the mean" % (g + 1))]
        k0 = 0 if dx is None else 2
        # every draw is as likely as its mirror image
        for j in range(nd):
            for y in Y[k0:, j]:
                side[j].add(0.5 if y > 0 else -0.5)
        if len(np.unique(F[g])) < p:
            break
        best = np.argsort(F[g])[:mu]
        new = w @ X[g][best]
        dx = new - m
        if np.linalg.norm(dx) < 1e6 * err.max():
            break
        m = new
        n += 1
    ctx.info["nt"] = n >= 10
    ctx.count("generations", n)
    for j in range(nd):
        if side[j].bad():
            return [("centre", "coordinate %d: %.0f of %d candidates more on one side of the weighted mean than on the other" % (
                j, 2 * abs(side[j].s), side[j].n))]
    return []


def natural(v, d, y, w):
    """Natural gradient of the weighted log-likelihood of steps y (in units of d) in (v, d), as in Akimoto et al. 2014."""
    n2 = float(v @ v)
    nv = math.sqrt(n2)
    vn = v / nv
    vv = vn * vn
    a = math.sqrt(n2 * n2 + (1 + n2) / vv.max() * (2 - 1 / math.sqrt(1 + n2))) / (2 + n2)
    b = 0.0
    if a < 1:
        b = (4 - (2 - 1 / math.sqrt(1 + n2)) / vv.max()) / (1 + 2 / n2) ** 2
    else:
        a = 1.0
    b = 2 * a * a - b
    t = y @ vn
    P = w @ (y * y - n2 / (1 + n2) * t[:, None] * y * vn - 1)
    Q = w @ (t[:, None] * y - 0.5 * np.outer(t * t + 1 + n2, vn))
    A = 2 - (b + 2 * a * a) * vv
    r = P - a / (1 + n2) * ((2 + n2) * Q * vn - n2 * (vn @ Q) * vv)
    s = r / A - b * (r @ (vv / A)) / (1 + b * (vv @ (vv / A))) * vv / A
    return Q / nv - a / nv * ((2 + n2) * vn * s - (s @ vv) * vn), d * s


def vd_follow(call, rec, st, rng):
    """Replay VD-CMA: covariance D (I + v v') D, natural-gradient updates, two-point step-size adaptation."""
    o = call["opts"]
    lo, up = O.box(call)
    p, nd = O.popsize(call), len(lo)
    half, mid = 0.5 * (up - lo), 0.5 * (up + lo)
    E, F = O.xs(rec.evals), O.vals(rec.evals)
    ng = feasible(call, E.reshape(-1, p, nd))
    X = ((E - mid) / half).reshape(-1, p, nd)
    F = F.reshape(-1, p)
    err = 1e-15 * (1.0 + np.abs(mid) / half)
    mu = int(float(o.get("muperc", 0.5)) * p)
    w = np.log(mu + 0.5) - np.log(np.arange(1, mu + 1))
    w /= w.sum()
    me = 1.0 / (w ** 2).sum()
    f = (nd - 5.0) / 6.0
    cc = (4 + me / nd) / (nd + 4 + 2 * me / nd)
    c1 = f * 2 / ((nd + 1.3) ** 2 + me)
    cmu = min(1 - c1, f * 2 * (me - 2 + 1 / me) / ((nd + 2) ** 2 + me))
    m, s = (np.array(call["x0"], dtype=float) - mid) / half, float(o.get("sigma", 0.1))
    rs = np.random.RandomState(rng)
    v, d = rs.randn(nd) / math.sqrt(nd), np.ones(nd)
    z0 = rs.randn(p, nd)
    pc, ps, dx = np.zeros(nd), 0.0, None

    def add(k, z):
        mm = st.setdefault(k, Moments())
        for x in np.ravel(z):
            mm.add(float(x))

    for g in range(ng):
        if s * d.min() < 1e6 * err.max() or not d.max() < 1e6 * d.min() or not np.abs(X[g]).max() < 1e8:
            return g, None
        n2 = float(v @ v)
        vn = v / math.sqrt(n2)
        y = (X[g] - m) / s / d
        Z = y + (1 / math.sqrt(1 + n2) - 1) * np.outer(y @ vn, vn)
        if g == 0 and np.abs(Z - z0).max() > 1e-6 * (1 + 1e6 * err.max() / s):
            # not the start vector assumed: over all start vectors, the mean square is 1 + 1 / ndim
            q = ((X[g] - m) / s) ** 2
            st.setdefault("first generation", Plain(1 + 1.0 / nd)).add(q.mean())
            return 0, None
        if dx is not None:
            r2 = float((Z[0] ** 2).sum())
            e = st.setdefault("length of the mirrored steps", Chi())
            e.n += nd
            e.s2 += r2
            e.k += 1
            e.mid += 0.25 < tail_chi2(r2, nd) < 0.75
            Z = Z[2:]
        if len(Z) and np.abs(Z).max() > 12.0:
            return g, ("distribution", "generation %d: candidate %d is %.1f standard deviations of the reference model from its mean" % (
                g + 1, int(np.abs(Z).max(axis=1).argmax()) + (2 if dx is not None else 0), float(np.abs(Z).max())))
        add("all coordinates, " + ("first generations" if g < 5 else "later generations"), Z)
        add("all coordinates", Z)
        add("along the principal vector", Z @ vn)
        add("widest coordinate", Z[:, d.argmax()])
        add("narrowest coordinate", Z[:, d.argmin()])
        if len(Z):
            zb = Z.mean(axis=0) * math.sqrt(len(Z))
            add("mean of a generation", zb)
            for name, u in (("evolution path", pc), ("last step of the mean", dx)):
                if u is not None and np.abs(u).max() > 0.0:
                    u = u / d
                    u = u + (1 / math.sqrt(1 + n2) - 1) * (u @ vn) * vn
                    u = u / np.linalg.norm(u)
                    add("along the " + name, Z @ u)
                    add("mean of a generation along the " + name, zb @ u)
            add_sign(st, "consecutive candidates", Z[1:] * Z[:-1])
            add_sign(st, "consecutive axes", Z[:, 1:] * Z[:, :-1])
            add_tail(st, Z)
        if len(np.unique(F[g])) < p or not np.isfinite(F[g]).all():
            return g, None
        order = np.argsort(F[g])
        rank = np.argsort(order)
        best = order[:mu]
        Y = (X[g] - m) / s
        new = w @ X[g][best]
        s_old = s
        ok = True
        if dx is not None:
            ps += 0.3 * ((rank[1] - rank[0]) / (p - 1.0) - ps)
            s *= math.exp(ps / math.sqrt(nd))
            ok = ps < 0.5
        dx = new - m
        m = new
        pc = (1 - cc) * pc + (math.sqrt(cc * (2 - cc) * me) * dx / s_old if ok else 0.0)
        gv, gd = natural(v, d, Y[best] / d, w)
        gv, gd = cmu * gv, cmu * gd
        if ok:
            hv, hd = natural(v, d, (pc / d)[None, :], np.ones(1))
            gv, gd = gv + c1 * hv, gd + c1 * hd
        f = min(1.0, 0.7 * math.sqrt(n2) / np.linalg.norm(gv), 0.7 * float((d / np.abs(gd)).min()))
        v, d = v + f * gv, d + f * gd
    return ng, None


class Chi:
    """A sum of squares of n standard normal draws."""

    def __init__(self):
        self.n = self.s2 = self.k = self.mid = 0

    def bad(self, lim):
        m = Moments()
        m.n, m.s2 = self.n, self.s2
        if self.k and binomial_bad(self.mid, self.k, 0.5, lim=lim):
            return "%d of %d lie between the quartiles" % (self.mid, self.k)
        return m.bad(lim)


def tail_chi2(x, n):
    """P(chi-square with an even number n of degrees of freedom > x)."""
    t = s = 1.0
    for k in range(1, n // 2):
        t *= 0.5 * x / k
        s += t
    return math.exp(-0.5 * x) * s if x < 1400 else 0.0


class Plain:
    """Independent values of known mean (and unknown, moderate spread)."""

    def __init__(self, mean):
        self.mean, self.x = mean, []

    def bad(self, lim):
        n = len(self.x)
        if n < 8:
            return "another start than expected" if lim < 10 else None
        x = np.array(self.x) - self.mean
        z = x.mean() / (x.std() + 0.05) * math.sqrt(n)
        return "mean square %.3g" % (x.mean() + self.mean) if abs(z) > math.sqrt(2 * lim) + 1 else None

    def add(self, x):
        self.x.append(float(x))


def nontrivial(ctx, case):
    return bool(ctx.info.get("nt"))
