"""DE trial vectors and replacements follow the documented strategy."""
import itertools

import numpy as np

from .. import gen as G
from .. import oracles as O
from ..stats import Martingale

ID = "C16"
KEEP = ("callback",)
RUNS = {"quick": 3000, "thorough": 80000}
RULE = ("one case = one random serial DE run watched through a callback; every trial is explained by enumerating all choices of "
        "distinct donors the strategy allows in the population of that moment, every replacement by comparing values; "
        "non-trivial when trials were both accepted and rejected over at least two generations")
ASSUMPTIONS = ["parallel runs are covered through C01 (same result as the serial deferred run)"]
BIG = 60    # larger populations only with best1bin and no constraints, their donors not counted
_combos = {}


def combos(strategy, p, i):
    """Donor index arrays (base or -1 for the best, plus indices, minus indices)."""
    k = (strategy, p, i)
    if k not in _combos:
        o = [j for j in range(p) if j != i]
        out = []
        if strategy == "rand1bin":
            out = [((a,), (b,), (c,)) for a, b, c in itertools.permutations(o, 3)]
        elif strategy == "best1bin":
            out = [((-1,), (a,), (b,)) for a, b in itertools.permutations(o, 2)]
        else:
            for q in itertools.combinations(o, 4):
                for plus in itertools.combinations(q, 2):
                    minus = tuple(x for x in q if x not in plus)
                    if strategy == "best2bin":
                        out.append(((-1,), plus, minus))
                    else:
                        out += [((a,), plus, minus) for a in o if a not in q]
        _combos[k] = tuple(np.array(x) for x in zip(*out))
    return _combos[k]


def gen(r, i, tier):
    st = G.pick(r, ("rand1bin", "rand2bin", "best1bin", "best2bin"))
    p = G.pick(r, (G.MINPOP[st], 6, 7, 8))
    if r.random() < 0.15:
        p = G.pick(r, {"best1bin": (10, 16, 40), "rand1bin": (10, 16), "best2bin": (9, 10), "rand2bin": (9,)}[st])
    if st == "best1bin" and r.random() < 0.05:
        p = G.pick(r, (140, 300))
    c = G.gen_call(r, methods=("de",), seed="maybe", callback=True, popsize=max(p, G.MINPOP[st]), rets=False,
                   maxiter=G.pick(r, (2, 3, 5, 8, 12, 25)), ftol=-1e300 if r.random() < 0.9 else None)
    o = c["opts"]
    if r.random() < 0.9:
        o["strategy"] = st
    else:
        o.pop("strategy", None)
    o["popsize"] = p if "strategy" in o else max(p, 4)
    if c.get("x0") is not None and len(c["x0"]) != o["popsize"]:
        c["x0"] = [G.inside(r, c["bounds"]) for _ in range(o["popsize"])]
    if r.random() < 0.2:
        o["maxiter"] = G.pick(r, (40, 80, 80, 250))
        o["recombination"] = G.pick(r, (0.0, 0.3, 0.7, 1.0))
    if p > BIG:
        o["maxiter"] = G.pick(r, (2, 3, 4))
        o["constraints"] = None
    o["xtol"] = 0.0
    return G.case(r, [c])


def check(ctx, case):
    h = ctx.run(case)
    v = O.trouble(h)
    if v:
        return v
    rec, call = h.rec, case["calls"][0]
    o = call["opts"]
    p = O.popsize(call)
    strategy = o.get("strategy", "best1bin")
    F, CR = float(o.get("mutation", 0.5)), float(o.get("recombination", 0.9))
    immediate = not O.is_sync(call)
    rnd = o.get("constraints") == "Random"
    lo, up = O.box(call)
    E, V = O.xs(rec.evals), O.vals(rec.evals)
    nd = E.shape[1]
    ngen = len(E) // p
    if len(E) != ngen * p or len(rec.cbs) != ngen:
        return [("history", "%d evaluations and %d callbacks for population %d" % (len(E), len(rec.cbs), p))]
    X, fit = E[:p].copy(), V[:p].copy()
    if not np.array_equal(rec.cbs[0]["X"], X):
        return [("population", "first population shown is not the one evaluated")]
    acc = rej = 0
    # per coordinate; against the previous trial's choice; against the previous coordinate's choice
    M = [Martingale() for _ in range(nd)], Martingale(), Martingale(), [None], {}
    res = []
    for g in range(1, ngen):
        Xg, fg = X.copy(), fit.copy()
        Xa = rec.cbs[g]["X"]
        for i in range(p):
            U, f = E[g * p + i], V[g * p + i]
            S, fs = (X, fit) if immediate else (Xg, fg)
            best = np.unique(S[fs == fs.min()], axis=0)
            msg = trial(strategy, F, CR, S, i, U, best, rnd, lo, up, M, res)
            if msg:
                return [(msg[0], "generation %d, trial %d (%s, %s, mutation %g, recombination %g): %s"
                         % (g + 1, i, strategy, "immediate" if immediate else "deferred", F, CR, msg[1]))]
            took, kept = np.array_equal(Xa[i], U), np.array_equal(Xa[i], X[i])
            if f < fit[i] and not took or f > fit[i] and not kept or not (took or kept):
                return [("replacement", "generation %d, member %d: value %r, trial %r, %s"
                         % (g + 1, i, float(fit[i]), float(f), "replaced" if took and not kept else "kept" if kept else "something else"))]
            if took and not kept or f < fit[i]:
                acc += 1
                X[i], fit[i] = U, f
            else:
                rej += 1
    ctx.info["nt"] = acc > 0 and rej > 0 and ngen > 2
    ctx.count("trials", acc + rej)
    for j in range(nd):
        if M[0][j].bad():
            return [("crossover", "coordinate %d changed %+.1f times more often than recombination=%g explains in %d trials"
                     % (j, M[0][j].s, CR, M[0][j].n))]
    for (role, by, k), m in sorted(M[4].items()):
        if m.bad():
            return [("donors", "the member %s %d is used as %s %+.1f times too often in %d trials"
                     % ({"k": "number", "d": "at offset"}.get(by, "after the " + by + " by"), k, role, m.s, m.n))]
    if M[1].bad():
        return [("crossover", "coordinates follow the choice made for the previous trial %+.1f times too often in %d choices"
                 % (M[1].s, M[1].n))]
    if M[2].bad():
        return [("crossover", "coordinates follow the choice made for the preceding coordinate %+.1f times too often in %d trials"
                 % (M[2].s, M[2].n))]
    if res:
        u = np.array([(x - lo[j]) / (up[j] - lo[j]) for j, x in res if up[j] - lo[j] > 1e-6 * (abs(lo[j]) + abs(up[j]))])
        n = len(u)
        ctx.count("resampled", n)
        if n and abs(u.sum() - 0.5 * n) > np.sqrt(0.5 * 34.0 * n):
            return [("resampling", "mean of %d resampled coordinates is %.3f of the way through the box" % (n, u.mean()))]
        if n - len(np.unique(u)) >= 3:
            return [("resampling", "only %d different values among %d resampled coordinates" % (len(np.unique(u)), n))]
    return []


def donors(strategy, S, i, W, tol, ok, M):
    """Every member other than the target is a donor equally often."""
    p = len(S)
    if len(ok) != len(combos(strategy, p, i)[0]):        # tied best members
        return
    W = np.sort(W, axis=0)
    if (np.diff(W, axis=0) <= 4 * tol).any() or (np.abs(W - S[i]) <= tol).any():
        return
    base, plus, minus = (c[np.flatnonzero(ok)[0]] for c in combos(strategy, p, i))
    roles = [("base", base), ("added donor", plus), ("subtracted donor", minus)]
    for role, idx in roles[1:] if base[0] == -1 else roles:
        for k in range(p):
            if k != i:
                for key in ((role, "k", k), (role, "d", (k - i) % p)):
                    M.setdefault(key, Martingale()).add(k in idx, len(idx) / (p - 1.0))
    used = set(plus) | {i} | (set(base) if base[0] != -1 else set())
    for k in range(p):
        if k not in used:
            M.setdefault(("subtracted donor", "added donor", (k - plus[0]) % p), Martingale()).add(
                k in minus, len(minus) / float(p - len(used)))


def prefix(nd, CR, j, k):
    """Probability of one given pattern with k mutant coordinates among the first j of nd."""
    q = (nd - j) * CR ** k * (1.0 - CR) ** (j - k)
    if k:
        q += k * CR ** (k - 1) * (1.0 - CR) ** (j - k)
    return q / nd


def trial(strategy, F, CR, S, i, U, best, rnd, lo, up, M, res):
    nd = len(U)
    if len(S) > BIG:
        return big_trial(F, CR, S, i, U, best)
    base, plus, minus = combos(strategy, len(S), i)
    if len(best) > 1 and len(best) * len(plus) > 30000:
        return None                     # a flat objective: too many equally good members to tell the trial's best
    D = S[plus].sum(axis=1) - S[minus].sum(axis=1)
    same = U == S[i]
    scale = np.abs(S).max(axis=0)
    tol = 1e-10 * (np.ptp(S, axis=0) * (1 + F) + 1e-3 * scale) + 1e-300
    if strategy.startswith("best"):
        W = np.concatenate([b + F * D for b in best])
    else:
        W = S[base[:, 0]] + F * D
    # which coordinates of U can come from the mutant
    can = np.abs(W - U) <= tol
    out = np.zeros_like(can)
    if rnd:
        out = ((W < lo + tol) | (W > up - tol)) & (U >= lo) & (U <= up)
        strict = (W < lo - tol) | (W > up + tol)
        can = np.where(strict, False, can) | out
    ok = (can | same).all(axis=1)
    if CR == 0.0:
        # exactly one coordinate from the mutant
        ok &= ((~same).sum() <= 1) & can.any(axis=1)
    elif CR == 1.0:
        ok &= can.all(axis=1)
    else:
        ok &= can.any(axis=1)
    if not ok.any():
        d = np.where(same, 0.0, np.abs(W - U)).max(axis=1)
        return ("trial", "%s from target %s is no mix of the target and a mutant of distinct members (nearest mutant departs by %.3g)"
                % (O.fmt(U), O.fmt(S[i]), float(d.min())))
    if not rnd:
        donors(strategy, S, i, W, tol, ok, M[4])
    # crossover frequency: only where a mutant coordinate always differs from the target's
    if not (np.abs(W - S[i]) <= tol).any():
        pr = 1.0 / nd + (1.0 - 1.0 / nd) * CR
        k = 0
        for j in range(nd):
            hit = not same[j]
            M[0][j].add(hit, pr)
            q0, q1 = prefix(nd, CR, j, k), prefix(nd, CR, j + 1, k + 1)
            if q0 > 0.0:
                if M[3][0] is not None:
                    M[1].add(hit, q1 / q0, 1.0 if M[3][0][j] else -1.0)
                if j:
                    M[2].add(hit, q1 / q0, -1.0 if same[j - 1] else 1.0)
            k += hit
        M[3][0] = ~same
    if rnd:
        for j in range(nd):
            if not same[j] and (out[ok][:, j]).all() and not (np.abs(W[ok][:, j] - U[j]) <= tol[j]).any():
                res.append((j, float(U[j])))
    return None


def big_trial(F, CR, S, i, U, best):
    """best1bin without constraints in a large population: the donors are looked up by one coordinate."""
    same = U == S[i]
    if same.all() and CR < 1.0:
        return None
    tol = 1e-10 * (np.ptp(S, axis=0) * (1 + F) + 1e-3 * np.abs(S).max(axis=0)) + 1e-300
    j = int(np.argmin(same))
    W = best[:, None, None, j] + F * (S[:, None, j] - S[None, :, j])
    k, a, b = np.nonzero(np.abs(W - U[j]) <= tol[j])
    ok = (a != b) & (a != i) & (b != i)
    k, a, b = k[ok], a[ok], b[ok]
    can = np.abs(best[k] + F * (S[a] - S[b]) - U) <= tol
    if not (can if CR == 1.0 else can | same).all(axis=1).any() or CR == 0.0 and (~same).sum() > 1:
        return ("trial", "%s from target %s is no mix of the target and a mutant of distinct members" % (O.fmt(U), O.fmt(S[i])))
    return None


def nontrivial(ctx, case):
    return bool(ctx.info.get("nt"))
