"""Every way of making the same call, watched or not, runs the same search."""
import copy

from .. import gen as G
from .. import oracles as O
from ..scenario import num_same

ID = "C25"
KEEP = ("workers", "updating")
RUNS = {"quick": 3400, "thorough": 120000}
RULE = ("one case = one random call simulated twice, the second time through another entry point, by position, with options left out "
        "or spelled out, seeded through the generator's state, or without callback, xall and funall; evaluated points, values and results "
        "are compared bit for bit; non-trivial when the second call differs in at least two respects")
ASSUMPTIONS = ["the objective is deterministic and does not draw from numpy's generator"]

COMMON = {"maxiter": 100, "seed": None, "constraints": None}
OPT = dict(COMMON, popsize=10, xtol=1e-8, ftol=1e-8, workers=1, backend=None, return_all=False, verbosity=1.0)
SWARM = dict(OPT, inertia=0.7298, cognitivity=1.49618, sociability=1.49618, updating="immediate")
EVO = dict(OPT, sigma=0.1, muperc=0.5)
DEFAULTS = {
    "de": dict(OPT, mutation=0.5, recombination=0.9, strategy="best1bin", updating="immediate"),
    "pso": SWARM, "cpso": dict(SWARM, competitivity=1.0), "na": dict(OPT, nrperc=0.5),
    "cmaes": EVO, "vdcma": EVO,
    "mcmc": dict(COMMON, stepsize=0.1, perc=1.0, return_all=True),
    "hmc": dict(COMMON, nleap=10, stepsize=0.01, jac=None, finite_diff_abs_step=1e-4, return_all=True),
}
DEFAULTS["na"].pop("constraints")
ORDER = ("x0", "args")


def gen(r, i, tier):
    mi = G.pick(r, (1, 2, 3, 5, 8, 12, 20) if tier == "quick" else (1, 2, 3, 5, 8, 12, 20, 40))
    c = G.gen_call(r, methods=G.ALL, seed="maybe", maxiter=mi)
    m, o = c["method"], c["opts"]
    d = DEFAULTS[m]
    mode, sim = "seq", {"rng": r.randrange(2**31)}
    if m in G.OPTIMIZERS and r.random() < 0.2:
        mode, sim = G.parallel_world(r, c, kinds=("threading", "loky"))
    # set some options to their documented defaults, spelled out or left out
    for k in sorted(d):
        if k in ("seed", "workers", "backend", "jac") or r.random() > 0.45:
            continue
        if k == "popsize":
            if c.get("x0") and len(c["x0"]) != 10:
                continue
            if m in G.EVO and int(o.get("muperc", 0.5) * 10) < (2 if m == "vdcma" else 1):
                continue
            if m == "de" and G.MINPOP[o.get("strategy", "best1bin")] > 10:
                continue
        if k == "strategy" and o.get("popsize", 10) < 3:
            continue
        if k == "muperc" and int(0.5 * o.get("popsize", 10)) < 2:
            continue
        if k == "maxiter" and r.random() < 0.6:
            continue
        if k == "stepsize":
            c.pop("stepkind", None)
        o[k] = d[k]
        if r.random() < 0.5:
            o.pop(k)
    if m == "de" and o.get("strategy", "best1bin") == "best1bin" and o.get("popsize", 10) < 3:
        o["popsize"] = 3
        c.pop("x0", None)
    tol = None
    if r.random() < 0.07:       # a run that ends because of its tolerances, at the edge of their defaults
        tol = G.pick(r, ("xtol", "ftol"))
        c, mode, sim = converging(r, tol), "seq", {"rng": r.randrange(2**31)}
        m, o = c["method"], c["opts"]
        d = DEFAULTS[m]
    if r.random() < 0.04:       # a call with next to no options
        c["opts"] = o = {k: o[k] for k in o if k in ("maxiter", "seed") and r.random() < 0.5}
        c.pop("stepkind", None)
        c.pop("x0", None)
        c["null"] = r.random() < 0.5
        sim, mode = {"rng": r.randrange(2**31)}, "seq"
        if m == "vdcma" and not o:
            o["maxiter"] = mi
    # the other call
    w = {"flip": [k for k in sorted(d) if k != "jac" and r.random() < 0.5]}
    if tol and tol not in w["flip"]:
        w["flip"].append(tol)
    w["api"] = G.pick(r, ("generic", "direct", "positional", "positional-direct", "short"))
    if r.random() < 0.5:
        w["callback"] = not c["callback"]
    if r.random() < 0.3:
        w["numpy_opts"] = not c.get("numpy_opts", False)
    if r.random() < 0.5:
        w["return_all"] = not o.get("return_all", d["return_all"])
    if r.random() < 0.5 and m in G.OPTIMIZERS:
        w["verbosity"] = G.pick(r, (0.0, 0.3, 1.0))
    if "seed" in o and r.random() < 0.4:
        w["seed"] = "state"
    if m in G.OPTIMIZERS and o.get("workers", 1) in (0, 1) and o.get("backend") != "mpi":
        if r.random() < 0.3:
            w["workers"] = G.pick(r, (0, 1))
        if r.random() < 0.3:
            w["backend"] = G.pick(r, ("threading", "loky", None))
    case = G.case(r, [c], mode, sim)
    case["way"] = w
    return case


def converging(r, tol):
    """A smooth problem whose last steps have about the length of the default tolerance."""
    m = G.pick(r, ("pso", "cpso", "cpso", "de", "na", "cmaes", "vdcma"))
    n = G.pick(r, (1, 2, 3)) if m != "vdcma" else G.pick(r, (2, 3))
    o = {"maxiter": 400, "seed": r.randrange(2**31), "popsize": G.pick(r, (6, 10))}
    if m not in G.EVO and m != "na":
        o["updating"] = G.pick(r, ("immediate", "deferred"))
    if tol == "xtol":
        o["ftol"] = 10.0 ** r.uniform(-16.5, -12.5)
    else:
        o["xtol"] = G.pick(r, (0.0, 1e-2, 1e-8))
    return {"method": m, "bounds": [[-1.0, 1.0]] * n, "callback": r.random() < 0.3, "opts": o, "api": "generic",
            "obj": {"kind": "quad", "c": [r.uniform(-0.5, 0.5) for _ in range(n)], "w": [1.0] * n, "salt": 0}}


def other(case):
    s = copy.deepcopy(case)
    w = s.pop("way")
    c = s["calls"][0]
    o, d = c["opts"], DEFAULTS[c["method"]]
    for k in ("return_all", "verbosity", "workers", "backend"):
        if k in w:
            o[k] = w[k]
    if "callback" in w:
        c["callback"] = w["callback"]
    if "numpy_opts" in w:
        c["numpy_opts"] = w["numpy_opts"]
    for k in w["flip"]:
        if k not in o:
            o[k] = d[k]
        elif same_value(o[k], d[k]):
            o.pop(k)
    if w.get("seed") == "state" and o.get("seed") is not None:
        s["sim"]["rng"] = o.pop("seed")
    c["api"] = w["api"]
    if w["api"] == "short" and c["method"] not in ("de", "mcmc"):
        c["api"] = "direct"
    return s


def same_value(a, b):
    return type(a) is not list and type(a) is type(b) and a == b


def check(ctx, case):
    h = ctx.run(case)
    v = O.trouble(h)
    if v:
        return v
    s = other(case)
    h2 = ctx.run(s)
    v = O.trouble(h2)
    if v:
        return [(v[0][0], "second way (%s): %s" % (describe(case, s), v[0][1]))]
    a, b = h.rec, h2.rec
    n = sum(x != y for x, y in ((case["calls"][0].get(k), s["calls"][0].get(k)) for k in ("api", "callback", "opts")))
    ctx.info["nt"] = n >= 2
    what = None
    par = O.is_parallel(case["calls"][0])
    ea, eb = a.evals, b.evals
    if par:                     # completion order depends on the schedule
        key = lambda e: (e.x.tobytes(), repr(e.val))
        ea, eb = sorted(ea, key=key), sorted(eb, key=key)
    if len(ea) != len(eb):
        what = "%d evaluations / %d" % (len(ea), len(eb))
    else:
        for i, (p, q) in enumerate(zip(ea, eb)):
            if p.x.tobytes() != q.x.tobytes() or not O.eqf(p.val, q.val):
                what = "evaluation %d at %s (%r) / %s (%r)" % (i + 1, O.fmt(p.x), p.val, O.fmt(q.x), q.val)
                break
    if what is None:
        rec = ("xall", "funall")
        ra, rb = a.res, b.res
        fa, fb = ({k for k in x if k not in rec} for x in (ra, rb))
        if fa != fb:
            what = "fields %s / %s" % (sorted(fa), sorted(fb))
        for k in sorted(fa & fb):
            if what is None and not num_same(ra[k], rb[k]):
                what = "field %s is %r / %r" % (k, ra[k], rb[k])
    if what is None and a.cb is not None and b.cb is not None:
        if len(a.cbs) != len(b.cbs):
            what = "%d callbacks / %d" % (len(a.cbs), len(b.cbs))
        else:
            for i, (p, q) in enumerate(zip(a.cbs, b.cbs)):
                if not num_same(p["X"], q["X"]) or not num_same(slim(p["state"]), slim(q["state"])):
                    what = "callback %d differs" % (i + 1)
                    break
    if what is None and type(a.res_ref).__name__ != type(b.res_ref).__name__:
        what = "result types %s / %s" % (type(a.res_ref).__name__, type(b.res_ref).__name__)
    if what:
        return [("differs", "%s; second way: %s" % (what[:500], describe(case, s)))]
    return []


def slim(s):
    return {k: v for k, v in s.items() if k not in ("xall", "funall")}


def describe(a, b):
    x, y = a["calls"][0], b["calls"][0]
    out = []
    for k in ("api", "callback", "numpy_opts"):
        if x.get(k) != y.get(k):
            out.append("%s %r instead of %r" % (k, y.get(k), x.get(k)))
    o, p = x["opts"], y["opts"]
    for k in sorted(set(o) | set(p)):
        if k not in p:
            out.append("%s=%r left out" % (k, o[k]))
        elif k not in o:
            out.append("%s=%r spelled out" % (k, p[k]))
        elif o[k] != p[k]:
            out.append("%s=%r instead of %r" % (k, p[k], o[k]))
    return ", ".join(out) or "the same"


def nontrivial(ctx, case):
    return bool(ctx.info.get("nt"))
