"""Swarm-style scenario generation: every run draws its own configuration."""
import math

POP = ("de", "pso", "cpso", "na")
EVO = ("cmaes", "vdcma")
OPTIMIZERS = POP + EVO
SAMPLERS = ("mcmc", "hmc")
ALL = OPTIMIZERS + SAMPLERS
SMOOTH = ("quad", "rosen", "rastrigin", "stybl")
KINDS = ("quad", "quad", "rosen", "rastrigin", "stybl", "plateau", "steps", "const", "linear", "hash", "abs")
MINPOP = {"rand1bin": 4, "rand2bin": 6, "best1bin": 3, "best2bin": 5}


def pick(r, seq):
    return seq[r.randrange(len(seq))]


def gen_bounds(r, ndim, degenerate=False, scales=True):
    """A box: default-like, asymmetric, shifted, tiny or huge."""
    style = pick(r, ("sym", "asym", "mixed", "unit")) if scales else pick(r, ("sym", "unit"))
    b = []
    for _ in range(ndim):
        if style == "sym":
            h = pick(r, (5.12, 5.0, 1.0))
            b.append([-h, h])
        elif style == "unit":
            b.append([0.0, 1.0])
        elif style == "asym":
            lo = pick(r, (-3.0, 0.5, 2.0, -10.0, 100.0))
            b.append([lo, lo + pick(r, (0.5, 1.0, 7.0, 4.0))])
        else:
            lo = pick(r, (-1.0e3, -1.0, 0.0, 1.0e-3, 1.0e4, -2.5e-4))
            b.append([lo, lo + pick(r, (1.0e-3, 1.0, 30.0, 2.0e3))])
    if degenerate and ndim > 1 and r.random() < 0.35:
        j = r.randrange(ndim)
        b[j][1] = b[j][0]
        if r.random() < 0.2 and ndim > 2:
            j = r.randrange(ndim)
            b[j][1] = b[j][0]
    return b


def inside(r, bounds, style="uniform"):
    x = []
    for lo, hi in bounds:
        if style == "corner":
            v = lo if r.random() < 0.5 else hi
        elif style == "edge" and r.random() < 0.4:
            v = lo if r.random() < 0.5 else hi
        else:
            v = lo + (hi - lo) * r.random()
        x.append(min(max(v, lo), hi))
    return x


def gen_obj(r, ndim, kinds=KINDS, values=True, rets=True):
    k = pick(r, kinds)
    s = {"kind": k}
    s["c"] = [pick(r, (0.0, 0.3, -0.6, 0.9, r.uniform(-1, 1))) for _ in range(ndim)]
    if r.random() < 0.15:                       # optimum on or beyond the boundary
        s["c"] = [pick(r, (-1.0, 1.0, 1.5, -2.0)) for _ in range(ndim)]
    s["w"] = [pick(r, (1.0, 1.0, 0.2, 5.0)) for _ in range(ndim)]
    if k == "linear":
        s["w"] = [pick(r, (1.0, -1.0, 0.5, -2.0)) for _ in range(ndim)]
    s["salt"] = r.randrange(1000)
    if values and r.random() < 0.45:
        s["a"] = pick(r, (1.0, 1.0e-3, 1.0e6, 1.0e31, 1.0e-12, 7.0))
        s["b"] = pick(r, (0.0, 0.0, -5.0, 100.0, -1.0e9))
    if rets and r.random() < 0.3:
        s["ret"] = pick(r, ("np64", "mixint", "int", "0d", "np64"))
    return s


def gen_durations(r, rich=True):
    m = r.random()
    if not rich or m < 0.2:
        return {"mode": "zero"}
    if m < 0.35:
        return {"mode": "equal", "d": pick(r, (0.001, 1.0))}
    if m < 0.75:
        return {"mode": "random", "d": pick(r, (0.001, 0.05, 1.0, 60.0, 7200.0))}
    if m < 0.9:
        k = r.randrange(2, 4)
        return {"mode": "slowworker", "d": 0.5, "k": k, "r": r.randrange(k)}
    k = r.randrange(2, 8)
    return {"mode": "straggler", "d": 0.1, "k": k, "r": r.randrange(k)}


def gen_call(r, methods=ALL, constraints="any", sync=None, kinds=KINDS, values=True, rets=True,
             return_all=None, callback=None, seed="int", x0=0.35, maxiter=None, degenerate=True,
             boxes=True, ftol=None, args=0.3, containers=0.3, ndim=None, popsize=None):
    """One random call of a random method with random options."""
    m = pick(r, methods)
    nd = ndim or pick(r, (1, 2, 2, 3, 3, 4, 5, 6) if r.random() < 0.94 else (8, 12, 20) if r.random() < 0.9 else (33, 40))
    c = {"method": m, "api": pick(r, ("generic", "generic", "direct"))}
    c["bounds"] = gen_bounds(r, nd, degenerate=degenerate and m == "na", scales=boxes)
    o = c["opts"] = {}
    if maxiter is not None:
        o["maxiter"] = maxiter if not callable(maxiter) else maxiter(r)
    else:
        o["maxiter"] = pick(r, (1, 2, 3, 5, 8, 12, 12, 20, 30))
        if r.random() < 0.025:
            o["maxiter"] = pick(r, (60, 110, 150, 260)) if r.random() < 0.85 else pick(r, (600, 1100) if m in SAMPLERS else (530, 700))
    if seed == "int":
        o["seed"] = pick(r, (0, 1, 42, r.randrange(2**31), r.randrange(2**31), 2**32 - 1 - r.randrange(2)))
    elif seed == "maybe":
        if r.random() < 0.6:
            o["seed"] = pick(r, (0, 1, r.randrange(2**31)))
    elif seed == "none":
        if r.random() < 0.5:
            o["seed"] = None
    c["callback"] = (r.random() < 0.6) if callback is None else callback
    if c["callback"] and r.random() < 0.5:
        c["cbret"] = pick(r, (True, False, 0, 1, "stop", [0.0, 1.0]))
    if r.random() < 0.15:
        c["numpy_opts"] = True      # options given as numpy scalars
    ra = (r.random() < 0.7) if return_all is None else return_all
    if ra or m in SAMPLERS:
        o["return_all"] = bool(ra)
    c["obj"] = gen_obj(r, nd, kinds=kinds, values=values, rets=rets)
    if r.random() < args:
        c["args"] = pick(r, ([2.5], [0.0, "tag"], [-1.0, 3], [1.5, 0.25], [[1.0, 2.0, 3.0]], [None, 0.5], [[]], [True, 2.0, "a"]))
    bk = "array"
    if r.random() < containers:
        bk = pick(r, ("list", "tuple", "fortran", "view", "readonly"))
    c["bkind"] = bk
    if m in SAMPLERS:
        _sampler(r, c, o, nd, constraints, x0)
        return c
    ps = popsize or pick(r, (2, 3, 4, 5, 6, 6, 7, 8, 10, 13) if r.random() < 0.92 else (16, 24, 40, 100, 150))
    if o["maxiter"] > 50 and popsize is None:
        ps = min(ps, 10 if o["maxiter"] < 300 else 5)
    if ps > 90 and popsize is None and m != "na" and r.random() < 0.3:
        ps = pick(r, (260, 300))
        o["maxiter"] = min(o["maxiter"], 3)
    if m == "de":
        o["strategy"] = pick(r, ("rand1bin", "rand2bin", "best1bin", "best2bin"))
        if r.random() < 0.15:
            o.pop("strategy")
        ps = max(ps, MINPOP[o.get("strategy", "best1bin")])
        if r.random() < 0.6:
            o["mutation"] = pick(r, (0.0, 0.1, 0.5, 0.9, 1.3, 2.0, 1))
        if r.random() < 0.6:
            o["recombination"] = pick(r, (0.0, 0.1, 0.5, 0.9, 1.0, 1))
        if constraints == "any":
            o["constraints"] = pick(r, (None, "Random"))
        elif constraints:
            o["constraints"] = "Random"
    elif m in ("pso", "cpso"):
        if r.random() < 0.5:
            o["inertia"] = pick(r, (0.0, 0.4, 0.7298, 0.9, 1.0))
        if r.random() < 0.5:
            o["cognitivity"] = pick(r, (0.0, 0.5, 1.49618, 2.5, 4.0))
        if r.random() < 0.5:
            o["sociability"] = pick(r, (0.0, 0.5, 1.49618, 2.5, 4.0))
        if m == "cpso" and r.random() < 0.6:
            o["competitivity"] = pick(r, (0.0, 0.5, 1.0, 1.5, 2.0, None))
        if constraints == "any":
            o["constraints"] = pick(r, (None, "Shrink"))
        elif constraints:
            o["constraints"] = "Shrink"
    elif m == "na":
        if r.random() < 0.6:
            o["nrperc"] = pick(r, (0.01, 0.2, 0.34, 0.5, 0.9, 1.0))
    else:
        ps = max(ps, 4 if r.random() < 0.8 else 2)
        o["muperc"] = pick(r, (0.25, 0.3, 0.5, 0.5, 0.75, 1.0))
        while int(o["muperc"] * ps) < 1:
            ps += 1
        if m == "vdcma" and r.random() < 0.8:
            while int(o["muperc"] * ps) < 2:
                ps += 1
        if r.random() < 0.6:
            o["sigma"] = pick(r, (0.01, 0.1, 0.3, 0.5, 1.0))
        if constraints == "any":
            o["constraints"] = pick(r, (None, "Penalize"))
        elif constraints:
            o["constraints"] = "Penalize"
    o["popsize"] = ps
    if m in ("de", "pso", "cpso"):
        if sync is True:
            o["updating"] = "deferred"
        elif sync is False:
            o["updating"] = "immediate"
        else:
            u = r.random()
            if u < 0.45:
                o["updating"] = "deferred"
            elif u < 0.8:
                o["updating"] = "immediate"
    if r.random() < x0:
        st = pick(r, ("uniform", "uniform", "edge", "corner", "same"))
        if m in POP:
            c["x0"] = [inside(r, c["bounds"], st if st != "same" else "uniform") for _ in range(ps)]
            if st == "same":
                c["x0"] = [list(c["x0"][0]) for _ in range(ps)] if m != "na" else c["x0"]
            if m == "na" and st == "corner":
                c["x0"] = [inside(r, c["bounds"]) for _ in range(ps)]
        else:
            c["x0"] = inside(r, c["bounds"], st if st != "same" else "uniform")
        c["x0kind"] = "array"
        if r.random() < containers:
            c["x0kind"] = pick(r, ("list", "tuple", "fortran", "view", "readonly"))
    if c.get("x0") is not None and o.get("constraints") in (None, "Penalize") and m != "na" and r.random() < 0.15:
        _move_out(r, c)
    if ftol is not None:
        o["ftol"] = ftol(r) if callable(ftol) else ftol
    else:
        f = r.random()
        if f < 0.45:
            o["ftol"] = -1.0e300
        elif f < 0.6:
            o["ftol"] = pick(r, (0.1, 1.0, 5.0)) * abs(c["obj"].get("a", 1.0)) + c["obj"].get("b", 0.0)
        elif f < 0.65:
            o["ftol"] = 1.0e300
    if r.random() < 0.4:
        o["xtol"] = pick(r, (0.0, 1.0e-8, 0.1, 10.0))
    if ra and r.random() < 0.7:
        o["verbosity"] = pick(r, (0.0, 0.01, 0.3, 0.5, 0.75, 1.0, 0))
    return c


def _sampler(r, c, o, nd, constraints, x0):
    m = c["method"]
    if m == "mcmc":
        o["maxiter"] = o["maxiter"] * pick(r, (1, 2, 3))
        if r.random() < 0.6:
            o["perc"] = pick(r, (0.0, 0.2, 0.34, 0.5, 0.7, 0.99, 1.0))
        st = pick(r, (0.02, 0.1, 0.5, 1.5))
    else:
        o["maxiter"] = min(o["maxiter"], 12) if r.random() < 0.97 or nd > 20 else 40
        o["nleap"] = pick(r, (1, 2, 5, 10))
        st = pick(r, (0.01, 0.05, 0.2))
        if r.random() < 0.4 and c["obj"]["kind"] in ("quad", "gauss", "linear", "rastrigin", "stybl"):
            o["use_jac"] = True
        if r.random() < 0.3:
            o["finite_diff_abs_step"] = pick(r, (1.0e-4, 1.0e-3))
    if r.random() < 0.5:
        o["stepsize"] = st
    elif r.random() < 0.6:
        o["stepsize"] = [st * pick(r, (0.5, 1.0, 2.0)) for _ in range(nd)]
        c["stepkind"] = pick(r, ("array", "array", "list", "tuple", "readonly"))
    if constraints == "any":
        o["constraints"] = pick(r, (None, "Reject"))
    elif constraints:
        o["constraints"] = "Reject"
    if r.random() < x0 + 0.2:
        c["x0"] = inside(r, c["bounds"], pick(r, ("uniform",) * 5 + ("edge", "corner")))
        c["x0kind"] = "array" if r.random() < 0.6 else pick(r, ("list", "tuple", "view", "readonly"))
        if o.get("constraints") is None and r.random() < 0.15:
            _move_out(r, c)


def _move_out(r, c):
    """Unconstrained searches may start outside the box."""
    def out(x):
        return [v + (hi - lo) * pick(r, (0.0, 0.0, 1.0, -1.0, 0.5)) for v, (lo, hi) in zip(x, c["bounds"])]
    x0 = c["x0"]
    c["x0"] = [out(x) if r.random() < 0.5 else x for x in x0] if isinstance(x0[0], list) else out(x0)


def int_box(r, ndim):
    b = []
    for _ in range(ndim):
        lo = r.randrange(-10, 11)
        b.append([float(lo), float(lo + r.randrange(1, 12))])
    return b


def parallel_world(r, c, kinds=("threading", "loky", "mpi"), always=False):
    """Choose how the (population-based) call is executed. Returns (mode, sim settings)."""
    o = c["opts"]
    sim = {"cpu": pick(r, (1, 2, 3, 4, 8, 20)), "rng": r.randrange(2**31)}
    c["durations"] = gen_durations(r)
    k = pick(r, tuple(kinds) + (() if always else ("serial",)))
    if k == "serial":
        if r.random() < 0.3:
            o["workers"] = pick(r, (0, 1))
        if r.random() < 0.2:
            o["backend"] = pick(r, (None, "threading", "loky"))
        c["durations"] = {"mode": "zero"}
        return "seq", sim
    if k == "mpi":
        o["backend"] = "mpi"
        if r.random() < 0.3:
            o["workers"] = pick(r, (1, 2, -1))
        sim["ranks"] = pick(r, (1, 2, 2, 3, 3, 4, 5, 8, 12)) if r.random() < 0.98 else 24
        sim["latency"] = pick(r, ((), (0.0, 0.01), (0.0, 0.1, 5.0), (0.5,)))
        if r.random() < 0.4:
            sim["stall"] = {str(r.randrange(sim["ranks"])): pick(r, (1.0, 500.0))}
        return "mpi", sim
    if k == "threading":
        if r.random() < 0.7:
            o["backend"] = pick(r, ("threading", "threading", None))
    else:
        o["backend"] = "loky"
    o["workers"] = pick(r, (2, 2, 3, 4, 5, 8, -1, -1, -2, 16))
    return "seq", sim


def case(r, calls, mode="seq", sim=None):
    return {"mode": mode, "calls": calls, "sim": sim or {"rng": r.randrange(2**31)}, "seed": r.randrange(2**62)}
