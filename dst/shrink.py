"""Minimisation of a violating case: simpler configuration first, then a simpler schedule."""
import copy
import time

import numpy as np

from .gen import EVO, MINPOP, POP, SAMPLERS
from .runner import one


def _variants(case, keep=()):
    """Simpler cases, most drastic first; `keep` names what the property's oracle relies on."""
    def mod(f):
        c = copy.deepcopy(case)
        try:
            if f(c) is False:
                return None
        except (KeyError, IndexError, TypeError, ValueError, ZeroDivisionError):
            return None
        return c if c != case else None

    out = []
    n = len(case["calls"])
    if n > 1:
        for i in range(n):
            out.append(mod(lambda c, i=i: c["calls"].pop(i)))
    s = case.get("sim", {})
    for k in ("stall", "latency", "preempt"):
        if s.get(k):
            out.append(mod(lambda c, k=k: c["sim"].pop(k)))
    if s.get("ranks", 0) > 1:
        for v in (1, 2, s["ranks"] - 1):
            if v < s["ranks"]:
                out.append(mod(lambda c, v=v: c["sim"].__setitem__("ranks", v)))
    if s.get("cpu", 1) > 1:
        out.append(mod(lambda c: c["sim"].__setitem__("cpu", 2)))
    for i in range(n):
        call = case["calls"][i]

        def g(f, i=i):
            out.append(mod(lambda c: f(c["calls"][i])))
        for k in ("args", "stepkind", "x0", "callback", "cbret", "numpy_opts", "durations", "line_fault", "block_fault"):
            if call.get(k) and k not in keep:
                g(lambda c, k=k: c.pop(k))
        for k in ("bkind", "x0kind"):
            if call.get(k, "array") != "array":
                g(lambda c, k=k: c.__setitem__(k, "array"))
        if call.get("api") != "generic":
            g(lambda c: c.__setitem__("api", "generic"))
        for k in ("faults", "cbfaults"):
            for j in range(len(call.get(k, ()))):
                g(lambda c, k=k, j=j: c[k].pop(j))
        o = call["opts"]
        if o.get("maxiter", 100) > 1 and "maxiter" not in keep:
            for v in (1, 2, 3, 5, o.get("maxiter", 100) // 2, o.get("maxiter", 100) - 1):
                if v < o.get("maxiter", 100):
                    g(lambda c, v=v: c["opts"].__setitem__("maxiter", v))
        if o.get("popsize", 0) > 2 and "popsize" not in keep:
            for v in (2, 3, 4, 5, 6, o["popsize"] - 1):
                if v < o["popsize"]:
                    def f(c, v=v):
                        c["opts"]["popsize"] = v
                        if c.get("x0") and isinstance(c["x0"][0], list):
                            c["x0"] = c["x0"][:v]
                    g(f)
        nd = len(call["bounds"])
        if nd > 1 and n == 1:
            def f(c):
                c["bounds"].pop()
                for k in ("c", "w"):
                    if k in c["obj"]:
                        c["obj"][k].pop()
                if c.get("x0"):
                    if isinstance(c["x0"][0], list):
                        c["x0"] = [r[:-1] for r in c["x0"]]
                    else:
                        c["x0"] = c["x0"][:-1]
                if isinstance(c["opts"].get("stepsize"), list):
                    c["opts"]["stepsize"].pop()
            g(f)
        for k in list(o):
            if k not in ("maxiter", "popsize", "seed", "strategy") and k not in keep:
                g(lambda c, k=k: c["opts"].pop(k))
        if o.get("workers") not in (None, 0, 1, 2):
            g(lambda c: c["opts"].__setitem__("workers", 2))
        if call["obj"].get("kind") not in ("quad", "const") and "obj" not in keep:
            g(lambda c: c["obj"].__setitem__("kind", "quad"))
        for k in ("a", "b", "ret", "drift", "mono", "salt"):
            if k in call["obj"]:
                g(lambda c, k=k: c["obj"].pop(k))
        if any(call["obj"].get("c", [])) and "obj" not in keep:
            g(lambda c: c["obj"].__setitem__("c", [0.0] * len(c["bounds"])))
        if any(w != 1.0 for w in call["obj"].get("w", [])) and "obj" not in keep:
            g(lambda c: c["obj"].__setitem__("w", [1.0] * len(c["bounds"])))
        if any(b != [-1.0, 1.0] for b in call["bounds"]) and not call.get("x0") and n == 1:
            g(lambda c: c.__setitem__("bounds", [[-1.0, 1.0] for _ in c["bounds"]]))
    return [v for v in out if v is not None]


def valid(case):
    """Does the library accept the options of this case?"""
    for c in case["calls"]:
        o, m = c["opts"], c["method"]
        p = o.get("popsize", 10)
        if m == "de" and p < MINPOP[o.get("strategy", "best1bin")]:
            return False
        if m in EVO and (p < 2 or int(o.get("muperc", 0.5) * p) < 1):
            return False
        if case.get("mode") == "mpi" and o.get("backend") != "mpi":
            return False
        if m in SAMPLERS and np.ndim(o.get("stepsize", 0.0)) and len(o["stepsize"]) != len(c["bounds"]):
            return False
        if c.get("x0") is not None:
            if m in POP and (len(c["x0"]) != p or len(c["x0"][0]) != len(c["bounds"])):
                return False
            if m not in POP and len(c["x0"]) != len(c["bounds"]):
                return False
    return True


def _try(prop, case, choices, kind):
    try:
        v, ctx = one(prop, case, choices)
    except Exception:
        return None
    for k in v:
        if k[0] == kind:
            return k, ctx.used
    return None


def shrink(prop, viol, budget=25.0):
    t0 = time.time()
    kind, case = viol["kind"], viol["case"]
    got = _try(prop, case, viol["choices"], kind)
    if got is None:
        return None
    msg, used = got
    if kind == "hang":
        return {"case": case, "choices": viol["choices"], "message": msg[1]}
    # configuration
    changed = getattr(prop, "SHRINK", True)
    while changed and time.time() - t0 < budget:
        changed = False
        for c in _variants(case, getattr(prop, "KEEP", ())):
            if time.time() - t0 > budget:
                break
            if not valid(c) or (hasattr(prop, "valid") and not prop.valid(c)):
                continue
            for ch in (used, None):
                got = _try(prop, c, ch, kind)
                if got:
                    break
            if got:
                case, (msg, used) = c, got
                changed = True
                break
    # schedule: all-default, then truncate, then zero blocks
    got = _try(prop, case, [[] for _ in used], kind)
    if got:
        msg, used = got[0], [[] for _ in used]
    else:
        for k in range(len(used)):
            lo, hi = 0, len(used[k])
            while lo < hi and time.time() - t0 < budget * 1.5:
                mid = (lo + hi) // 2
                cand = used[:k] + [used[k][:mid]] + used[k + 1:]
                got = _try(prop, case, cand, kind)
                if got:
                    hi, msg = mid, got[0]
                else:
                    lo = mid + 1
            cand = used[:k] + [used[k][:hi]] + used[k + 1:]
            if _try(prop, case, cand, kind):
                used = cand
            b = max(1, len(used[k]) // 8)
            while b >= 1 and time.time() - t0 < budget * 2:
                i = 0
                while i < len(used[k]) and time.time() - t0 < budget * 2:
                    if any(used[k][i:i + b]):
                        nu = used[k][:i] + [0] * len(used[k][i:i + b]) + used[k][i + b:]
                        cand = used[:k] + [nu] + used[k + 1:]
                        got = _try(prop, case, cand, kind)
                        if got:
                            used, msg = cand, got[0]
                    i += b
                b //= 2 if b > 1 else 2
        while used and used[-1] == []:
            used = used[:-1]
    # what is written must reproduce
    got = _try(prop, case, used, kind)
    if got is None:
        return None
    return {"case": case, "choices": used, "message": got[0][1]}
