"""Seeded results do not depend on how the evaluations are executed."""
import copy
import random

from .. import gen as G
from .. import oracles as O
from ..scenario import num_same

ID = "C01"
RUNS = {"quick": 3900, "thorough": 150000}
RULE = ("one case = a random seeded call executed twice in simulation: serially, and under a simulated thread pool, "
        "process pool or MPI job (population-at-once updating), or again with another entry point and initial "
        "generator state (immediate updating, samplers); non-trivial when the second execution really interleaved "
        "(thread switches) or was a repetition; results, callbacks and evaluated points compared bit for bit")
ASSUMPTIONS = ["objective deterministic and not drawing from numpy's generator",
               "interleavings are explored at objective calls, pool and MPI operations, locks and polling"]


def gen(r, i, tier):
    if r.random() < 0.25:
        c = G.gen_call(r, methods=G.ALL, maxiter=_mi(r, tier))
        case = G.case(r, [c])
        case["what"] = "repeat"
        case["pre"] = r.randrange(2**31)
        return case
    c = G.gen_call(r, methods=G.OPTIMIZERS, sync=True, maxiter=_mi(r, tier))
    if r.random() < 0.3:
        c["opts"].pop("updating", None)      # overridden by workers/backend
    mode, sim = G.parallel_world(r, c, always=True)
    case = G.case(r, [c], mode, sim)
    case["what"] = "exec"
    return case


def _mi(r, tier):
    hi = (1, 2, 3, 5, 8, 12, 20, 30) if tier == "quick" else (1, 2, 3, 5, 8, 12, 20, 40, 80)
    return G.pick(r, hi)


def serial_of(case):
    s = copy.deepcopy(case)
    s["mode"] = "seq"
    c = s["calls"][0]
    for k in ("workers", "backend"):
        c["opts"].pop(k, None)
    if c["method"] in ("de", "pso", "cpso") and O.is_parallel(case["calls"][0]):
        c["opts"]["updating"] = "deferred"
    c["durations"] = {"mode": "zero"}
    s["sim"] = {"rng": (case["sim"].get("rng", 1) * 7 + 13) % 2**31}
    return s


def other_entry(case):
    """The same call twice in one process, the second time through the other entry point."""
    s = copy.deepcopy(case)
    c = copy.deepcopy(s["calls"][0])
    c["api"] = "direct" if c.get("api", "generic") == "generic" else "generic"
    s["calls"].append(c)
    s["sim"]["rng"] = case.get("pre", 99)
    return s


def compare(a, b, what):
    out = []
    if (a.exc is None) != (b.exc is None):
        return [("outcome", "%s: %s / %s" % (what, a.outcome() + " " + O.describe_exc(a.exc), b.outcome() + " " + O.describe_exc(b.exc)))]
    if a.exc is not None:
        if type(a.exc) is not type(b.exc):
            out.append(("outcome", "%s: %r / %r" % (what, a.exc, b.exc)))
        return out
    if sorted(a.res) != sorted(b.res):
        return [("fields", "%s: fields %s / %s" % (what, sorted(a.res), sorted(b.res)))]
    for k in a.res:
        if not num_same(a.res[k], b.res[k]):
            out.append(("differs", "%s: field %s is %r / %r" % (what, k, a.res[k], b.res[k])))
            return [(out[0][0], out[0][1][:600])]
    ca, cb = a.cbs, b.cbs
    if len(ca) != len(cb):
        return [("callbacks", "%s: %d / %d callbacks" % (what, len(ca), len(cb)))]
    for k, (p, q) in enumerate(zip(ca, cb)):
        if not num_same(p["X"], q["X"]) or not num_same(p["state"], q["state"]):
            return [("callbacks", "%s: callback %d differs" % (what, k + 1))]
    return out


def check(ctx, case):
    h = ctx.run(case)
    if case["what"] == "repeat":
        h2 = ctx.run(other_entry(case))
        v = O.trouble(h) or O.trouble(h2)
        return (v or compare(h.rec, h2.recs[0], "repeated from another generator state")
                or compare(h.rec, h2.recs[1], "repeated through the other entry point"))
    hs = ctx.run(serial_of(case))
    v = O.trouble(h)
    sv = O.trouble(hs)
    if sv:
        return sv
    if v:
        return v
    for r in h.recs:
        what = "serial vs " + (case["mode"] == "mpi" and "rank %d of %d" % (r.rank, case["sim"]["ranks"]) or
                               "%s x%s" % (case["calls"][0]["opts"].get("backend"), case["calls"][0]["opts"].get("workers")))
        v = compare(hs.rec, r, what)
        if v:
            return v
    if case["mode"] == "mpi":
        ctx.count("mpi_runs")
    return []


def nontrivial(ctx, case):
    return case["what"] == "repeat" or ctx.stats.get("switches", 0) > 3
