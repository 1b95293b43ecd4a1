"""All MPI ranks return the same result and never deadlock."""
from .. import gen as G
from .. import oracles as O
from .c01 import compare

ID = "C02"
RUNS = {"quick": 3900, "thorough": 120000}
RULE = ("one case = the same random call (with or without a seed) made on every rank of a simulated MPI job with private "
        "generator states, message delays, eager or rendezvous broadcasts and stalled ranks; non-trivial with at least two ranks")
ASSUMPTIONS = ["collectives behave as the MPI standard says; point-to-point order is preserved per pair"]
STUB = "MPI library and ranks, message timing, objective and callback, numpy's generator state per rank"


def gen(r, i, tier):
    c = G.gen_call(r, methods=G.OPTIMIZERS, seed="maybe", maxiter=G.pick(r, (1, 2, 3, 5, 8, 12, 20)))
    mode, sim = G.parallel_world(r, c, kinds=("mpi",), always=True)
    return G.case(r, [c], mode, sim)


def check(ctx, case):
    h = ctx.run(case)
    v = O.trouble(h)
    if v:
        return v
    a = h.recs[0]
    for b in h.recs[1:]:
        v = compare(a, b, "rank 0 vs rank %d" % b.rank)
        if v:
            return v
    n = [len(c) for c in h.world.calls]
    if len(set(n)) > 1:
        return [("calls", "ranks made different numbers of MPI calls: %s" % n)]
    ctx.count("seeded" if case["calls"][0]["opts"].get("seed") is not None else "unseeded")
    return []


def nontrivial(ctx, case):
    return case["sim"]["ranks"] > 1
