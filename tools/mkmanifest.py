"""Writes /verif/MANIFEST.json from the properties and the checks that exist."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": "serial run vs the same run under simulated thread/process/MPI schedules, bitwise",
    "C02": "simulated MPI ranks with private RNGs, delays and stalls; deadlock and divergence detection",
    "C03": "exactly-once history oracle under simulated schedules",
    "C04": "in-flight counts and simulated makespan under simulated schedules",
    "C05": "history oracle on the returned solution under schedules and faulty values",
    "C06": "history oracle on xall/funall against evaluations and callbacks",
    "C07": "history oracle on callbacks, run with and without callback compared",
    "C08": "history oracle on termination with injected convergence points",
    "C09": "box invariant over seeded adversarial runs",
    "C10": "fault injection at evaluations, callbacks, source lines, waits and workers",
    "C11": "call sequences with injected failures vs the same call in a fresh process",
    "C12": "callers preempted between source lines vs solo runs",
    "C13": "NaN/inf fault injection with history oracle",
    "C14": "chain refinement oracle over seeded runs",
    "C15": "seeded ensembles of simulated chains with goodness-of-fit oracle",
    "C16": "refinement of histories against a DE step model",
    "C17": "refinement of histories against a PSO/CPSO step model",
    "C18": "refinement of histories against a Voronoi model",
    "C19": "pairs of simulated runs related by a transformation",
    "C20": "oracle on first generations over seeded runs",
    "C21": "refinement of histories against a CMA-ES reference model",
    "C23": "invalid requests injected into sequential, pooled, MPI, concurrent and nested histories of calls",
    "C26": "progress within a bounded number of steps once injected NaN/inf failures stop",
    "C25": "pairs of simulated runs started, seeded and watched in different ways, compared bitwise",
}
NOTE = {
    "default": "Seeded search: holds on every simulated run explored, nothing proved beyond them. Trusted: the simulator (simulated pools, executors, MPI and clocks behave like the real ones), numpy, the oracle.",
    "C12": "Seeded search over preemptions at stochopy source lines, with numpy's generator state kept per caller (the shared generator itself is a known finding). Trusted: the simulator and the comparison with solo runs.",
    "C15": "Statistical: seeded ensembles judged at p < 1e-12, so biases too small for the ensemble size go unseen. Trusted: numpy's generator, the target densities.",
    "C20": "Seeded search; the normal-distribution part is statistical (p < 1e-12). Trusted: the simulator, numpy's generator.",
    "C26": "Statistical: a case fails when 5 of 12 seeds miss; on the unchanged tree fewer than 1 in 500 runs do. Trusted: the simulator, numpy's generator.",
    "C21": "Seeded search; distribution judged at p < 1e-12 after whitening with an independent implementation of the update equations. Trusted: that implementation, numpy's generator.",
}
NA = {
    "C22": "Pure functions of one argument: no schedule, clock, randomness, fault or history for a simulation to control; only inputs to sample, which is property-based testing.",
    "C24": "Result objects are plain containers: no concurrency, time, randomness, I/O or faults to simulate.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(ROOT, "dst", "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i,
                       "thorough_cmd": "./check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "deterministic simulation with fault injection: " + T[i],
                       "level": "exploration", "level_note": NOTE.get(i, NOTE["default"])})
    else:
        na.append({"property": i, "reason": NA.get(i, "Its check is not built yet.")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy, joblib'",
     "hooks": {"guard": "none", "enable": "no hooks: stochopy's collaborators (joblib backends, mpi4py, clocks, numpy's generator) are replaced from outside", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "./check --replay FILE replays a violation. VERIF_SEED (or --seed) fixes every choice."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", [x["property"] for x in na], "not applicable")
