"""Runs a property's check: many seeded simulated runs over several processes."""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Skip(Exception):
    """The run left the range in which its properties can be judged."""


def overflowing(evals):
    """Did the points grow, generation by generation, until floating point numbers overflow?"""
    last = [e.x for e in evals[-100:]]
    with np.errstate(invalid="ignore"):
        if not last or all(np.abs(x).max(initial=0.0) <= 1e140 for x in last):
            return False
        for e in evals:
            m = np.abs(e.x).max(initial=0.0)
            if not m <= 1e60:
                return bool(m < 1e140)
    return False


class Ctx:
    """Gives one case its deciders and collects what its runs did."""

    def __init__(self, case, choices=None):
        from .core import Decider
        self.Decider = Decider
        self.case = case
        self.replay = choices
        self.used = []
        self.hists = []
        self.stats = {}
        self.sim_time = 0.0
        self.hash = 0
        self.steps = 0
        self.info = {}
        self.logs = []

    def run(self, case):
        from . import scenario
        k = len(self.used)
        if self.replay is not None and k < len(self.replay):
            d = self.Decider(replay=self.replay[k])
        elif self.replay is not None:
            d = self.Decider(replay=[])
        else:
            d = self.Decider((case["seed"] * 1000003 + k) & ((1 << 62) - 1))
        h = scenario.run(case, d, nth=k)
        self.used.append(d.choices)
        for a, b in h.sim.stats.items():
            self.stats[a] = self.stats.get(a, 0) + b
        for r in h.recs:
            self.stats["calls"] = self.stats.get("calls", 0) + 1
            if r.obj is not None:
                self.stats["objective_calls"] = self.stats.get("objective_calls", 0) + r.obj.started
            k = "method_" + r.call["method"]
            self.stats[k] = self.stats.get(k, 0) + 1
        self.sim_time += h.sim.now
        self.hash = (self.hash * 1000003 + h.sim.sched_hash + h.sim.seq) & ((1 << 60) - 1)
        self.steps += h.sim.steps
        self.logs.append((h.sim.sched_hash, h.sim.seq, h.sim.now, h.sim.steps))
        if any(r.obj is not None and overflowing(r.obj.evals) for r in h.recs):
            raise Skip
        return h

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n


def load_prop(pid):
    return importlib.import_module("dst.props." + pid.lower())


def case_seed(verif_seed, pid, i):
    h = hashlib.blake2b(("%s/%s/%d" % (verif_seed, pid, i)).encode(), digest_size=8).digest()
    return int.from_bytes(h, "little") >> 2


def one(prop, case, choices=None):
    """(violations, ctx) of one case."""
    ctx = Ctx(case, choices)
    try:
        v = list(prop.check(ctx, case) or ())
    except Skip:
        v = []
        ctx.count("overflowed")
        ctx.info["nt"] = False
    except (KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
        # what was observed does not have the documented form
        tb = traceback.extract_tb(e.__traceback__)[-1]
        v = [("malformed", "the recorded history cannot be interpreted: %s: %s at %s:%d"
              % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))]
    return v, ctx


def make_case(prop, verif_seed, i, tier):
    import random
    r = random.Random(case_seed(verif_seed, prop.ID, i))
    return prop.gen(r, i, tier)


def shard(prop, verif_seed, tier, n, p, P, path, logs, deadline):
    from . import scenario
    scenario.setup()
    out = {"runs": 0, "stats": {}, "sim_time": 0.0, "hashes": [], "cases": [], "violation": None, "error": None,
           "steps": 0, "known": [], "samples": [], "log": [], "slowest": (0.0, None)}
    try:
        for i in range(p, n, P):
            if time.time() > deadline:
                out["cut"] = True
                break
            case = make_case(prop, verif_seed, i, tier)
            t = time.time()
            v, ctx = one(prop, case)
            t = time.time() - t
            if t > out["slowest"][0]:
                out["slowest"] = (t, i)
            out["runs"] += 1
            for a, b in ctx.stats.items():
                out["stats"][a] = out["stats"].get(a, 0) + b
            out["sim_time"] += ctx.sim_time
            out["steps"] += ctx.steps
            ch = hashlib.blake2b(json.dumps(case, sort_keys=True, default=str).encode(), digest_size=6).hexdigest()
            nt = prop.nontrivial(ctx, case) if hasattr(prop, "nontrivial") else True
            out["cases"].append((ch + "%x" % ctx.hash, bool(nt), "%x" % ctx.hash))
            if logs:
                out["log"].append((i, ch, ctx.logs, [str(x) for x in v]))
            if len(out["samples"]) < 1 and nt:
                out["samples"].append({"run": i, "case": case, "choices_made": sum(map(len, ctx.used))})
            if v:
                out["violation"] = {"index": i, "kind": v[0][0], "message": v[0][1], "case": case,
                                    "choices": ctx.used}
                break
    except BaseException:
        out["error"] = "run %s:\n%s" % (locals().get("i"), traceback.format_exc())
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(out, f, default=str)
    os.replace(tmp, path)
    sys.stdout.flush()
    os._exit(0)


def jsonable(o):
    import numpy as np
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    return str(o)


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "w") as f:
        json.dump(obj, f, indent=1, default=jsonable)
    os.replace(path + ".tmp", path)


def run_check(pid, tier, verif_seed, nproc=None, runs=None, logs=None, quiet=False):
    t0 = time.time()
    prop = load_prop(pid)
    n = runs or prop.RUNS[tier]
    P = nproc or min(8, os.cpu_count() or 1, n)
    print("property=%s tier=%s VERIF_SEED=%s runs=%d processes=%d" % (pid, tier, verif_seed, n, P))
    sys.stdout.flush()
    d = tempfile.mkdtemp(prefix="dst-")
    kids = []
    limit = float(os.environ.get("DST_TIME_LIMIT", "800" if tier == "quick" else "86400"))
    soft = 0.75 * limit         # on a slow machine fewer runs are made
    try:
        for p in range(P):
            path = os.path.join(d, "s%d.json" % p)
            pid_ = os.fork()
            if pid_ == 0:
                try:
                    shard(prop, verif_seed, tier, n, p, P, path, bool(logs), t0 + soft)
                finally:
                    os._exit(3)
            kids.append((pid_, path))
        res, errors = [], []
        left = dict(kids)
        while left and time.time() - t0 < limit:
            done, _ = os.waitpid(-1, os.WNOHANG)
            if done == 0:
                time.sleep(0.02)
            else:
                left.pop(done, None)
        for k in left:
            os.kill(k, 9)
            os.waitpid(k, 0)
            errors.append("a worker process ran out of time")
        for k, path in kids:
            if os.path.exists(path):
                with open(path) as f:
                    res.append(json.load(f))
            elif k not in left:
                errors.append("a worker process died")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    errors += [r["error"] for r in res if r["error"]]
    viols = sorted((r["violation"] for r in res if r["violation"]), key=lambda v: v["index"])
    stats = {}
    for r in res:
        for a, b in r["stats"].items():
            stats[a] = stats.get(a, 0) + b
    nruns = sum(r["runs"] for r in res)
    allc = [c for r in res for c in r["cases"]]
    distinct = len({c[0] for c in allc if c[1]})
    wall = time.time() - t0
    if logs:
        rows = sorted((tuple(x) for r in res for x in r["log"]), key=lambda x: x[0])
        with open(logs, "w") as f:
            for x in rows:
                f.write(json.dumps(x) + "\n")

    code = 0
    replay = None
    known_lines = []
    if viols:
        replay = report_violation(prop, pid, viols[0])
        code = 1
    known_lines, extra_viol = known_findings(prop, pid)
    if extra_viol and code == 0:
        replay = report_violation(prop, pid, extra_viol)
        code = 1
    faults = {k[6:]: v for k, v in stats.items() if k.startswith("fault_")}
    methods = {k[7:]: v for k, v in stats.items() if k.startswith("method_")}
    other = {k: v for k, v in sorted(stats.items()) if not k.startswith(("fault_", "method_"))}
    ev = {
        "property": pid, "tier": tier, "seed": int(verif_seed) if str(verif_seed).lstrip("-").isdigit() else 0,
        "level": prop.LEVEL if hasattr(prop, "LEVEL") else "exploration",
        "coverage": {
            "evaluations": nruns,
            "distinct_nontrivial": distinct,
            "rule": prop.RULE,
            "samples": [s for r in res for s in r["samples"]][:2],
            "simulated_runs_per_hour": int(nruns / max(wall, 1e-9) * 3600),
            "simulated_time_s": sum(r["sim_time"] for r in res),
            "scheduling_decisions": sum(r["steps"] for r in res),
            "distinct_interleavings": len({c[2] for c in allc}),
            "distinct_interleavings_measure": "hash of the sequence of scheduling choices and history length of a run",
            "faults_injected": faults,
            "slowest_run_s_and_index": max((r["slowest"] for r in res), default=None),
            "calls_per_method": methods,
            "counters": other,
            "real_components": getattr(prop, "REAL", "all of stochopy, numpy, joblib.Parallel with its dispatch, batching, retrieval and abort code, pickling of loky batches"),
            "simulated_components": getattr(prop, "STUB", "worker threads/processes (pool and loky executor), MPI library and ranks, clocks, locks, the objective and callback, the state of numpy's generator"),
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
        "wall_s": wall, "violations": 1 if code == 1 else 0,
    }
    write_json(os.path.join(ROOT, "evidence", pid + ".json"), ev)
    for l in known_lines:
        print(l)
    print("%d runs, %d distinct non-trivial, %.1f s%s" % (
        nruns, distinct, wall, " (time is up: fewer runs than planned)" if any(r.get("cut") for r in res) else ""))
    if errors and code == 0:
        print("HARNESS-ERROR property=%s\n%s" % (pid, "\n".join(errors[:2])))
        return 2
    if code == 1:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
    else:
        print("OK property=%s" % pid)
    return code


def report_violation(prop, pid, v):
    """Minimise (in a child process, so a stuck run cannot stop us) and write the replay file."""
    path = os.path.join(ROOT, "evidence", "replays", "%s.json" % pid)
    print("violation found in run %s: [%s] %s" % (v["index"], v["kind"], v["message"]))
    sys.stdout.flush()
    base = {"property": pid, "kind": v["kind"], "message": v["message"], "case": v["case"],
            "choices": v["choices"], "minimised": False}
    write_json(path, base)
    if os.environ.get("VERIF_NOSHRINK"):
        return path
    k = os.fork()
    if k == 0:
        try:
            from . import scenario, shrink
            scenario.setup()
            s = shrink.shrink(prop, v, budget=25.0)
            if s is not None:
                base.update(s)
                base["minimised"] = True
                write_json(path, base)
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            os._exit(0)
    t = time.time()
    while time.time() - t < 90:
        done, _ = os.waitpid(k, os.WNOHANG)
        if done:
            break
        time.sleep(0.02)
    else:
        os.kill(k, 9)
        os.waitpid(k, 0)
    with open(path) as f:
        b = json.load(f)
    print("minimised: [%s] %s" % (b["kind"], b["message"]))
    return path


def known_findings(prop, pid):
    """Re-run the recorded histories of known findings; report those that still fail."""
    lines = []
    f = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(f):
        return lines, None
    with open(f) as fh:
        items = json.load(fh)
    todo = [k for k in items.get("known", []) if k["property"] == pid]
    if not todo:
        return lines, None
    r, w = os.pipe()
    k = os.fork()
    if k == 0:
        out = []
        try:
            from . import scenario
            scenario.setup()
            for it in todo:
                with open(os.path.join(ROOT, it["replay"])) as fh:
                    rp = json.load(fh)
                v, _ = one(prop, rp["case"], rp.get("choices"))
                if any(x[0] == it["kind"] for x in v):
                    out.append("KNOWN-FINDING: property=%s %s" % (pid, it["what"]))
        except BaseException:
            traceback.print_exc()
        os.write(w, json.dumps(out).encode())
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        data += c
    os.close(r)
    os.waitpid(k, 0)
    return json.loads(data or b"[]"), None


def replay(path):
    from . import scenario
    scenario.setup()
    with open(path) as f:
        b = json.load(f)
    prop = load_prop(b["property"])
    v, ctx = one(prop, b["case"], b.get("choices"))
    if v:
        print("[%s] %s" % (v[0][0], v[0][1]))
        print("VIOLATION property=%s replay=%s" % (b["property"], path))
        sys.stdout.flush()
        os._exit(1)
    print("OK property=%s: not reproduced" % b["property"])
    sys.stdout.flush()
    os._exit(0)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--procs", type=int)
    ap.add_argument("--logs")
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    if a.replay:
        replay(a.replay)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    code = run_check(a.property, tier, a.seed, nproc=a.procs, runs=a.runs, logs=a.logs)
    sys.stdout.flush()
    os._exit(code)
