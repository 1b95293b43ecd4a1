"""Builds the replay files of the known findings (C12: shared numpy generator; C19: absolute collapse threshold of CPSO)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from dst import runner, scenario
scenario.setup()
prop = runner.load_prop("C12")
base = {"method": "de", "api": "generic", "bounds": [[-5.0, 5.0], [-5.0, 5.0]], "bkind": "array", "callback": False,
        "obj": {"kind": "quad", "c": [0.0, 0.0], "w": [1.0, 1.0]}}
case = {"mode": "conc", "sim": {"rng": 1, "preempt": 20, "cpu": 2, "share_rng": True}, "seed": 7,
        "calls": [dict(base, opts={"seed": 1, "maxiter": 3, "popsize": 5}), dict(base, opts={"seed": 2, "maxiter": 3, "popsize": 5})]}
v, ctx = runner.one(prop, case)
assert v and v[0][0] == "interferes", v
os.makedirs(os.path.join(ROOT, "known"), exist_ok=True)
json.dump({"property": "C12", "case": case, "choices": ctx.used}, open(os.path.join(ROOT, "known", "c12-shared-generator.json"), "w"), indent=1)
case2 = {"mode": "seq", "sim": {"rng": 1}, "seed": 7, "scale": [8, 8], "strict": True,
         "calls": [{"method": "cpso", "api": "generic", "bounds": [[-1.0, 1.0], [-1.0, 1.0]], "bkind": "array", "callback": True,
                    "obj": {"kind": "quad", "c": [0.0, 0.0], "w": [1.0, 1.0]}, "opts": {"seed": 1, "maxiter": 60, "popsize": 6, "inertia": 0.3, "ftol": -1e300}}]}
prop2 = runner.load_prop("C19")
v2, ctx2 = runner.one(prop2, case2)
assert v2 and v2[0][0] == "sequence", v2
json.dump({"property": "C19", "case": case2, "choices": ctx2.used}, open(os.path.join(ROOT, "known", "c19-cpso-threshold.json"), "w"), indent=1)
json.dump([{"property": "C12", "kind": "interferes", "replay": "known/c12-shared-generator.json",
            "what": "calls running at the same time in several threads of a process draw from (and seed) the one global numpy generator, so a seeded call's result depends on the other calls (replay known/c12-shared-generator.json)"},
           {"property": "C19", "kind": "sequence", "replay": "known/c19-cpso-threshold.json",
            "what": "CPSO compares the swarm radius in the user's units with a threshold meant for coordinates normalised to [-1, 1], so whether it relocates particles depends on the scale of the box (replay known/c19-cpso-threshold.json); stored results in the tests pin this behaviour"}],
          open(os.path.join(ROOT, "tools", "known.json"), "w"), indent=1)
print(v, v2)
