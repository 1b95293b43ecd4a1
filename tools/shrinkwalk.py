"""Random walks of the shrinker's steps on cases that hold: no step may turn them into a violation.

usage: shrinkwalk.py PROPERTY [SEED] [WALKS]    (a development aid: the checks do not use it)
"""
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import runner, scenario, shrink  # noqa: E402

pid = sys.argv[1]
seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
walks = int(sys.argv[3]) if len(sys.argv) > 3 else 60
scenario.setup()
prop = runner.load_prop(pid)
r = random.Random(seed)
seen, bad = 0, 0
for i in range(walks):
    case = runner.make_case(prop, 1000 + seed, i, "quick")
    for step in range(12):
        vs = [c for c in shrink._variants(case, getattr(prop, 'KEEP', ())) if c is not None and shrink.valid(c)
              and not (hasattr(prop, 'valid') and not prop.valid(c))]
        if not vs:
            break
        case = r.choice(vs)
        v, ctx = runner.one(prop, case)
        seen += 1
        if v:
            bad += 1
            print(pid, "walk", i, "step", step, v[0], flush=True)
            if bad <= 2:
                import json
                print(json.dumps(case)[:1500])
            break
print(pid, "shrunk cases:", seen, "violations:", bad, flush=True)
os._exit(bad > 0)
