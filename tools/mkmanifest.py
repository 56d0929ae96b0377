#!/usr/bin/env python3
"""MANIFEST.json from props_runs.RUNS and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props_runs import RUNS, NOTES
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in RUNS:
        sched = any(r["sched"] for r in RUNS[p])
        tech = ("stateless model checking of the implementation: every thread schedule up to a preemption bound under a controlled scheduler, with happens-before race detection"
                if sched else
                "stateless explicit-state model checking of the implementation: exhaustive enumeration of inputs, operation sequences and fault points within bounds, each compared with a reference model")
        checks.append(dict(property=p, quick_cmd="python3 run.py %s quick" % p, thorough_cmd="python3 run.py %s thorough" % p,
                           technique=tech, level="model_checking", level_note=NOTES.get(p, "exhaustive within the bounds listed in DESIGN.md and the evidence file")))
    else:
        na.append(dict(property=p, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks,
         hooks=dict(guard="none", enable="no hooks: the checks compile /repo's sources unmodified (allocation and lock calls are wrapped at link time)", source_commits=[]), not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
