#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "driver"))
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "C23": "A pure function of one value: no schedule, clock, I/O, fault or interleaving for it to depend on, so there is nothing to simulate.",
}
NOTE = ("Seeded search over complete simulated executions of the real crate, each decided by one seed, with an exact oracle "
        "over the recorded history. Evidence for the executions explored, not a proof. Assumes the executor, client and "
        "handler contract written in DESIGN.md.")
checks = []
for p in props:
    i = p["id"]
    if i not in PLAN:
        assert i in NA, i
        continue
    NA.pop(i, None)
    checks.append({
        "property": i,
        "quick_cmd": f"python3 driver/check.py {i}",
        "thorough_cmd": f"python3 driver/check.py {i} --tier thorough",
        "technique": "deterministic simulation with fault injection (seeded schedule and fault search, minimised replay)",
        "level": "exploration",
        "level_note": NOTE,
    })
m = {"version": 1, "setup_cmd": "bash driver/setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())]}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
