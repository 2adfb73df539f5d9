#!/usr/bin/env python3
"""Record the loop headers the invariants in contracts/ were written for (baseline.json)."""
import json, os, run_check as rc

b = {}
os.makedirs(os.path.join(rc.BUILD, "gen"), exist_ok=True)
for pid, conf in json.load(open(os.path.join(rc.BASE, "checks.json"))).items():
    for pl in conf.get("plans", []):
        out, m, err = rc.extract(pid, pl, False)
        for f in m["functions"]:
            if f["loops"]:
                b[f["key"]] = f["loops"]
with open(os.path.join(rc.BASE, "baseline.json"), "w") as f:
    json.dump(b, f, indent=1, sort_keys=True)
    f.write("\n")
