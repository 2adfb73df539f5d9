#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl (run by hand, not by a check)."""
import json
conf = json.load(open("checks.json"))
props = [json.loads(l) for l in open("properties.jsonl") if l.strip()]
checks, na = [], []
NOTE = ("Verus accepts every obligation generated from /repo's current source for the listed functions, for all inputs. "
        "Trusted: Verus/Z3, the extractor's rewrites, assumed library specifications (evidence lists them). ")
for p in props:
    i = p["id"]
    c = conf.get(i)
    if not c or c.get("na"):
        na.append({"property": i, "reason": (c or {}).get("na", "check under construction")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 run_check.py {i}",
        "thorough_cmd": f"python3 run_check.py {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": c.get("technique", "contracts on the extracted real code, discharged by Verus; failing input searched on the compiled code"),
        "level": c.get("level", "proof"),
        "level_note": (NOTE if c.get("level", "proof") == "proof" else "") + c.get("note", ""),
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks read and compile /repo as it is. When an edit takes a function out of reach of the proof "
              "(lost anchor, unsupported construct), the differential search stands in and the evidence is labelled bounded."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
