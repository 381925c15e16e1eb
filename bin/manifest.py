#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and gen/plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "gen"))
import plan
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Every recorded step of the real library (compiled from the working tree, several process counts, injected "
        "message delays) is matched by a step of the TLA+ specification with TLC; bounded to generated histories on "
        "small meshes; trusts the drivers in harness/, the system's libsc and MPI, and TLC.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PLANS:
        P = plan.PLANS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 bin/check.py %s quick" % i,
            "thorough_cmd": "python3 bin/check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": P.get("technique", "TLA+ specification: TLC trace validation of recorded executions"),
            "level": "model_checking",
            "level_note": P.get("note", "") + (" " if P.get("note") else "") + NOTE})
    else:
        na.append({"property": i, "reason": plan.NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Specification in TLA+ (spec/), drivers in harness/, generators in gen/. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
