#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from bin/checks.py and properties.jsonl."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.realpath(__file__)), "..")
sys.path.insert(0, os.path.join(R, "bin"))
import checks
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NA = {}
m = {"version": 1,
     "setup_cmd": "bin/setup",
     "checks": [], "not_applicable": [],
     "notes": "All specifications are TLA+ checked with TLC; see DESIGN.md. No hooks in /repo are needed: the harness uses the exported API only."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "TLA+ specification checked with TLC; traces recorded from the real code validated against it"),
            "level": c["level"], "level_note": c.get("note", "Every recorded behaviour of the real code in the generated families is a behaviour of the TLA+ specification; bounded by what the generator produces.")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
