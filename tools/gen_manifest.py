#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/plans.py."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, os.path.join(root, "lib"))
import plans
props = [json.loads(x) for x in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        pl = plans.PLANS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ specification checked with TLC (%s); traces of the real code validated against it" %
                         (", ".join(m.module for m in pl.get("mc", [])) or "trace specification only"),
            "level": "model_checking",
            "level_note": pl.get("note", "The specification is checked exhaustively within small constants; the code is bound to it by replaying the specification's behaviours and seeded random histories on the real code and having TLC accept every recorded call. What no executed script reaches is not decided.")})
    else:
        na.append({"property": i, "reason": "no check registered yet"})
m = {"version": 1, "setup_cmd": "python3 tools/selfcheck.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC; see DESIGN.md. No hooks in /repo: the driver uses the public API through a build overlay."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
