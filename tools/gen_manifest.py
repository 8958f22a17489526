#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/plan.py and properties.jsonl."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import plan  # noqa: E402

ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --warm", "checks": [], "not_applicable": [],
     "notes": "Every check builds the harness of /verif/harness (or harness_jwk) against /repo's working tree through a build overlay and runs the real code under monitors; see DESIGN.md. No hooks are needed in /repo."}
for i in ids:
    p = plan.PLAN.get(i)
    if not p:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
        continue
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                        "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
