"""Writes /verif/MANIFEST.json from the list of properties and the checks that exist."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from techniques import NA, TECH  # noqa: E402

props = [json.loads(ln)["id"] for ln in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    if os.path.exists(f"{V}/harness/checks/{p}.py") and p in TECH:
        tech, note = TECH[p]
        checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick",
                       "thorough_cmd": f"./check.sh {p} thorough", "technique": tech,
                       "level": "model_checking", "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks observe the public API only. TLA+ specifications in spec/, checked with TLC; see DESIGN.md."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", "not applicable:", [x["property"] for x in na])
