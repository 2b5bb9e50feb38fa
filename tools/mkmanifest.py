#!/usr/bin/env python3
"""writes /verif/MANIFEST.json"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "engine"))
import tasks
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTES = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA: na.append({"property": i, "reason": NA[i]}); continue
    proof = bool(tasks.tasks(i, "quick") or tasks.extra(i))
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i}",
        "technique": "contract-based deductive verification: obligations generated from the current source by symbolic execution under contracts, discharged by z3; bounded run-time search as labelled stand-in" if proof
                     else "bounded contract checking on the real code (labelled bounded; no obligation of this property is discharged yet)",
        "level": "proof" if proof else "exploration", "level_note": NOTES.get(i, BASE_NOTE if proof else BOUNDED_NOTE)})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. DESIGN.md describes the verifier, its trusted base, and what is bounded."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [c["property"] for c in checks if c["level"] == "proof"])
