#!/usr/bin/env python3
"""Write MANIFEST.json from plan.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
import plan  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    e = plan.PLAN.get(p["id"])
    if not e:
        continue
    checks.append({"property": p["id"], "quick_cmd": "bin/check.py " + p["id"], "thorough_cmd": "bin/check.py " + p["id"],
                   "technique": e.get("technique", "Quint machine, random traces replayed into the library"),
                   "level": e.get("level", "model_checking"), "level_note": e["note"]})
doc = {"version": 1, "setup_cmd": "bin/build.py", "checks": checks,
       "not_applicable": [{"property": p["id"], "reason": plan.NOT_APPLICABLE[p["id"]]} for p in props if p["id"] in plan.NOT_APPLICABLE],
       "notes": plan.NOTES}
missing = [p["id"] for p in props if p["id"] not in plan.PLAN and p["id"] not in plan.NOT_APPLICABLE]
if missing:
    doc["notes"] += "  Not built yet: " + ", ".join(missing) + "."
json.dump(doc, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
