#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from plan import PLAN, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
ids = [p["id"] for p in props]
assert len(set(ids)) == len(ids)
m = {"version": 1, "setup_cmd": "bin/check --build-all", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    assert len(p["title"]) <= 80, i
    if i in PLAN:
        q = PLAN[i]
        m["checks"].append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "bin/check %s --thorough" % i,
            "technique": q["technique"], "level": q.get("level", "exploration"), "level_note": q["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE[i]})
for i in PLAN: assert i in ids, i
m["notes"] = ("bin/check builds /repo's current tree with sanitizers in /verif/.build (keyed by a hash of the sources), runs the property's "
              "generator and oracle in forked workers, shrinks a failure and stores it under /verif/replay; bin/check ID --replay FILE repeats it.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
