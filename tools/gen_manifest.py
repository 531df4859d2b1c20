#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE, SETUP  # noqa
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ids = [p["id"] for p in props]
m = {"version": 1, "setup_cmd": SETUP, "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3 run_check.py %s --tier quick" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 run_check.py %s --tier thorough" % i,
            "technique": c["technique"],
            "level": c.get("level", "exploration"),
            "level_note": c.get("level_note", "Held on the recorded executions of the sanitized build; the oracle is "
                                              "independent of the code under test. Nothing is claimed about inputs or "
                                              "histories outside the generated ones."),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "not claimed yet: check under construction")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
