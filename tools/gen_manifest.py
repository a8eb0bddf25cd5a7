#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS, NOTES, NOT_APPLICABLE, HOOKS

props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "checks": [],
    "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE.items()],
    "notes": "Every check is a bounded exhaustive exploration of the real code against an independent reference model; see DESIGN.md.",
}
if HOOKS:
    m["hooks"] = HOOKS
for p in props:
    if p in NOT_APPLICABLE:
        continue
    if p not in CHECKS:
        m["not_applicable"].append({"property": p, "reason": "check still being built"})
        continue
    tech, note = NOTES[p]
    m["checks"].append({
        "property": p,
        "quick_cmd": "python3 run.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": tech,
        "level": "model_checking",
        "level_note": note,
    })
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks")
