#!/usr/bin/env python3
"""Writes MANIFEST.json from parts.py (what is claimed) and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
from parts import PARTS, LEVEL_NOTE, TECH, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PARTS:
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick ./check {i}", thorough_cmd=f"VERIF_TIER=thorough ./check {i}",
                           evidence_file=f"evidence/{i}.json", technique=TECH.get(i, TECH["*"]), level="model_checking",
                           level_note=LEVEL_NOTE.get(i, LEVEL_NOTE["*"])))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="./check build", checks=checks, not_applicable=na,
               notes="TLA+ with TLC; see DESIGN.md. Fixed defects: known_findings.txt."),
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
