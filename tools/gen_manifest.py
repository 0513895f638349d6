#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engines import ENGINES, NOTES, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in ENGINES: continue
    tech, note = NOTES[i]
    checks.append(dict(property=i, quick_cmd="./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i,
                       technique=tech, level="model_checking", level_note=note))
m = dict(version=1, setup_cmd="./setup", checks=checks,
         not_applicable=[dict(property=i, reason=NOT_APPLICABLE.get(i, "no check yet")) for i in ids if i not in ENGINES],
         notes="No hooks in /repo: the checks drive the public API of the crates, built from /repo's working tree by path. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
