#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/proptext.py (single source for both)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from proptext import PROPS, NOT_APPLICABLE, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{V}/properties.jsonl", "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh",
         checks=[dict(property=p["id"], quick_cmd=f"VERIF_TIER=quick ./run_check.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough VF_TIMEOUT=7200 ./run_check.sh {p['id']}",
                      technique=p["technique"], level=p["level"], level_note=p["level_note"]) for p in PROPS],
         not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NOT_APPLICABLE], notes=NOTES)
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json"))) if os.path.exists("/root/.vp/MANIFEST.schema.json") else None
S = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for line in open(f"{V}/properties.jsonl"):
    jsonschema.validate(json.loads(line), S)
print(len(PROPS), "claimed", len(NOT_APPLICABLE), "not applicable")
