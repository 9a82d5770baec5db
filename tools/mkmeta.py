#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE, NOTES
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
checks = []
for p in PROPS:
    c = p["id"].lower()
    if not os.path.exists(os.path.join(root, "checks", c + ".py")):
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"./run.py {c}", thorough_cmd=f"./run.py {c} --tier thorough",
                       evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration", level_note=p["level_note"]))
have = {c["property"] for c in checks}
na = NOT_APPLICABLE + [dict(property=p["id"], reason="check not built yet") for p in PROPS if p["id"] not in have]
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(PROPS), "properties", len(checks), "checks")
