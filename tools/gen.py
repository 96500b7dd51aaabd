#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
sys.path.insert(0, root)
import props
from sa.registry import REG

with open(os.path.join(root, "properties.jsonl"), "w", encoding="utf8") as fh:
    for p in props.P:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        fh.write(json.dumps(d, ensure_ascii=False) + "\n")
claimed = [p for p in props.P if p["id"] in REG]
na = [{"property": k, "reason": r} for k, r in props.NA]
missing = {p["id"] for p in props.P} - set(REG) - {k for k, _ in props.NA}
assert not missing, missing
m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa",
     "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"./check {p['id']} --tier thorough",
                 "technique": p["technique"], "level": "other",
                 "level_note": p["note"] or "Sound up to the stated assumptions for the obligations it decides (all paths, all inputs of the "
                 "abstract domain); obligations outside the domain are counted as undecided in the evidence, never as held."}
                for p in claimed],
     "not_applicable": na,
     "notes": "Everything is decided by reading /repo's source with the stdlib ast module; nothing of /repo is executed."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(props.P), "properties,", len(claimed), "checks,", len(na), "not applicable")
