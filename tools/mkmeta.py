#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NA
TECH_DEF = "runtime monitoring: offline oracle over tool runs on seeded feeds"
with open(os.path.join(root, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["qtext"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p.get("observe", ["output feed written by the tool"]), "hook_needed": None}}
        fh.write(json.dumps(o) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] in NA:
        na.append({"property": p["id"], "reason": NA[p["id"]]})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": p.get("technique", TECH_DEF),
                   "level": "exploration", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "verif", "enable": "no hooks were needed: the checks build the tool unchanged (plain, with -cover and with -race) and observe it from outside", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All checks run ./check.sh <id> <tier>; the harness is a Go program in harness/ that builds the tool from /repo's working tree. See DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
