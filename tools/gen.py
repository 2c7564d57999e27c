#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (the single source)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None},
        }) + "\n")
checks, na = [], []
for p in PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash check.sh %s --tier quick" % p["id"],
        "thorough_cmd": "bash check.sh %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": p["level"],
        "level_note": p["note"],
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check is built from /repo's working tree with go build -overlay (harness/ is laid over /repo/internal/verifmc); /repo is only read. No hooks are committed in /repo."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print("claimed", [c["property"] for c in checks], "not claimed", [n["property"] for n in na])
