#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py (the single source of both)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.path.insert(0, os.path.join(HERE, "rules"))
sys.path.insert(0, os.path.join(HERE, "engine"))
from properties import ALL  # noqa
import props  # noqa

lines, checks, na = [], [], []
for p in ALL:
    d = {
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["forall"]},
        "why_tests_cant": p["tests"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None},
    }
    if p.get("observe"):
        d["anchors"]["observe_at"] = p["observe"]
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
    elif p["id"] in props.PROPS:
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "technique": p["technique"], "level": "other", "level_note": p["note"],
        })
    else:
        continue
    lines.append(json.dumps(d))
    assert len(p["title"]) <= 80, p["id"]
open(os.path.join(HERE, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the harness uses the crate's public API only. See DESIGN.md.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "n/a")
