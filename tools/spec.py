#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (one place to keep them in step)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, level, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, level=level, note=note, observe=observe))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                   "hook_needed": None}
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        fh.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": anchors}) + "\n")

checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")):
        checks.append({"property": p["id"], "quick_cmd": "./run %s" % p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough ./run %s" % p["id"],
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "no check yet"})
na += NOT_APPLICABLE
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": NOTES}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
