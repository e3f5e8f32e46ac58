#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the single table below (run by hand after an edit)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, state=state or []))

exec(open(os.path.join(here, "tools", "properties.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        for m in p["files"]:
            assert os.path.exists(os.path.join("/repo", m)), m
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
json.dump({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "VERIF_TIER=quick bash check.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p["id"],
        "technique": p["technique"], "level": "model_checking", "level_note": p["note"],
    } for p in P if os.path.isdir(os.path.join(here, "harness", p["id"].lower()))],
    "not_applicable": NA + [{"property": p["id"], "reason": "no check yet"} for p in P if not os.path.isdir(os.path.join(here, "harness", p["id"].lower()))],
    "notes": "Every check builds a harness into /repo's module through a go build overlay (nothing is written in /repo) and enumerates the stated space on the real code; see DESIGN.md.",
}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
