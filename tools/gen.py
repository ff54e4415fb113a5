#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and the list of checks that exist (checks.txt)."""
import json, os
import props
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set(open(os.path.join(root, "tools", "checks.txt")).read().split())
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props.P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": props.FILES[p["files"]], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "./check setup", "checks": [], "not_applicable": [],
       "notes": "All machinery is in /verif/mc (Go) and /verif/check (driver). See DESIGN.md."}
for p in props.P:
    if p["id"] in have:
        man["checks"].append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                              "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        man["not_applicable"].append({"property": p["id"], "reason": "not built yet"})
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
