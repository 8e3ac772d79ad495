#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # claimed and unclaimed properties
NA = []     # (id, reason)

def prop(id, title, statement, over, text, why, files, mech, observe, level=None, technique=None, note=None, na=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}, level, technique, note))
    if na:
        NA.append((id, na))

exec(open(os.path.join(D, "tools", "props.py")).read())

with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p, *_ in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
na = {i for i, _ in NA}
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "bash run.sh " + p["id"], "thorough_cmd": "bash run.sh " + p["id"],
                 "technique": t, "level": l, "level_note": n} for p, l, t, n in P if p["id"] not in na],
     "not_applicable": [{"property": i, "reason": r} for i, r in NA]}
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
