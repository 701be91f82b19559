#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand when the table changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, q, why, files, mech, technique=None, note=None, na=None, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append((d, technique, note, na))


exec(open(os.path.join(V, "tool", "props.py")).read())

ids = [d["id"] for d, *_ in P]
assert len(ids) == len(set(ids))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        f.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for d, tech, note, na in P:
    if na:
        man["not_applicable"].append({"property": d["id"], "reason": na})
    else:
        man["checks"].append({"property": d["id"], "quick_cmd": "python3 check.py %s --tier quick" % d["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % d["id"],
                              "evidence_file": "evidence/%s.json" % d["id"], "technique": tech, "level": "other", "level_note": note})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "checks,", len(man["not_applicable"]), "not applicable")
