#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "static analysis: interprocedural value-flow and effect analysis over SSA (abstract interpretation), "
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, tech, note, claimed=True, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=a, _tech=tech, _note=note, _claimed=claimed))

def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, "", "", claimed=False)
    NA.append(dict(property=id, reason=reason))

exec(open(os.path.join(ROOT, "tools", "table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
checks = []
for p in sorted(P, key=lambda p: p["id"]):
    assert len(p["title"]) <= 80, p["id"]
    if not p["_claimed"]:
        continue
    checks.append({"property": p["id"], "quick_cmd": "./run.sh " + p["id"], "thorough_cmd": "./run.sh " + p["id"] + " thorough",
                   "technique": TECH + p["_tech"], "level": "other", "level_note": p["_note"]})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": NA}, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties,", len(checks), "claimed")
