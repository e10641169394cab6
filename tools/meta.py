#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  A property is claimed iff rules/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))


exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
checks, na = [], []
for p in P:
    if p["na"] is None and os.path.exists(os.path.join(V, "rules", p["id"].lower() + ".py")):
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
                       "technique": "static analysis: " + p["technique"], "level": "other",
                       "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "rule not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 -m vlib.facts",
           "checks": checks, "not_applicable": na,
           "notes": "All checks analyse rustc's MIR of /repo's current tree (no hooks in /repo are needed)."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed,", len(na), "not claimed")
