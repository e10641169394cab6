#!/usr/bin/env python3
"""Writes DESIGN.md."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, na=na))


exec(open(os.path.join(V, "tools", "props.py")).read())


def explanation(p):
    f = os.path.join(V, "rules", p["id"].lower() + ".py")
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "EXPLANATION":
            return ast.literal_eval(n.value)


def counts(p):
    try:
        e = json.load(open(os.path.join(V, "evidence", p["id"] + ".json")))
        return e
    except OSError:
        return None


out = [open(os.path.join(V, "tools", "design_head.md")).read(), "\n## Properties and how each is decided\n"]
claimed = [p for p in P if p["na"] is None and os.path.exists(os.path.join(V, "rules", p["id"].lower() + ".py"))]
for p in claimed:
    out.append("### %s — %s\n" % (p["id"], p["title"]))
    out.append("* Quantifies over: %s." % p["qtext"])
    out.append("* Deciding method: %s." % p["technique"])
    out.append("* What is analysed: %s" % explanation(p))
    out.append("* Strength and limits: %s" % p["note"].replace(TRUST, "").strip())
    out.append("* Why tests cannot settle it: %s\n" % p["why"])
tail = open(os.path.join(V, "tools", "design_tail.md")).read()
na = "\n".join("* **%s** %s — %s" % (p["id"], p["title"], p["na"] or "rule not built yet") for p in P if p not in claimed)
fixed = "\n".join("* " + l.strip()[len("fixed: property="):] for l in open(os.path.join(V, "known_findings.jsonl")) if l.startswith("fixed:"))
rows = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |" % (f.split("/")[-2], m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m["property"]))
tail = tail.replace("@NA@", na).replace("@FIXED@", fixed).replace("@SEEDS@", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n" + tail)
print(len(claimed), "claimed", len(rows) - 2, "seeds")
