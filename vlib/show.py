"""Pretty-printer for the facts (debugging aid): python3 -m vlib.show DIR PATTERN"""
import json, sys, glob, re

def pl(p):
    s = "_%d" % p["l"]
    for e in p["p"]:
        if e == "*": s = "(*%s)" % s
        elif e["k"] == "f": s += "." + e["n"]
        elif e["k"] == "i": s += "[_%d]" % e["l"]
        elif e["k"] == "d": s += " as %s" % e["v"]
        elif e["k"] == "ci": s += "[%s%d]" % ("-" if e["e"] else "", e["o"])
        else: s += "<%s>" % e["k"]
    return s
def fnr(f):
    s = f.get("rpath") or f["path"]
    if f.get("rid") is None and f.get("trait"): s = "dyn? " + s
    ga = f["ga"]
    return s + ("<%s>" % ", ".join(ga) if ga else "")
def op(o):
    if o["k"] in ("copy", "move"): return ("" if o["k"]=="copy" else "move ") + pl(o["p"])
    if o["k"] == "const":
        if "fn" in o: return fnr(o["fn"])
        for k in ("v", "s", "cpath", "promoted", "dbg"):
            if k in o: return "const %s %r" % (o["t"], o[k])
    return str(o)
def rv(r):
    k = r["k"]
    if k == "use": return op(r["a"])
    if k == "ref": return "&%s%s" % ("mut " if r["m"] else "", pl(r["p"]))
    if k == "bin": return "%s(%s, %s)" % (r["op"], op(r["a"]), op(r["b"]))
    if k == "un": return "%s(%s)" % (r["op"], op(r["a"]))
    if k == "cast": return "%s as %s (%s)" % (op(r["a"]), r["t"], r["c"])
    if k == "discr": return "discr(%s : %s)" % (pl(r["p"]), r["p"]["t"])
    if k == "agg": return "%s{%s}" % (r.get("adt", "") + "::" + r.get("variant", "") if "adt" in r else r.get("closure", "tuple/array"), ", ".join(op(x) for x in r["ops"]))
    if k == "rawptr": return "&raw %s" % pl(r["p"])
    return str(r)
def show(b):
    print("fn %s  [%s] %s:%s trait=%s self=%s" % (b["path"], b["id"], b["span"]["f"], b["span"]["l"], b.get("trait"), b.get("self_ty")))
    for i, l in enumerate(b["locals"]):
        print("    let _%d%s: %s" % (i, " (%s)" % l["n"] if l["n"] else "", l["t"]))
    for i, bb in enumerate(b["blocks"]):
        if bb["cu"]: continue
        print("  bb%d:" % i)
        for s in bb["st"]:
            if s["k"] == "=": print("    %s = %s   // %s%s" % (pl(s["d"]), rv(s["r"]), s["s"]["l"], " "+s["s"]["m"] if s["s"]["m"] else ""))
            elif s["k"] == "sd": print("    setdiscr", s)
        t = bb["t"]; k = t["k"]
        if k == "call": print("    %s = CALL %s(%s) -> %s  // %s" % (pl(t["d"]), op(t["f"]), ", ".join(op(a) for a in t["args"]), t["to"], t["s"]["l"]))
        elif k == "switch": print("    switch %s %s ow=%s // %s" % (op(t["a"]), t["ts"], t["ow"], t["s"]["l"]))
        elif k == "drop": print("    drop %s -> %s" % (pl(t["p"]), t["to"]))
        elif k == "assert": print("    assert %s==%s (%s) -> %s" % (op(t["a"]), t["e"], t["m"], t["to"]))
        else: print("    %s %s" % (k, t.get("to", t.get("dbg",""))))
if __name__ == "__main__":
    for f in glob.glob(sys.argv[1] + "/*.json"):
        for b in json.load(open(f))["bodies"]:
            if re.search(sys.argv[2], b["id"] + " " + b["path"]): show(b)
