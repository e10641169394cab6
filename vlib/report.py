"""Obligation bookkeeping, known findings, evidence and exit protocol."""
import json, os, sys, time
from . import facts

VERIF = facts.VERIF
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


class Report:
    def __init__(self, pid, prog, tier, seed):
        self.pid, self.prog, self.tier, self.seed = pid, prog, tier, seed
        self.t0 = time.time()
        self.obls = []          # (key, ok, text)
        self.viol = {}          # key -> text
        self.rules = []
        self.fns = set()
        self.counts = {}
        self.notes = []

    # -- bookkeeping of what was analysed
    def rule(self, text):
        self.rules.append(text)

    def graph(self, g):
        """Register an exploded graph as analysed."""
        self.fns |= {g.prog.bodies[i].path for i in g.inlined}
        self.counts["graph_nodes"] = self.counts.get("graph_nodes", 0) + len(g.nodes)
        self.counts["entry_points"] = self.counts.get("entry_points", 0) + 1
        return g

    def saw(self, body):
        self.fns.add(body.path)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    # -- verdicts
    def ok(self, key, text=""):
        self.obls.append((key, True, text))

    def fail(self, key, text):
        self.obls.append((key, False, text))
        self.viol.setdefault(key, text)

    def check(self, cond, key, text, bad=None):
        if cond:
            self.ok(key, text)
        else:
            self.fail(key, bad or text)
        return cond

    def floor(self, what, n, minimum):
        """The rule must have found at least the instances confirmed by hand."""
        self.counts["floor:" + what] = n
        if n < minimum:
            self.fail("floor/" + what, "rule found only %d instances of `%s`, %d were confirmed when the rule was armed: "
                      "the mechanism it checks has been removed or is no longer recognisable" % (n, what, minimum))

    # -- must-pass-through on an exploded graph
    def must_cross(self, g, key, targets, what, edge=None, node=None, starts=None, min_targets=1):
        """Every path from the entry to each target takes an edge satisfying `edge` (some atom) or
        passes a node satisfying `node`."""
        targets = list(targets)
        if len(targets) < min_targets:
            self.fail(key, "no program point found for: " + what)
            return False

        def be(u, v, cs):
            return edge is not None and any(edge(c) for c in cs)

        def bn(v):
            return node is not None and node(g.nodes[v])
        good = True
        byloc = {}
        for t in targets:
            byloc.setdefault(g.nodes[t].span(), []).append(t)
        for loc, ts in byloc.items():
            p = g.search(starts if starts is not None else [g.entry], ts, block_node=bn, block_edge=be)
            if p is None:
                self.ok(key, "%s at %s" % (what, loc))
            else:
                good = False
                self.fail(key, "%s — violated at %s via path: %s" % (what, g.nodes[p[-1]].where(), " -> ".join(g.describe(p))))
        return good

    # -- end
    def finish(self, level="other", explanation="", assumptions=()):
        known, fixed = load_known(self.pid)
        new = {k: v for k, v in self.viol.items() if k not in known}
        for k, v in self.viol.items():
            if k in known:
                print("KNOWN-FINDING: property=%s %s :: %s" % (self.pid, k, known[k]))
        vdir = os.path.join(VERIF, "evidence", "violations")
        if new:
            os.makedirs(vdir, exist_ok=True)
            path = os.path.join(vdir, self.pid + ".txt")
            with open(path, "w") as f:
                for k, v in new.items():
                    f.write("[%s] %s\n%s\n\n" % (self.pid, k, v))
            for k, v in new.items():
                print("[%s] %s: %s" % (self.pid, k, v))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        n = len(self.obls)
        d = sum(1 for o in self.obls if o[1])
        samples, seen = [], set()
        for k, ok, t in self.obls:
            fam = k.split("/")[0]
            if fam not in seen or len(samples) < 12:
                seen.add(fam)
                samples.append("%s [%s] %s" % ("ok" if ok else "FAIL", k, t[:200]))
            if len(samples) >= 40:
                break
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "explanation": explanation,
                "obligations": n, "discharged": d,
                "rules": self.rules,
                "functions_analysed": len(self.fns),
                "functions": sorted(self.fns)[:200],
                "counts": self.counts,
                "bodies_in_program": sum(1 for _ in self.prog.local_fns()),
                "samples": samples,
                "facts_key": self.prog.key,
            },
            "assumptions": list(assumptions),
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d discharged, %d functions, %d new violations (%.1fs)" %
              (self.pid, n, d, len(self.fns), len(new), time.time() - self.t0))
        return 1 if new else 0


def load_known(pid):
    """known_findings.jsonl: {"property","key","what","status":"known"} or status "fixed"."""
    known, fixed = {}, {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith("fixed:") or line.startswith("#"):
                continue
            d = json.loads(line)
            if d["property"] == pid and d.get("status", "known") == "known":
                known[d["key"]] = d["what"]
    return known, fixed
