"""C22 — Every accepted checker mutation is reported to all proof processors."""
from vlib.common import *
from vlib.absint import Stuck, exact, I
from vlib.checkersteps import *
from vlib.checkersteps import Path
from vlib.outputs import variant
from vlib.terms import T, B, NONE, SOME, GH0
from . import c07, c21

EXPLANATION = ("Term-based abstract interpretation of every kind of checker step with arbitrary contents and checker state, stores and deletions by contract: from the changes a path makes (clauses stored or deleted with "
               "their outcome, variable data, unit clauses, assumptions) the required sequence of events is computed and compared with the events the path hands to the processors, in order and with identifiers, "
               "literals and hints; a path on which a processor fails must have reported a prefix of it and return the error. Delivery to all processors and the hints collected by the propagation check are interpreted separately.")


def run(prog, r):
    r.rule("events handed to the processors = events required for the changes made, for every path of every step; each event is delivered to every processor; a failing processor ends the step with an error")
    for part in (steps_, c21.deliver, hints, conflicts, c07.acceptance, reporters):
        try:
            part(prog, r)
        except Stuck as e:
            r.fail("undecided/" + part.__name__, "%s: %s" % (part.__name__, e))


def ev(prog, name, **f):
    return variant(prog, CHECKED, name, **f)


def same(a, b):
    """b matches the required value a (a may list alternatives in a frozenset)."""
    if a == b:
        return True
    if isinstance(a, frozenset):
        return any(same(x, b) for x in a)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


def required(prog, p):
    """Events for the changes the path makes (None: cannot tell)."""
    kind, req = p.kind, []
    clause = {"AddClause": "AddClause.clause", "AtClause": "AtClause.clause", "DeleteClause": "DeleteClause.clause"}.get(kind)
    C = CANON(clause) if clause else None
    nid = ident("next_clause_id")
    K = ident("stored")
    trace = lambda ls, hs: ("sl", ("trace of", ls, hs))
    if kind == "AddClause":
        res = next((e[1] for e in p.all("stored")), None)
        if res == "New":
            req.append(ev(prog, "AddClause", id=K, clause=C))
        if res == "NewlyIrredundant":
            req.append(ev(prog, "MakeIrredundant", id=K, clause=C))
        if res in ("NewlyIrredundant", "Duplicate"):
            req.append(ev(prog, "DuplicatedClause", id=nid, same_as_id=K, clause=C))
        if res is None and p.fact(B(("taut", ("sl", clause)))) is True and p.fact(B("unsat")) is not True:
            req.append(ev(prog, "TautologicalClause", id=nid, clause=C))
    elif kind == "AtClause":
        res = next((e[1] for e in p.all("stored")), None)
        red = p.ip.known(p.mem, T("AtClause.redundant", 0, 1))
        if res == "New":
            req.append(ev(prog, "AtClause", id=K, redundant=red, clause=C, propagations=trace(C, ("sl", "AtClause.propagation_hashes"))))
        if res == "NewlyIrredundant":
            req.append(ev(prog, "MakeIrredundant", id=K, clause=C))
    elif kind == "DeleteClause":
        res = next((e[1] for e in p.all("deleted")), None)
        red = next((p.ip.known(p.mem, e[2]) for e in p.all("delete")), None)
        if exact(red) == 1 and res == "Removed":
            req.append(ev(prog, "DeleteClause", id=ident("deleted"), clause=C))
        if exact(red) == 0 and res in ("Removed", "NewlyRedundant"):
            req.append(ev(prog, "DeleteAtClause", id=ident("deleted"), keep_as_redundant=I(res == "NewlyRedundant"), clause=C, propagations=("a", None, (subsuming(p),))))
        if res in ("Removed", "NewlyRedundant") and exact(red) is None:
            return None
    elif kind == "Assumptions":
        if p.fields.get("assumptions") is not None:
            req.append(ev(prog, "Assumptions", assumptions=CANON("Assumptions.assumptions")))
    elif kind == "Model":
        req.append(ev(prog, "Model", assignment=("sl", "Model.assignment")))
    elif kind == "FailedAssumptions":
        c = CANON("FailedAssumptions.failed_core")
        rebuilt = frozenset([c, ("q", 0, (("each", c[1], frozenset({(("one", ("e", c[1])),)})),))] + ([("q", 0, ())] if p.ip.interval(p.mem, ("t", ("len", c[1]), 0, 2 ** 62)) == (0, 0) else []))
        taut = p.fact(B(("taut", ("sl", "FailedAssumptions.failed_core"))))
        rup = p.all("rup")
        hint = ("q", 0, ()) if taut is True and not rup else trace(rup[-1][1], rup[-1][2]) if rup else None
        req.append(ev(prog, "FailedAssumptions", failed_core=rebuilt, propagations=hint))
    # changes of the tables
    vf = [f["name"] for f in prog.adt(VARDATA)["variants"][0]["fields"]]
    for (table, i), (old, new) in sorted(p.cells.items(), key=repr):
        v = var_of(i)
        if table == "unit" and old is not None and old[0] == "a" and old[1] == "Some" and new == NONE:
            u = old[2][0][2]
            if u[p.ip.ii][1] != "Global":
                return None
            l = frozenset([("lit", v, u[p.ip.iv])])
            req.append(ev(prog, "DeleteRatClause", id=u[p.ip.ii][2][0], keep_as_redundant=I(0), clause=("a", None, (l,)), pivot=l, propagations=("a", "ResolutionPropagations", ())))
        elif table == "unit":
            return None
        if table == "var":
            if old is None or new is None or old[0] != "a" or new[0] != "a":
                return None
            oldu, newu = (resolve(p, x[2][vf.index("user_var")]) for x in (old, new))
            oldm, newm = (resolve(p, x[2][vf.index("sampling_mode")]) for x in (old, new))
            if kind == "DeleteVar":
                if oldu != NONE or newu != NONE:
                    return None
                continue
            if None in (oldu, newu):
                if oldm == newm:
                    continue
                return None
            if newu[1] == "Some" and (oldu[1] == "None" or oldu != newu or oldm is None or newm is None or oldm[1] != newm[1]):
                if newm is None or newm[1] not in ("Sample", "Witness"):
                    return None
                x = struct_(prog, "processing::CheckedUserVar", user_var=newu[2][0], sampling_mode=("a", newm[1], ()), new_var=I(oldu[1] == "None"))
                req.append(ev(prog, "UserVar", var=v, user_var=SOME(x)))
            elif newu[1] == "None" and oldu[1] == "Some":
                req.append(ev(prog, "UserVar", var=v, user_var=NONE))
    return req


def struct_(prog, name, **f):
    from vlib.outputs import struct
    return struct(prog, CK + name, **f)


def resolve(p, v):
    """Enum value with the variant the path found it to have."""
    if v is not None and v[0] == "u":
        k = p.variant(v[1])
        for name, pay in v[2]:
            if name == k:
                return ("a", name, pay)
        return None
    return v


def subsuming(p):
    """Identifiers that justify a deletion: a true unit of the clause or the previous clause."""
    k = p.variant(("enum", "DeleteClause.proof"))
    if k == "Simplified":
        return ident(("previous_irred_clause_id",))
    x = ("e", CANON("DeleteClause.clause")[1])
    return frozenset([ident(("unit id", ("vr", x))), ident(("unit id", ("vr", ("pe", x[1])))), ident(("unit id", ("vr", ("at", x[1]))))])


def reported(p):
    return [e for e in c07.linear_order(p.evs) if e[0] == "report" or e[:2] == ("fail", "processor")]


def show_ev(v):
    return v[1] + "(" + ", ".join(pp(x) for x in v[2]) + ")" if v is not None and v[0] == "a" else pp(v)


def steps_(prog, r):
    n = kinds = failing = 0
    seen = set()
    for kind, paths in all_steps(prog, r).items():
        for p in paths:
            if p.what == "panic":
                continue
            key = "step/" + kind
            evs = reported(p)
            got = [e[1] if e[0] == "report" else e[2] for e in evs]
            broken = any(e[0] == "fail" for e in evs)
            if broken:
                failing += 1
                r.check(p.err and not c07.failed_then(p.evs), key + "/failure", "failure ends the step", "a %s step goes on after a processor failed%s" % (kind, "" if p.err else " and returns %s" % pp(p.value)))
            if kind == "UnitClauses":
                n += units(prog, p, r)
                continue
            if not p.ok and not broken:
                r.check(not got, key + "/rejected", "nothing reported", "a rejected %s step reports %s" % (kind, ", ".join(map(show_ev, got))))
                continue
            if p.ok:
                r.check(not any(e[0] in ("report", "set", "store", "delete") for s in inner(p.evs) for e in s), key + "/once", "once", "a %s step repeats its effects in a loop" % kind)
            req = required(prog, p)
            if broken:      # the step was cut short: what was reported so far
                r.check(bool(got) and (req is None or kind not in ("AddClause", "AtClause", "DeleteClause", "Model") or all(same(a, b) for a, b in zip(req, got)) and len(got) <= len(req)), key + "/reported before failure", "as required",
                        "before a processor failed, a %s step reported %s" % (kind, ", ".join(map(show_ev, got))))
                continue
            n += 1
            ok = req is not None and len(req) == len(got) and all(same(a, b) for a, b in zip(req, got))
            r.check(ok, key + "/events", "required events", "a %s step reports %s%s" % (kind, ", ".join(map(show_ev, got)) or "nothing", " although its changes are not among those that can be reported" if req is None
                    else "; required for its changes: " + (", ".join(map(show_ev, req)) or "nothing")))
            seen |= {g[1] for g in got if g is not None}
            for e in evs:
                if e[0] == "report" and e[1] is not None and e[1][1] == "UserVar":
                    name = resolve(p, e[2])
                    r.check(name is not None and name[0] == "a" and name[1] == "Some", key + "/name", "processors can look up the name", "a %s step reports a user name while the variable has none" % kind)
            if kind == "AddClause" and got and got[-1][1] in ("DuplicatedClause", "TautologicalClause"):
                r.check(c07.more(p, p.fields.get("next_clause_id"), ident("next_clause_id")), key + "/id used", "identifier used up", "the identifier reported for a duplicated or tautological clause is not used up")
    r.count("accepted paths compared", n)
    r.floor("accepted paths compared", n, 45)
    r.floor("paths with a failing processor", failing, 12)
    r.floor("kinds of events seen", len(seen), 11)


def inner(evs):
    """Event sequences of loop iterations that were completed."""
    for e in evs:
        if e[0] in ("loop", "brk"):
            for it in e[2]:
                yield it
                yield from inner(it)
            if e[0] == "brk":
                yield from inner(e[3])


def units(prog, p, r):
    """Every unit stored is reported in its own iteration."""
    n = 0
    X = ("e", "UnitClauses.units#lit")
    hashes = ("a", None, (T(("e", "UnitClauses.units#hash")),))
    for s in iterations(p.evs):
        st = [i for i, e in enumerate(s) if e[0] == "stored"]
        got = [e for e in s if e[0] == "report" or e[:2] == ("fail", "processor")]
        if not st:
            r.check(not got, "step/UnitClauses/unstored", "nothing reported", "a UnitClauses step reports %s without storing a unit clause" % ", ".join(show_ev(e[1] if e[0] == "report" else e[2]) for e in got))
            continue
        n += 1
        one = ("a", None, (X,))
        want = [] if s[st[0]][1] == "Duplicate" else [ev(prog, "AtClause", id=ident("stored"), redundant=I(0), clause=one, propagations=("sl", ("trace of", one, hashes)))]
        vals = [e[1] if e[0] == "report" else e[2] for e in got]
        r.check(len(st) == 1 and vals == want and all(s.index(e) > st[0] for e in got), "step/UnitClauses/events", "required events", "a unit clause (%s) is stored and %s reported; required: %s" % (
            s[st[0]][1], ", ".join(map(show_ev, vals)) or "nothing", ", ".join(map(show_ev, want)) or "nothing"))
    return n


def iterations(evs):
    """Event sequences of single iterations; those of a loop left early include the last one."""
    for e in evs:
        if e[0] in ("loop", "brk"):
            for it in e[2]:
                yield it
            if e[0] == "brk":
                yield e[3]


def hints(prog, r):
    """The hints are the identifiers of all clauses used by the propagation check, in order."""
    ip, ps = rup_paths(prog)
    for b in ip.bodies:
        r.saw(prog.bodies[b])
    for k, msg in sorted(ip.bad.items()):
        if k == "trace":
            r.fail("hints/used", "unit propagation check: " + msg)
    want = (("each", "used", frozenset({(("one", ident(("trace id", ("e", "used")))),)})),)
    n = 0
    for p in ps:
        if p.what == "panic" or not p.ok or not p.gh[3]:
            continue
        ids = p.fields.get("trace_ids")
        item = p.mem.get(("o", ("trace item",)))
        kept = item is None or item[2][[f["name"] for f in prog.adt(CK + "rup::TraceItem")["variants"][0]["fields"]].index("id")] == ident("some trace id")
        if p.ip.interval(p.mem, ("t", ("len", "proof processors"), 0, 2 ** 62)) == (0, 0):
            continue        # nobody receives them
        n += 1
        r.check(ids is not None and ids[0] == "q" and ids[2] == want and kept, "hints/all", "all clauses used, in order", "after a successful propagation check the hints are `%s`" % pp(ids))
    r.floor("propagation checks with hints", n, 8)


def conflicts(prog, r):
    """Conflicting unit clauses are reported as the derived empty clause."""
    fn = prog.fn(CK + "state::process_unit_conflicts")
    pay = ("a", "array", (ident("unit a"), ident("unit b")))
    ip = Check(prog)
    mem = memory(prog, unit_conflict=("u", ("opt", "unit_conflict"), (("None", ()), ("Some", (pay,)))))
    ps = [Path(prog, ip, "conflicts", o, mem) for o in ip.run(fn, [("ctx",)] * fn.argc, mem, GH0)]
    for b in ip.bodies:
        r.saw(prog.bodies[b])
    n = 0
    for p in ps:
        some = p.variant(("opt", "unit_conflict"))
        got = [e[1] if e[0] == "report" else e[2] for e in reported(p)]
        if some == "None":
            r.check(p.ok and not got, "conflict/none", "nothing", "without conflicting unit clauses %s is reported" % ", ".join(map(show_ev, got)))
            continue
        n += 1
        want = [ev(prog, "AtClause", id=ident("next_clause_id"), redundant=I(0), clause=frozenset([("a", None, ()), ("a", "array", ())]), propagations=frozenset([pay, ("a", None, pay[2])]))]
        r.check(len(got) == 1 and same(want[0], got[0]) and (p.err if p.failed else p.ok), "conflict/event", "empty clause from both units", "conflicting unit clauses are reported as %s (result %s)" % (", ".join(map(show_ev, got)) or "nothing", pp(p.value)))
    r.floor("reports of conflicting units", n, 2)


def reporters(prog, r):
    """Events are only reported by the code judged above."""
    fn = prog.fn(CK + "processing::process_step")
    end = prog.fn(CK + "state::process_unit_conflicts")
    all_steps(prog)
    n = 0
    for b in prog.bodies.values():
        for c in b.calls():
            if c.target_id == fn.id:
                n += 1
                r.check(b.id in VISITED or b.id == end.id, "reporter/" + b.path, "judged", "%s reports a checked step but is not part of checking a step" % b.path)
    r.floor("places that report", n, 12)
