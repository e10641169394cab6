"""C11 — no stale clause reference survives garbage collection or deletion."""
from vlib.common import *
from vlib.absint import Stuck
from vlib.terms import *
from vlib.terms import I, T, B, REF, NONE, SOME, emit, GH0, UNIT
from vlib.solver import pp, flat, vindex, writers_ok
from vlib.lits import parts
from vlib.outputs import events
from vlib.ir import Missing, last, Call, base_type
from .c04 import Steps, deep, see, m_fact, V, TABLES, LITTY
from .c19 import collections, copies, covered, strip, FRESH, OLD, WL, DB
from .c26 import EQ, known_value

EXPLANATION = ("Type-based enumeration of every field that can hold a clause reference, so that a new holder is noticed; term-based abstract interpretation of the collector (each copied clause that justifies an "
               "assignment gets the justification updated to its copy, all references in the database are copies, watch lists are invalid), of the deletion guard, of the marking of justifying clauses and of "
               "the step that forgets top-level reasons before clauses are simplified; liveness analysis of the compiler's MIR: no local value that can hold a reference is live across a call that may collect.")
REFTY = V + "clause::alloc::ClauseRef"
NODE = "ImplGraph.nodes"
HANDLED = {"ClauseDb": "replaced by the collector", "Watch": "rebuilt after the collector", "Reason": "updated by the collector"}


def run(prog, r):
    r.rule("holders of clause references are updated or emptied when clauses are collected; justifying clauses are not deleted; no reference is kept across a collection")
    for part in (guarded, marked, moved, holders, alive, involved, forgotten, simplified):
        try:
            part(prog, r)
        except Stuck as e:
            r.fail("undecided", "%s: %s" % (part.__name__, e))
        except Missing as e:
            r.fail("anchor", str(e))


STATE = (V + "prop::graph::ImplGraph", V + "prop::assignment::Assignment", V + "prop::assignment::Trail")
CREF = ("a", "ClauseRef", (T("c", 0, 2 ** 32 - 1),))


def delete(ip, c, args, mem, gh, ev):
    return [(UNIT, mem, emit(gh, ("delete", deep(ip, mem, args[-1]))))]


def guarded(prog, r):
    """Clause reduction keeps clauses that justify an assignment."""
    ok = lambda b, text, detail="": r.check(b, "guard", text, detail)
    ip = Steps(prog, ((V + "clause::db::delete_clause", delete), EQ), TABLES)
    mem = ip.state(*STATE)
    ps = ip.paths(V + "clause::db::try_delete_clause", [("ctx",), CREF], mem)
    see(prog, r, ip, ps)
    first = ip.at(("sl", ("lits", CREF)), 0)
    got = set()
    for p in ps:
        if p.what != "ret":
            continue
        dels = [e for e in flat(p.evs) if e[0] == "delete"]
        value = known_value(ip, p.mem, first)
        whys = [p.mem[k] for k in p.mem if k[0] == "o" and isinstance(k[1], tuple) and k[1][0] == "cell" and k[1][1] == NODE and k[1][2] == vindex(parts(first)[0])]
        safe = value in ("none", "false")
        for why in whys:
            w = ip.close(p.mem, why)
            reason = w[2][[f["name"] for f in prog.adt(V + "prop::graph::ImplNode")["variants"][0]["fields"]].index("reason")] if w is not None and w[0] == "a" else None
            if reason is not None and reason[0] == "a" and reason[1] != "Long":
                safe = True
            elif reason is not None and reason[0] == "a":
                x = ip.compare(p.mem, "Eq", reason[2][0][2][0], CREF[2][0]) if reason[2][0] is not None and reason[2][0][0] == "a" else None
                safe = safe or exact(ip.known(p.mem, x)) == 0
        ok(not dels or len(dels) == 1 and dels[0][1] == CREF and safe, "a clause that justifies a current assignment is not deleted", "value %s: %s" % (value, pp(p.evs)[:300]))
        ok(p.value == I(int(bool(dels))), "the caller is told whether the clause is deleted", pp(p.value))
        got.add(bool(dels))
    ok(got == {True, False}, "clauses may be deleted", str(got))
    # the reduction passes use the guard
    n = 0
    d = prog.fn(V + "clause::db::delete_clause")
    g = prog.fn(V + "clause::db::try_delete_clause")
    for c in sorted(prog.callers().get(d.id, ())):
        n += 1
        c = prog.bodies[c]
        ok(covered(prog, c, {g.id}, set()), "clauses are deleted one by one only after the test", c.id)
    r.floor("calls of delete_clause", n, 1)


def marked(prog, r):
    """Before a collection the clauses that justify assignments are marked; exactly these get their reason updated."""
    ok = lambda b, text, detail="": r.check(b, "mark", text, detail)
    ip, ps = collections(prog, "Mid")
    see(prog, r, ip, ps)
    got = set()
    for p in ps:
        its = copies(p)
        if p.what != "ret" or its is None:
            continue
        k = next(i for i, e in enumerate(p.evs) if e[0] == "loop" and strip(e[1]) == "ClauseDb.clauses")
        loops = [e for e in p.evs[:k] if e[0] in ("loop", "brk") and strip(e[1]) == "Trail.trail"]
        ok(len(loops) == 1 and loops[0][0] == "loop", "all assignments are looked at before the clauses are copied", pp(p.evs)[:300])
        for it in loops[0][2] if loops else ():
            evs = list(flat(it))
            e = ("e", loops[0][1])
            why = [x[2] for x in evs if x[0] == "is" and isinstance(x[1], tuple) and x[1][0] == "enum" and mentions(x[1], NODE)]
            sets = [x for x in evs if x[0] == "header"]
            at = [x[2] for x in evs if x[0] == "access" and x[1] == NODE]
            ok(at and all(x == vindex(parts(ip.element(e))[0]) for x in at), "the reason looked at is that of the assigned variable", pp(at))
            if why == ["Long"]:
                ok(len(sets) == 1 and sets[0][1] == "set_mark" and sets[0][3] == I(1) and mentions(sets[0][2], NODE) and mentions(sets[0][2], "Long"), "a clause that justifies an assignment is marked", pp(evs)[:300])
                got.add("mark")
            else:
                ok(not sets and len(why) == 1, "other clauses are not marked", pp(evs)[:300])
                got.add("other")
    ok(got == {"mark", "other"}, "all kinds of reasons are possible", str(got))


def moved(prog, r):
    ok = lambda b, text, detail="": r.check(b, "collect", text, detail)
    ip, ps = collections(prog, "Core")
    see(prog, r, ip, ps)
    got = set()
    for p in ps:
        its = copies(p)
        if p.what != "ret" or its is None:
            continue
        ok(p.mem.get(("o", V + "clause::alloc::ClauseAlloc")) == FRESH, "references are to the new storage", pp(p.mem.get(("o", V + "clause::alloc::ClauseAlloc"))))
        ok(p.fields.get("Watchlists.enabled") == I(0), "the watch lists are invalid after a collection", pp(p.fields.get("Watchlists.enabled")))
        ls, cs = ip.field(p.mem, DB, "by_tier"), ip.field(p.mem, DB, "clauses")
        for v in (cs,) + tuple(ls[2] if ls is not None and ls[0] == "a" else (None,)):
            ok(v is not None and v[0] == "q" and all(x[0] == "each" and all(y[0] == "one" and y[1][0] == "cref" and y[1][1][0] == "new" for z in x[2] for y in z) for x in v[2]), "all listed references are to copies", pp(v))
        for it in its:
            evs = list(flat(it))
            news = [x for x in evs if x[0] == "new"]
            ups = [x for x in evs if x[0] == "call" and x[1] == "update_reason"]
            if not news:
                ok(not ups, "reasons are only updated to copies", pp(evs)[:300])
                continue
            c = news[0][2][1]
            mark = [x[2] for x in evs if x[0] == "is" and x[1] == ("header", c, "mark")]
            ok(len(mark) == 1, "marked clauses are told apart", pp(evs)[:300])
            if mark and mark[0]:
                lit = parts(ip.at(("sl", ("lits", c)), 0))[0]
                ok(len(ups) == 1 and ups[0][-2:] == (("var", lit) if False else ups[0][-2], ("a", "Long", (("cref", ("new",) + news[0][2:]),))) and same_var(ups[0][-2], lit), "the assignment justified by a clause is justified by its copy afterwards", pp(ups))
                got.add("asserting")
            else:
                ok(not ups, "only the reasons of justified assignments change", pp(ups))
                got.add("plain")
    ok(got == {"asserting", "plain"}, "clauses may justify assignments", str(got))


def same_var(v, w):
    return v == w or v is not None and v[0] == "var" and v[1] == w or w is not None and w[0] == "var" and w[1] == v


# -------------------------------------------------------------------- holders
def carriers(prog):
    """ADTs whose values can contain a clause reference."""
    out = {base_type(REFTY)}
    while True:
        more = {a for a, d in prog.adts.items() if a not in out and a.startswith(V) for v in d["variants"] for f in v["fields"] if any(holds(f["ty"], x) for x in out)}
        if not more:
            return out
        out |= more


def holds(ty, adt):
    return re.search(r"(^|[^\w:])%s($|[^\w:])" % re.escape(adt), ty) is not None


def holders(prog, r):
    ok = lambda b, text, detail="": r.check(b, "holders", text, detail)
    cs = carriers(prog)
    n = 0
    known = {("Watch", "cref"), ("Watchlists", "watches"), ("ClauseDb", "clauses"), ("ClauseDb", "by_tier"), ("Reason", "0"), ("ImplNode", "reason"), ("ImplGraph", "nodes"), ("Conflict", "0"),
             ("FoundConflict", "0"), ("AnalyzeConflict", "involved"), ("Context", None), ("Solver", None), ("ClauseRef", None)}
    for a in sorted(cs):
        for v in prog.adts[a]["variants"]:
            for f in v["fields"]:
                if not any(holds(f["ty"], x) for x in cs):
                    continue
                n += 1
                s = last(a)
                ok((s, f["name"]) in known or (s, None) in known, "%s.%s is updated or emptied by a collection" % (s, f["name"]), "%s.%s: %s can hold references that a collection does not know" % (s, f["name"], f["ty"]))
    r.floor("fields holding clause references", n, 8)


def alive(prog, r):
    """No value that can hold a reference is used after a call that may have moved the clauses."""
    ok = lambda b, text, detail="": r.check(b, "alive", text, detail)
    col = prog.fn(V + "clause::gc::collect_garbage")
    up, work = {col.id}, [col.id]
    while work:
        for c in prog.callers().get(work.pop(), ()):
            o = prog.bodies[c]
            for x in (c, prog.owner_fn(o).id if o.is_closure else c):
                if x not in up:
                    up.add(x)
                    work.append(x)
    cs = {a for a in carriers(prog) if last(a) not in ("Solver", "Context", "ClauseDb", "Watchlists", "ImplGraph", "ImplNode")}
    n = 0
    for i in sorted(up - {col.id}):
        b = prog.bodies[i]
        if not b.id.startswith(V):
            continue
        r.saw(b)
        for bi in range(len(b.blocks)):
            t = b.blocks[bi]["t"]
            if t["k"] != "call" or t.get("to") is None:
                continue
            c = Call(b, bi)
            if c.target_id not in up:
                continue
            n += 1
            for l in sorted(b.live_in()[t["to"]]):
                ty = b.loc_type(l)
                if l == t["d"]["l"] or "Context<" in ty and not any(holds(ty, x) for x in cs):
                    continue
                ok(not any(holds(ty, x) for x in cs), "%s keeps no clause reference across a collection" % b.id, "%s in %s is used after the call at %s" % (ty[:120], b.id, c.span()))
    r.floor("calls that may collect", n, 2)


# ------------------------------------------------- clauses involved in a conflict
def always(prog, body, good, depth=2):
    """Blocks of body after which the given effect has happened."""
    out = set(good.get(body.id, ()))
    if depth:
        for bi in range(len(body.blocks)):
            if body.blocks[bi]["t"]["k"] == "call":
                t = prog.bodies.get(Call(body, bi).target_id)
                if t is not None and t.id != body.id and t.id.startswith(V) and t.n_blocks and not any(
                        body2_returns(t, always(prog, t, good, depth - 1))):
                    out.add(bi)
    return out


def body2_returns(body, without):
    """The returns reachable without passing one of the blocks."""
    for b in reachable(body, without):
        if body.blocks[b]["t"]["k"] == "return":
            yield b


def reachable(body, without):
    seen, work = set(), [0]
    while work:
        b = work.pop()
        if b in seen or b in without:
            continue
        seen.add(b)
        work.extend(body.succ(b))
    return seen


def involved(prog, r):
    """References of an earlier conflict are dropped before the next one is analyzed, and not used later."""
    ok = lambda b, text, detail="": r.check(b, "involved", text, detail)
    f = prog.fn(V + "analyze_conflict::analyze_conflict")
    good, other = {}, {}
    for s in mut_sites(prog, "AnalyzeConflict", "involved"):
        b = s.ctx.body
        names = Call(b, s.bi).names if s.kind == "call" else []
        if names and last(names[0]) in ("next", "next_back"):
            continue
        empties = s.kind != "call" or names and (last(names[0]) == "clear" or last(names[0]) == "truncate" and const_val(s.ctx.call_args(s.bi)[1]) == 0)
        kind = good if empties else other
        kind.setdefault(b.id, set()).add(s.bi)
    r.floor("writes of the involved clauses", sum(len(x) for x in other.values()), 2)
    done = always(prog, f, good)
    free = reachable(f, done)
    r.saw(f)
    users = set(other)
    ok(not any(free & x for b, x in other.items() if b == f.id), "the list is emptied before clauses are added")
    for bi in free:
        t = f.blocks[bi]["t"]
        if t["k"] == "call":
            c = Call(f, bi).target_id
            ok(c is None or not (prog.bodies.get(c) is not None and (reach_of(prog, c) & (users - {f.id}))), "the list is emptied before clauses are added", "%s at %s" % (c, Call(f, bi).span()))
        ok(t["k"] != "return", "the list is emptied by every analysis", "bb%d" % bi)
    for u in sorted(users):
        ok(covered(prog, prog.bodies[u], {f.id}, set()), "clauses are only added by the analysis", u)
    acc = prog.fn(V + "analyze_conflict::AnalyzeConflict::involved")
    n = 0
    for c in sorted(prog.callers().get(acc.id, ())):
        n += 1
        b = prog.bodies[c]
        sites = {bi for bi in range(len(b.blocks)) if b.blocks[bi]["t"]["k"] == "call" and Call(b, bi).target_id == acc.id}
        calls = {bi for bi in range(len(b.blocks)) if b.blocks[bi]["t"]["k"] == "call" and Call(b, bi).target_id == f.id}
        after = always(prog, b, {b.id: calls}, 1)
        ok(not (reachable(b, after) & sites) or lifted_after(prog, b, f), "the list is only used after an analysis", b.id)
    r.floor("uses of the involved clauses", n, 1)


def lifted_after(prog, b, f, depth=3):
    """Every call of b comes after a call of f."""
    cs = prog.callers().get(b.id, ())
    if not cs or depth == 0:
        return False
    for c in cs:
        x = prog.bodies[c]
        sites = {bi for bi in range(len(x.blocks)) if x.blocks[bi]["t"]["k"] == "call" and Call(x, bi).target_id == b.id}
        calls = {bi for bi in range(len(x.blocks)) if x.blocks[bi]["t"]["k"] == "call" and Call(x, bi).target_id == f.id}
        if not sites or reachable(x, calls) & sites and not lifted_after(prog, x, f, depth - 1):
            return False
    return True


def reach_of(prog, i):
    return {b if isinstance(b, str) else b.id for b in prog.reach([prog.bodies[i]])}


# ------------------------------------------------------ simplification at the top
def forgotten(prog, r):
    """When the top level is proven, its reasons are forgotten and the trail is emptied."""
    ok = lambda b, text, detail="": r.check(b, "forget", text, detail)

    def one_lit(ip, c, args, mem, gh, ev):
        return [(REF(("a", "array", (("rl", ip.close(mem, args[0])),))), mem, gh)]
    ip = Steps(prog, ((V + "prop::graph::Reason::lits", one_lit), V + "prop::assignment::Trail::clear", V + "prop::graph::ImplGraph::update_removed_unit"), TABLES)
    mem = ip.state(*STATE)
    ps = ip.paths(V + "unit_simplify::prove_units", [("ctx",)], mem)
    see(prog, r, ip, ps)
    got = set()
    for p in ps:
        if p.what != "ret":
            continue
        loops = [e for e in p.evs if e[0] in ("loop", "brk") and strip(e[1]) == "Trail.trail"]
        cleared = any(e[0] == "call" and e[1] == "clear" for e in p.evs) or p.fields.get("Trail.trail") == ("q", 0, ())
        value = exact(p.value) if p.value is not None else None
        if value != 0:
            ok(cleared and len(loops) == 1 and loops[0][0] == "loop", "if units are reported the trail is empty", pp(p.evs)[:300])
        for lp in loops:
            for it in lp[2]:
                evs = list(flat(it))
                ups = [e for e in evs if e[0] == "call" and e[1] == "update_removed_unit"]
                ok(len(ups) == 1 and same_var(ups[0][-1], parts(ip.element(("e", lp[1])))[0]), "the reason of every top-level assignment is forgotten", pp(evs)[:300])
                got.add("unit")
        got.add(value)
    ok({"unit", 0, 1} <= got, "units may be found", str(got))
    ip = Steps(prog, (), TABLES)
    ps = ip.paths(V + "prop::graph::ImplGraph::update_removed_unit", [("p", ("o", V + "prop::graph::ImplGraph"), ()), ("var", "v")], ip.state(*STATE))
    see(prog, r, ip, ps)
    for p in ps:
        if p.what == "ret":
            new = [v for (t, ix), (old, v) in p.cells.items() if t == NODE]
            ok(len(new) == 1 and new[0] is not None and ("a", "Unit", ()) in new[0][2], "a forgotten reason refers to no clause", pp(new))
    ip = Steps(prog, (), TABLES)
    ps = ip.paths(V + "prop::graph::ImplGraph::update_reason", [("p", ("o", V + "prop::graph::ImplGraph"), ()), ("var", "v"), ("opaque", "why")], ip.state(*STATE))
    see(prog, r, ip, ps)
    for p in ps:
        if p.what == "ret":
            new = [(ix, v) for (t, ix), (old, v) in p.cells.items() if t == NODE]
            ok(len(new) == 1 and ("opaque", "why") in new[0][1][2] and mentions(new[0][0], "v"), "an updated reason is that of the variable", pp(new))


def simplified(prog, r):
    """Clauses are filtered only when no assignment has a reason: right after prove_units reported units."""
    ok = lambda b, text, detail="": r.check(b, "simplify", text, detail)
    flt, prove = (prog.fn(V + x) for x in ("clause::db::filter_clauses", "unit_simplify::prove_units"))
    assigns = {s.ctx.body.id for s in mut_sites(prog, "Trail", "trail")} - {prove.id}
    r.floor("functions that change the trail", len(assigns), 2)
    n = 0
    memo = {}

    def touching(c):
        """Does this call assign variables, and not filter clauses?"""
        b = prog.bodies.get(c.target_id)
        if b is None or not b.id.startswith(V) or b.id in (prove.id, flt.id):
            return False
        if b.id not in memo:
            x = reach_of(prog, b.id) | {b.id}
            memo[b.id] = bool(assigns & x) and flt.id not in x
        return memo[b.id]

    def test(body):
        g = r.graph(Graph(prog, body, Policy(prog, interest=lambda c: c.target_id in (flt.id, prove.id) or touching(c))))
        sinks = [x.id for x in g.nodes if x.kind == "call" and x.call.target_id == flt.id]
        bad = [x.id for x in g.nodes if x.kind == "call" and touching(x.call)]
        found = edge_true(lambda e: has_call(e, r"::prove_units$"))
        calls = [x.id for x in g.nodes if x.kind == "call" and x.call.target_id == prove.id]
        return avoid_path(g, [g.entry], sinks, (), found) or (avoid_path(g, bad, sinks, calls) if bad else None)
    for c in sorted(prog.callers().get(flt.id, ())):
        b = prog.owner_fn(prog.bodies[c])
        r.saw(b)
        n += 1
        w = lifted(prog, b, test)
        ok(w is None, "clauses are only simplified right after units were found", b.id)
    r.floor("uses of the simplification", n, 1)
