"""C26 — assignment, trail and decision bookkeeping change together."""
from vlib.common import *
from vlib.absint import Stuck
from vlib.terms import *
from vlib.terms import I, T, REF, NONE, SOME, emit, GH0
from vlib.solver import Sol, Path, pp, flat, main, var_of, vindex, writers_ok
from vlib.lits import parts
from vlib.outputs import events
from vlib.ir import Missing

EXPLANATION = ("Term-based abstract interpretation of the functions that assign, retract and decide (enqueueing, backtracking, restarting, deciding, taking up assumptions, "
               "removing and restoring top-level units, learning) on an arbitrary solver state; on every path the changes of the assignment, saved phases, implication graph, trail, decision "
               "levels, queue position and decision candidates must be the matching set, and no function outside the interpreted ones writes any of them.")

P = "varisat::prop::"
A = P + "assignment::"
TABLES = ("Assignment.assignment", "Assignment.last_value", "ImplGraph.nodes")
STATE = (A + "Assignment", A + "Trail", P + "graph::ImplGraph", "varisat::assumptions::Assumptions", "varisat::state::SolverState", "varisat::decision::vsids::Vsids")
AVAILABLE = "varisat::decision::vsids::Vsids::make_available"
ENQ, BACK = A + "enqueue_assignment", A + "backtrack"
L = ("lt", "l")
LEVEL = T(("len", "Trail.decisions"), 0, 2 ** 62)
TRAIL = T(("len", "Trail.trail"), 0, 2 ** 62)


def same(a, b):
    """The same value, whatever is known of its range."""
    return a is not None and b is not None and (a == b or a[0] == b[0] == "t" and a[1] == b[1])


def new_entry(v, before, added):
    """v is the named sequence followed by exactly one more element."""
    if v is None or v[0] != "q" or len(v[2]) != 2:
        return False
    a, b = v[2]
    return a[0] == "each" and a[1] == before and b[0] == "one" and same(b[1], added)


def run(prog, r):
    widths(prog, r, "varisat::prop", "varisat::decision", "varisat::cdcl", "varisat::assumptions")
    r.rule("assigning records value, trail entry, reason and level; retracting undoes them, saves the phase and makes the variable a candidate again; nothing else writes them")
    for part in (enqueue, retract, queue, decide, assume, units, learn, imply, writers):
        try:
            part(prog, r)
        except Stuck as e:
            r.fail("undecided", "%s: %s" % (part.__name__, e))
        except Missing as e:
            r.fail("anchor", str(e))
    r.floor("paths of the interpreted functions", r.counts.get("paths", 0), 40)
    r.floor("writes", r.counts.get("writes", 0), 8)


def interpret(prog, r, name, args=(("ctx",),), contracts=(), more=None, pre=None, **kw):
    ip = Sol(prog, contracts, TABLES, more=more, **kw)
    mem = ip.state(*STATE)
    mem.update(pre or {})
    ps = ip.paths(name, list(args), mem)
    for b in ip.bodies:
        r.saw(prog.bodies[b])
        INTERPRETED.add(b)
    r.count("paths", len(ps))
    return ip, ps


INTERPRETED = set()


def node(v):
    """(reason, level, depth) of an implication graph node."""
    return v[2] if v is not None and v[0] == "a" and len(v[2]) == 3 else (None, None, None)


def strip(v):
    while isinstance(v, tuple) and len(v) == 2 and v[0] in ("vr", "var"):
        v = v[1]
    return v


def enqueue(prog, r):
    ip, ps = interpret(prog, r, ENQ, [("ctx",), L, ("opaque", "reason")])
    order = [f["name"] for f in prog.adt(P + "graph::ImplNode")["variants"][0]["fields"]]
    ok = [p for p in ps if p.what == "ret"]
    r.check(bool(ok), "enqueue", "returns")
    for p in ok:
        asg = {k: v for k, v in p.cells.items() if k[0] == "Assignment.assignment"}
        nodes = {k: v for k, v in p.cells.items() if k[0] == "ImplGraph.nodes"}
        sets = dict(zip(order, node(list(nodes.values())[0][1]))) if len(nodes) == 1 else {}
        r.check(len(asg) == 1 and vof(list(asg)[0][1]) == L and list(asg.values())[0][1] == SOME(parts(L)[1]), "enqueue", "the variable gets the value that makes the literal true")
        r.check(len(nodes) == 1 and vof(list(nodes)[0][1]) == L, "enqueue", "the implication graph node of that variable is written")
        r.check(sets.get("reason") == ("opaque", "reason"), "enqueue", "the reason is recorded")
        r.check(same(sets.get("level"), LEVEL), "enqueue", "the current decision level is recorded")
        d = sets.get("depth")
        r.check(d is not None and mentions(d, ("len", "Trail.trail")), "enqueue", "the trail position is recorded")
        r.check(new_entry(p.fields.get("Trail.trail"), "Trail.trail", L), "enqueue", "the literal is appended to the trail")
        r.check(set(p.fields) == {"Trail.trail"}, "enqueue", "no other bookkeeping changes", str({k: pp(v) for k, v in p.fields.items()}))
        r.check(not [k for k in p.cells if k[0] not in ("Assignment.assignment", "ImplGraph.nodes")], "enqueue", "no other variable is touched")
    for p in ps:
        if p.what == "panic":
            r.fail("enqueue", "panics at %s" % p.value if p.value else "panics")


def vof(ix):
    """The literal (or variable) a table index belongs to."""
    return strip(var_of(ix))


def retract(prog, r):
    lv = T(("level",), 0, 2 ** 31)
    ip, ps = interpret(prog, r, BACK, [("ctx",), lv], (AVAILABLE,))
    seen = set()
    start_of = T(("at", "Trail.decisions", lv[1]))
    for p in ps:
        if p.what != "ret":
            continue
        cmp_ = p.fact(ip.compare(p.mem, "Lt", lv, LEVEL))
        if cmp_ is None:
            r.check(False, "retract", "compares the level with the current one")
            continue
        if not cmp_:
            r.check(not p.fields and not p.cells and not p.calls(), "retract", "backtracking to the current or a deeper level changes nothing")
            seen.add("none")
            continue
        seen.add("some")
        start = p.fields.get("Trail.queue_head_pos")
        r.check(start is not None and same(start, start_of), "retract", "propagation continues where the first retracted level began", pp(start))
        r.check(p.fields.get("Trail.decisions") == ("cut", ("sl", "Trail.decisions"), lv), "retract", "the decision levels from the target on are removed", pp(p.fields.get("Trail.decisions")))
        t = p.fields.get("Trail.trail")
        r.check(t is not None and t[0] == "cut" and t[1] == ("sl", "Trail.trail") and same(t[2], start_of), "retract", "the trail is cut where the first retracted level began", pp(t))
        r.check(set(p.fields) == {"Trail.trail", "Trail.decisions", "Trail.queue_head_pos"} and not p.cells, "retract", "nothing else changes")
        loops = [e for e in p.evs if e[0] in ("loop", "brk")]
        tail = [e for e in loops if isinstance(forward(e[1]), tuple) and forward(e[1])[0] == "from"]
        r.check(bool(tail), "retract", "goes over the retracted literals")
        for e in tail:
            seq = forward(e[1])
            r.check(e[0] == "loop" and seq[1] == "Trail.trail" and seq[2] == "RangeFrom" and same(seq[3][0], start_of), "retract", "exactly the trail from the first retracted level on is undone", pp(seq))
        done = {}
        for e in tail:
            el = ("e", forward(e[1]))
            for it in e[2]:
                avail = [x for x in flat(it) if x[0] == "call" and x[1] == "make_available"]
                if len(avail) == 1 and strip(avail[0][2]) == el:
                    done.setdefault("avail", set()).add(True)
                elif avail:
                    r.fail("retract", "makes something else available: %s" % pp(avail[0][2:]))
                was = next((x[2] for x in flat(it) if x[0] == "is" and isinstance(x[1], tuple) and x[1][0] == "opt"), None)
                sets = {}
                for x in flat(it):
                    if x[0] == "set":
                        r.check(vof(x[2]) == el, "retract", "only the retracted literal's variable is written", pp(x))
                        sets[x[1]] = x
                value = "kept"
                if "Assignment.assignment" in sets:
                    value = sets["Assignment.assignment"][4]
                if was == "Some" or value != "kept":
                    r.check(value == NONE, "retract", "the retracted variable becomes unassigned", pp(value))
                if was == "Some":
                    ph = sets.get("Assignment.last_value")
                    r.check(ph is not None and was_value(ph[4], sets["Assignment.assignment"][3]), "retract", "the phase it had is saved", pp(ph and ph[4]))
                r.check(set(sets) <= {"Assignment.assignment", "Assignment.last_value"}, "retract", "only assignment and phase of a retracted variable change", str(sorted(sets)))
                seen.add(was)
            if e[2]:
                r.check(all(any(x[0] == "call" and x[1] == "make_available" for x in flat(it)) for it in e[2]), "retract", "every retracted variable becomes a decision candidate again")
    r.check({"none", "some", "Some"} <= seen, "retract", "both outcomes are possible, and assigned variables are retracted", str(seen))
    # restarts
    for name, want, fields in ((A + "full_restart", I(0), {"Assumptions.assumption_levels": I(0)}), (A + "restart", T("Assumptions.assumption_levels", 0, 2 ** 62 - 1), {})):
        ip, ps = interpret(prog, r, name, contracts=(BACK,))
        ok = [p for p in ps if p.what == "ret"]
        r.check(bool(ok), "restart", "returns")
        for p in ok:
            cs = p.calls("backtrack")
            r.check(len(cs) == 1 and same(cs[0][2], want), "restart", "%s retracts %s" % (last(name), "everything" if fields else "down to the assumptions"), pp(cs))
            r.check({k: v for k, v in p.fields.items()} == fields, "restart", "%s forgets %s assumption levels" % (last(name), "the" if fields else "no"), str(p.fields))


def was_value(v, old):
    """v is the value the option old held."""
    if old is None:
        return False
    inner = old[2][0] if old[0] == "a" and old[1] == "Some" else old[2][1][1][0] if old[0] == "u" else None
    return v == inner and v is not None


def queue(prog, r):
    me = [("p", ("o", A + "Trail"), ())]
    ip, ps = interpret(prog, r, A + "Trail::pop_queue", me)
    got = set()
    head = T("Trail.queue_head_pos", 0, 2 ** 62 - 1)
    for p in ps:
        if p.what != "ret":
            continue
        if p.value == NONE:
            r.check(not p.fields, "queue", "an empty queue stays as it is")
            got.add("none")
        else:
            v = p.value
            q = p.fields.get("Trail.queue_head_pos")
            r.check(v is not None and v[0] == "a" and v[1] == "Some" and mentions(v, "Trail.queue_head_pos") and set(p.fields) == {"Trail.queue_head_pos"}, "queue", "the literal at the queue position is taken", pp(v))
            r.check(q is not None and same(q, ip.arith("Add", head, I(1), "usize")), "queue", "the queue position advances by one", pp(q))
            got.add("some")
    r.check(got == {"none", "some"}, "queue", "both outcomes are possible")
    ip, ps = interpret(prog, r, A + "Trail::reset_queue", me)
    for p in ps:
        r.check(p.what != "ret" or p.fields == {"Trail.queue_head_pos": I(0)}, "queue", "resetting the queue restarts it at the first trail entry", str(p.fields))
    ip, ps = interpret(prog, r, A + "Trail::new_decision_level", me)
    for p in ps:
        r.check(p.what != "ret" or set(p.fields) == {"Trail.decisions"} and new_entry(p.fields["Trail.decisions"], "Trail.decisions", TRAIL), "queue", "a new level starts at the current end of the trail", str({k: pp(v) for k, v in p.fields.items()}))
    ip, ps = interpret(prog, r, A + "Trail::clear", me)
    for p in ps:
        if p.what == "ret":
            top = p.fact(ip.compare(p.mem, "Eq", LEVEL, I(0)))
            r.check(top is True, "queue", "the trail is only emptied at the top level")
            cleared(r, p, "queue")


def empty(v):
    return v is not None and v[0] == "q" and v[2] == ()


def cleared(r, p, key):
    r.check(empty(p.fields.get("Trail.trail")), key, "the trail is emptied", pp(p.fields.get("Trail.trail")))
    r.check(p.fields.get("Trail.queue_head_pos") == I(0), key, "the queue restarts with the emptied trail", pp(p.fields.get("Trail.queue_head_pos")))
    u = p.fields.get("Trail.units_removed")
    r.check(u is None and p.fact(p.ip.compare(p.mem, "Eq", TRAIL, I(0))) is not False or u is not None and mentions(u, ("len", "Trail.trail")) and mentions(u, "Trail.units_removed") and u[1][0] in ("Add", "+"),
            key, "removed entries are counted", pp(u))


def fast_eq(ip, c, args, mem, gh, ev):
    """Comparison of two optional truth values."""
    out = []
    for a, m, g in ip.variants(ip.close(mem, args[0]), mem, gh):
        for b, m, g in ip.variants(ip.close(m, args[1]), m, g):
            if a is None or b is None or a[0] != "a" or b[0] != "a":
                out.append((None, m, g))
            elif a[1] != b[1]:
                out.append((I(0), m, g))
            else:
                out.append((I(1) if a[1] == "None" else ip.compare(m, "Eq", a[2][0], b[2][0]), m, g))
    return out


EQ = (A + "fast_option_eq", fast_eq)


def enq(ip, c, args, mem, gh, ev):
    """Contract of enqueue_assignment: remembers what was known of the literal's value."""
    return [(UNIT, mem, emit(gh, ev + (known_value(ip, mem, ev[2]),)))]


def known_value(ip, mem, lit):
    """What is known of the value of a literal: none, false, true, some or unknown."""
    v0, pos = parts(lit)
    for k, v in mem.items():
        if k[0] == "o" and isinstance(k[1], tuple) and k[1][0] == "cell" and k[1][1] == "Assignment.assignment" and var_of(k[1][2]) == v0:
            v = ip.close(mem, v)
            if v == NONE:
                return "none"
            if v is not None and v[0] == "a" and v[1] == "Some":
                b, n = v[2][0], ip.negate(pos)
                if b is None:
                    return "some"
                for form, when in ((ip.compare(mem, "Eq", b, pos), 1), (ip.compare(mem, "Eq", b, n), 0), (ip.compare(mem, "Ne", b, pos), 0), (ip.compare(mem, "Ne", b, n), 1),
                                   (ip.arith("BitXor", b, pos, "bool"), 0), (ip.arith("BitXor", b, n, "bool"), 1)):
                    x = exact(ip.known(mem, form)) if form is not None else None
                    if x is not None:
                        return "true" if x == when else "false"
                return "some"
    return "unknown"


def find(ip, c, args, mem, gh):
    """Iterator::find / next on the decision heap: any variable at all."""
    if not c.names or not args:
        return None
    n = c.names[0]
    if n.startswith("core::iter::traits::iterator::Iterator::") and last(n) in ("find", "next", "by_ref") and "Vsids" in str(c.fn.get("a", "")) + str(c.t):
        if last(n) == "by_ref":
            return [(args[0], mem, gh)]
        v = ("var", ("candidate",))
        if last(n) == "next":
            return [(("u", ("opt", "candidate"), (("None", ()), ("Some", (v,)))), mem, gh)]
        out = [(NONE, mem, gh)]
        m = dict(mem)
        m[("o", "cand")] = v
        for b, m1, g1 in ip.invoke(args[1], [("p", ("o", "cand"), ())], m, gh):
            for x, m2, g2 in ip.branch(b, m1, g1):
                if x:
                    out.append((SOME(v), m2, g2))
        return out
    return None


def decide(prog, r):
    ip, ps = interpret(prog, r, "varisat::decision::make_decision", contracts=((ENQ, enq), EQ), more=find)
    got = set()
    for p in ps:
        if p.what != "ret":
            continue
        cs = p.calls("enqueue_assignment")
        if exact(p.value) == 0:
            r.check(not cs and not p.fields and not p.cells, "decide", "without a decision nothing changes", str(sorted(p.fields)))
            got.add(0)
        elif exact(p.value) == 1:
            got.add(1)
            r.check(new_entry(p.fields.get("Trail.decisions"), "Trail.decisions", TRAIL) and set(p.fields) == {"Trail.decisions"}, "decide", "a decision opens one new level", str(sorted(p.fields)))
            r.check(len(cs) == 1 and vofl(cs[0][2]) == ("candidate",), "decide", "the decision literal is of the picked variable", pp(cs))
            r.check(len(cs) == 1 and cs[0][-1] == "none", "decide", "the decided variable was unassigned")
            r.check(len(cs) == 1 and cs[0][3] == ("a", "Unit", ()), "decide", "a decision has no propagating clause", pp(cs))
            before(r, p, "decide")
        else:
            r.fail("decide", "result is %s" % pp(p.value))
    r.check(got == {0, 1}, "decide", "both outcomes are possible")


def before(r, p, key):
    """The level is opened before the literal is enqueued."""
    kinds = [e[:3] for e in p.evs if e[0] == "vec" and e[1] == "Trail.decisions" or e[0] == "call" and e[1] == "enqueue_assignment"]
    r.check([k[0] for k in kinds] == ["vec", "call"], key, "the new level is opened before its literal is assigned", str([k[:2] for k in kinds]))


def vofl(l):
    return strip(parts(l)[0])


def assume(prog, r):
    stop = []

    def once(ip, c, args, mem, gh):
        # the state at the start of a second round is again an arbitrary state
        d = ip.deref(mem, args[0]) if args else None
        if d is not None and d[0] == "sl" and isinstance(d[1], tuple) and d[1][0] == "after":
            stop.append((mem, gh))
            return []
        return None
    failed = recorders(prog)

    def conflict(ip, c, args, mem, gh, ev):
        return [(UNIT, mem, emit(gh, ("call", "conflict") + ev[2:] + (known_value(ip, mem, ev[2]),)))]
    ip, ps = interpret(prog, r, "varisat::assumptions::enqueue_assumption", contracts=((ENQ, enq), EQ) + tuple((n, conflict) for n in failed), more=once)
    got = set()
    at = ("at", "Assumptions.assumptions", LEVEL[1])   # the assumption of the current level
    for p in ps:
        if p.what != "ret":
            continue
        v = p.value[1] if p.value is not None and p.value[0] == "a" else None
        got.add(v)
        cs = p.calls("enqueue_assignment")
        if v == "Done":
            r.check(not cs and not p.fields, "assume", "with no assumption left nothing changes", str(sorted(p.fields)))
            r.check(p.fact(ip.compare(p.mem, "Lt", LEVEL, T(("len", "Assumptions.assumptions"), 0, 2 ** 62))) is False, "assume", "done only when every assumption has its level")
        elif v == "Conflict":
            r.check(not cs and not p.fields, "assume", "a contradicted assumption changes no bookkeeping", str(sorted(p.fields)))
            k = p.calls("conflict")
            r.check(len(k) == 1 and k[0][2] == at and k[0][-1] == "false", "assume", "a conflict is reported for the assumption of this level, which is false", pp(k))
        elif v == "Enqueued":
            r.check(len(cs) == 1 and cs[0][2] == at and cs[0][-1] == "none" and cs[0][3] == ("a", "Unit", ()), "assume", "the unassigned assumption of the current level is assigned", pp(cs))
            r.check(new_entry(p.fields.get("Trail.decisions"), "Trail.decisions", TRAIL), "assume", "an assumption opens one new level", pp(p.fields.get("Trail.decisions")))
            lv = p.fields.get("Assumptions.assumption_levels")
            r.check(lv is not None and same(lv, ip.arith("Add", LEVEL, I(1), "usize")), "assume", "the assumption levels are counted up to the new level", pp(lv))
            r.check(set(p.fields) == {"Trail.decisions", "Assumptions.assumption_levels"}, "assume", "nothing else changes", str(sorted(p.fields)))
            before(r, p, "assume")
        else:
            r.fail("assume", "result is %s" % pp(p.value))
    r.check(got == {"Done", "Conflict", "Enqueued"}, "assume", "all outcomes are possible", str(got))
    r.check(bool(stop), "assume", "already true assumptions are skipped")
    for m, g in stop:
        vecs = [e for e in events(g) if e[0] == "vec"]
        moved = [e for e in vecs if e[1] == "Assumptions.assumptions"]
        kept = [e for e in vecs if e[1] == "Assumptions.implied_assumptions"]
        r.check(len(moved) == 1 and moved[0][2] in ("swap_remove", "remove") and moved[0][3] == LEVEL, "assume", "the implied assumption leaves the list", pp(moved))
        r.check(len(kept) == 1 and kept[0][2] == "push" and kept[0][3] == at, "assume", "the implied assumption is remembered", pp(kept))
        r.check(len(vecs) == 2, "assume", "nothing else changes", str([e[1] for e in vecs]))
        r.check(known_value(ip, m, at) == "true", "assume", "only true assumptions are skipped")
        r.count("paths")


def recorders(prog):
    """Functions that record failed assumptions."""
    return sorted({x.ctx.body.id for x in mut_sites(prog, "Assumptions", "failed_core") if x.ctx.body.id.startswith("varisat::assumptions::")} - {"varisat::assumptions::enqueue_assumption"})


ADD = "varisat::proof::add_step"
GRAPH = P + "graph::ImplGraph"


def units(prog, r):
    x = ("var", "x")
    ip = Sol(prog, (), TABLES)
    mem = ip.state(*STATE)
    ps = ip.paths(GRAPH + "::is_removed_unit", [("p", ("o", GRAPH), ()), x], mem)
    order = [f["name"] for f in prog.adt(P + "graph::ImplNode")["variants"][0]["fields"]]
    depth = T((("ImplGraph.nodes", vindex(x)), "depth"), 0, 2 ** 32 - 1)
    marks = set()
    for p in ps:
        for v in [p.value] + [T(e[1], 0, 1) for e in p.all("is")]:
            for k in (2 ** 32 - 1,) + tuple(constants(v)):
                if same(v, ip.compare(p.mem, "Eq", depth, I(k))):
                    marks.add(k)
    r.check(len(marks) == 1 and min(marks) > 2 ** 31 - 1, "units", "removed units are told apart by an impossible depth", str(marks))
    removed = lambda n: n is not None and dict(zip(order, n[2])).get("reason") == ("a", "Unit", ()) and exact(dict(zip(order, n[2])).get("depth")) in marks
    ip, ps = interpret(prog, r, "varisat::unit_simplify::prove_units", contracts=(ADD,))
    got = set()
    for p in ps:
        if p.what != "ret":
            continue
        top = p.fact(ip.compare(p.mem, "Eq", LEVEL, I(0)))
        if top is not True:
            r.check(not p.fields and not p.cells and not p.calls() and exact(p.value) == 0, "units", "units are only removed at the top level", str(sorted(p.fields)))
            got.add("deep")
            continue
        if p.fields or p.fact(ip.compare(p.mem, "Eq", TRAIL, I(0))) is not True:
            cleared(r, p, "units")
        r.check(set(p.fields) <= {"Trail.trail", "Trail.queue_head_pos", "Trail.units_removed"} and not p.cells, "units", "nothing but the trail changes", str(sorted(p.fields)))
        some = p.fact(ip.compare(p.mem, "Eq", TRAIL, I(0))) is False
        for e in p.evs:
            if e[0] in ("loop", "brk") and forward(e[1]) == "Trail.trail":
                r.check(e[0] == "loop", "units", "every entry of the trail is handled")
                for it in e[2]:
                    sets = [y for y in flat(it) if y[0] == "set"]
                    r.check(len(sets) == 1 and sets[0][1] == "ImplGraph.nodes" and vof(sets[0][2]) == ("e", e[1]) and removed(sets[0][4]), "units", "every entry of the trail is marked as removed", pp(sets))
                    got.add("some")
        adds = p.calls("add_step")
        r.check(len(adds) <= 1, "units", "units are proved in one step")
        if some or adds:
            r.check(exact(p.value) == 1, "units", "removed units are reported to the caller", pp(p.value))
    r.check(got == {"deep", "some"}, "units", "both outcomes are possible", str(got))
    ip, ps = interpret(prog, r, "varisat::unit_simplify::resurrect_unit", [("ctx",), L], contracts=((ENQ, enq), EQ))
    got = set()
    for p in ps:
        if p.what != "ret":
            continue
        cs = p.calls("enqueue_assignment")
        if cs:
            r.check(len(cs) == 1 and cs[0][2] == L and cs[0][3] == ("a", "Unit", ()) and cs[0][-1] == "none", "units", "a restored unit is unassigned and put on the trail again", pp(cs))
            d = T((("ImplGraph.nodes", vindex(parts(L)[0])), "depth"), 0, 2 ** 32 - 1)
            r.check(any(p.fact(ip.compare(p.mem, "Eq", d, I(k))) for k in marks), "units", "only removed units are restored")
        r.check(not p.fields and set(k[0] for k in p.cells) <= ({"Assignment.assignment"} if cs else set()), "units", "nothing else changes", str(sorted(p.fields)))
        got.add(bool(cs))
    r.check(got == {True, False}, "units", "both outcomes are possible")


def constants(v):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "i" and v[1] == v[2]:
            yield v[1]
        for x in v:
            yield from constants(x)


def learn(prog, r):
    N = "varisat::"
    AN = ("sl", "learned")

    def more(ip, c, args, mem, gh):
        n = c.names[0] if c.names else ""
        if n.startswith(N + "analyze_conflict::AnalyzeConflict::") and len(args) == 1:
            ip.types["learned"] = LITTY
            ip.types["hashes"] = ip.types["involved"] = None
            if last(n) == "clause":
                return [(REF(AN), mem, gh)]
            if "ClauseHash" in c.ret_ty or "u64" in c.ret_ty:
                return [(REF(("sl", "hashes")), mem, gh)]
            return [(REF(("sl", "involved")), mem, gh)] if c.ret_ty.startswith("&") else None
        return None
    cons = (N + "cdcl::find_conflict", N + "analyze_conflict::analyze_conflict", BACK, ENQ, ADD, N + "clause::assess::bump_clause", N + "clause::assess::assess_learned_clause",
            N + "clause::activity::decay_clause_activities", N + "clause::db::add_clause", N + "binary::BinaryClauses::add_binary_clause", N + "model::reconstruct_global_model")
    ip, ps = interpret(prog, r, N + "cdcl::conflict_step", contracts=cons, more=more)
    lits = {}
    got = set()
    level = ("result", "analyze_conflict")
    for p in ps:
        if p.what != "ret":
            continue
        names = [e[1] for e in p.evs if e[0] == "call"]
        enq_, back = p.calls("enqueue_assignment"), p.calls("backtrack")
        learned = "analyze_conflict" in names
        if not learned:
            r.check(not enq_ and not back, "learn", "nothing is learned without a conflict", str(names))
            continue
        r.check(len(back) == 1 and mentions(back[0][2], "analyze_conflict"), "learn", "the solver backtracks to the level found by the analysis", pp(back))
        n = p.fact(ip.compare(p.mem, "Eq", ("t", ("len", "learned"), 0, 2 ** 62), I(0)))
        st = p.fields.get("SolverState.sat_state")
        if not enq_:
            r.check(n is True and st is not None and st[1] == "Unsat", "learn", "only an empty learned clause is not enqueued, and ends the search", pp(st))
            got.add(0)
            continue
        order = [x for x in names if x in ("backtrack", "enqueue_assignment", "add_clause", "add_binary_clause", "analyze_conflict")]
        r.check(order[0] == "analyze_conflict" and order[1] == "backtrack" and order[-1] == "enqueue_assignment" and order.count("enqueue_assignment") == 1, "learn", "the learned literal is assigned after backtracking and after storing the clause", str(order))
        first = ("at", "learned", 0)
        r.check(enq_[0][2] == first, "learn", "the asserted literal is the first one of the learned clause", pp(enq_))
        reason = enq_[0][3]
        stored = [e for e in p.calls() if e[1] in ("add_clause", "add_binary_clause")]
        size = lambda op, k: p.fact(ip.compare(p.mem, op, ("t", ("len", "learned"), 0, 2 ** 62), I(k)))
        if reason == ("a", "Unit", ()):
            r.check(size("Eq", 1) is True and not stored, "learn", "a learned unit is assigned without reason", pp(reason))
            got.add(1)
        elif reason is not None and reason[0] == "a" and reason[1] == "Binary":
            second = ("at", "learned", 1)
            r.check(size("Eq", 2) is True and pairs(reason[2][0]) == [second], "learn", "a learned binary clause is the reason by its second literal", pp(reason))
            r.check(len(stored) == 1 and stored[0][1] == "add_binary_clause" and sorted(map(repr, pairs(stored[0][-1]))) == sorted(map(repr, [first, second])), "learn", "the learned binary clause is stored", pp(stored))
            got.add(2)
        elif reason is not None and reason[0] == "a" and reason[1] == "Long":
            r.check(size("Gt", 2) is True and len(stored) == 1 and stored[0][1] == "add_clause" and stored[0][-1] in (AN, REF(AN)) and mentions(reason[2], "add_clause"), "learn", "a longer learned clause is stored and is the reason", pp(stored))
            got.add(3)
        else:
            r.fail("learn", "reason of the learned literal is %s" % pp(reason))
    r.check(got == {0, 1, 2, 3}, "learn", "all sizes are handled", str(got))


def pairs(v):
    """Elements of an array value."""
    return list(v[2]) if v is not None and v[0] == "a" else [p[1] for p in v[2] if p[0] == "one"] if v is not None and v[0] == "q" else []


LITTY = "varisat_formula::lit::Lit"


def imply(prog, r):
    def more(ip, c, args, mem, gh):
        n = c.names[0] if c.names else ""
        if n == "varisat::binary::BinaryClauses::implied":
            ip.types["implied"] = LITTY
            asked.append(ip.close(mem, args[1]))
            return [(REF(("sl", "implied")), mem, gh)]
        return None
    asked = []
    ip, ps = interpret(prog, r, P + "binary::propagate_binary", [("ctx",), L], contracts=((ENQ, enq), EQ), more=more)
    el = ("e", "implied")
    notl = neg(ip, L)
    got = set()
    r.check(set(asked) == {L}, "imply", "asks for the literals implied by the given one", pp(asked))
    for p in ps:
        if p.what != "ret":
            continue
        r.check(not p.fields and not p.cells, "imply", "nothing is changed directly", str(sorted(p.fields)))
        for e in flat(p.evs):
            if e[0] == "call" and e[1] == "enqueue_assignment":
                r.check(e[2] == el and e[-1] == "none", "imply", "an implied literal is assigned only while unassigned", pp(e))
                r.check(e[3] is not None and e[3][1] == "Binary" and pairs(e[3][2][0]) == [notl], "imply", "the reason is the clause that implies it", pp(e[3]))
                got.add("enqueue")
        if p.value is not None and p.value[0] == "a" and p.value[1] == "Err":
            x = p.value[2][0]
            r.check(x is not None and x[1] == "Binary" and sorted(map(repr, pairs(x[2][0]))) == sorted(map(repr, [el, notl])), "imply", "the conflict is the clause with both literals false", pp(x))
            r.check(known_value(ip, p.mem, el) == "false", "imply", "a conflict needs a false implied literal", known_value(ip, p.mem, el))
            got.add("conflict")
        elif p.value is not None and p.value[1] == "Ok":
            for e in p.evs:
                if e[0] == "brk" and e[1] == "implied":
                    r.fail("imply", "stops before all implied literals are handled")
            got.add("ok")
    r.check(got == {"enqueue", "conflict", "ok"}, "imply", "all outcomes are possible", str(got))


def neg(ip, l):
    from vlib.lits import neg as n
    return n(l)


def writers(prog, r):
    roots = {ENQ, BACK, A + "full_restart", A + "restart", "varisat::decision::make_decision", "varisat::assumptions::enqueue_assumption", "varisat::unit_simplify::prove_units",
             "varisat::unit_simplify::resurrect_unit", A + "Trail::pop_queue", A + "Trail::reset_queue"}
    size = {"varisat::context::set_var_count", "varisat::variables::initialize_solver_var"}
    gc = {"varisat::clause::gc::collect_garbage_now"}
    n = 0
    for owner, field, extra in (("Assignment", "assignment", size), ("Assignment", "last_value", size), ("Trail", "trail", set()), ("Trail", "decisions", set()), ("Trail", "queue_head_pos", set()),
                                ("ImplGraph", "nodes", size | gc), ("Assumptions", "assumption_levels", set())):
        n += writers_ok(prog, r, owner, field, {prog.fn(x).id for x in roots | extra})
    r.count("writes", n)
