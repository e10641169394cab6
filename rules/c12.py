"""C12 — per-variable tables always cover every allocated variable."""
from vlib.common import *
from vlib.absint import Stuck
from vlib.terms import *
from vlib.terms import I, T, B, REF, NONE, SOME, emit, GH0, UNIT, exact
from vlib.solver import Sol, pp, flat, var_of, vindex
from vlib.outputs import struct
from vlib.ir import Missing
from rules import c25

EXPLANATION = ("Inventory of the solver's tables from MIR index expressions (which containers are indexed by a variable's or literal's number), matched with term-based abstract interpretation of "
               "the functions that extend them: every table of the inventory must be resized by the factor its indexing needs, growing only, before the new variable is initialised; name maps, "
               "global tables, the model, the checker's tables and formulas must cover an index before it is used.")

MAP = "varisat::variables::var_map::VarMap"
VARS = "varisat::variables::Variables"
SET = "varisat::context::set_var_count"
INIT = "varisat::variables::initialize_solver_var"


def run(prog, r):
    r.rule("every container indexed by variables or literals is extended to cover a new variable before anything uses it")
    for part in (solver_tables, name_maps, new_solver_var, global_table, model, checker, formula):
        try:
            part(prog, r)
        except Stuck as e:
            r.fail("undecided", "%s: %s" % (part.__name__, e))
        except Missing as e:
            r.fail("anchor", str(e))
    r.floor("index sites", r.counts.get("index sites", 0), 50)


def inventory(prog, r):
    """{(owner type, field): entries per variable} of all vectors indexed by variables or literals."""
    out = {}
    for cx in all_ctx(prog):
        b = cx.body
        for bi, blk in live_blocks(b):
            if blk["t"]["k"] != "call":
                continue
            c = Call(b, bi)
            if not c.names or not (c.names[0].startswith("core::ops::index::Index") or last(c.names[0]) in ("get", "get_mut", "get_unchecked", "get_unchecked_mut")):
                continue
            a = cx.call_args(bi)
            if len(a) < 2:
                continue
            f = next(((x[2], x[3]) for x in spine(a[0]) if x[0] == "f"), None)
            how = next((x[1] for x in spine(a[1]) if x[0] == "call" and x[1].startswith("varisat_formula::lit::") and last(x[1]) in ("index", "code")), None)
            if f is None or how is None:
                continue
            out[f] = max(out.get(f, 1), 2 if last(how) == "code" else 1)
            r.count("index sites")
            r.saw(b)
    return out


def field_type(prog, owner, field):
    a = prog.adts.get(owner)
    return next((f["ty"] for v in a["variants"] for f in v["fields"] if f["name"] == field), "") if a else ""


def context_types(prog):
    a = prog.adt("varisat::context::Context")
    return [base_type(f["ty"]) for f in a["variants"][0]["fields"]]


def times(ip, t, k):
    one = I(k)
    return {canon(x) for x in (ip.arith("Mul", t, one, "usize"), ip.arith("Mul", one, t, "usize"), ip.arith("Add", t, t, "usize") if k == 2 else t, ip.arith("Shl", t, I(1), "usize") if k == 2 else t) if x is not None} | ({canon(t)} if k == 1 else set())


def solver_tables(prog, r):
    inv = inventory(prog, r)
    parts = set(context_types(prog))
    want = {(o, f): k for (o, f), k in inv.items() if o in parts and field_type(prog, o, f).startswith("alloc::vec::Vec<") and (o, f) not in ((VARS, "var_data"), ("varisat::model::Model", "assignment"))}
    r.floor("solver tables", len(want), 8)
    owners = sorted({o for o, _ in want})
    tables = {"%s.%s" % (last(o), f) for o, f in want}
    ip = Sol(prog, (), tables)
    n = T(("count",), 0, 2 ** 31)
    mem = ip.state(*owners)
    ps = ip.paths(SET, [("ctx",), n], mem)
    for b in ip.bodies:
        r.saw(prog.bodies[b])
    ok = [p for p in ps if p.what == "ret"]
    r.check(bool(ok), "tables", "the extension returns")
    for p in ok:
        for (o, f), k in sorted(want.items()):
            name = "%s.%s" % (last(o), f)
            ev = [e for e in flat(p.evs) if e[0] == "vec" and e[1] == name]
            good = len(ev) == 1 and ev[0][2] in ("resize", "resize_with") and canon(ev[0][3]) in times(ip, n, k) | times(ip, n, 2)
            r.check(good, "tables/" + name, "extended to %s entries per variable" % k, "%s is %s when the variable count changes; it is indexed by %s and needs %d per variable" %
                    (name, "not extended" if not ev else "extended to %s entries" % pp(ev[0][3:4]), "literals" if k == 2 else "variables", k))
    # level flags and other scratch tables of the same components that are not indexed by variables are sized by their users
    # nothing else shrinks or replaces the tables
    for (o, f) in sorted(want):
        for s in mut_sites(prog, last(o), f):
            b = s.ctx.body
            if s.kind != "call":
                if s.dest is not None and s.dest[0] == "f" and (last(s.dest[2]), s.dest[3]) == (last(o), f) and not b.name == "default":
                    r.fail("tables/replaced", "%s replaces %s.%s" % (b.id, last(o), f))
                continue
            ln = last(Call(b, s.bi).names[0]) if Call(b, s.bi).names else ""
            direct = s.dest is not None and s.dest[0] == "f" and s.dest[3] == f
            r.check(not (direct and ln in ("truncate", "clear", "pop", "swap_remove", "remove", "drain", "split_off", "shrink_to_fit", "take", "replace", "swap") and Call(b, s.bi).names[0].startswith(("alloc::vec", "core::mem"))),
                    "tables/kept", "no table loses entries", "%s calls %s on %s.%s" % (b.id, ln, last(o), f))


def name_maps(prog, r):
    t = "VarMap.mapping"
    me = [("p", ("o", MAP), ())]
    fr, to = ("var", "from"), ("var", "into")
    ip = Sol(prog, (), (t,))
    ps = ip.paths(MAP + "::insert", me + [to, fr], ip.state(MAP))
    for b in ip.bodies:
        r.saw(prog.bodies[b])
    length, ix = T(("len", t), 0, 2 ** 31), vindex(fr)
    grew = 0
    for p in ps:
        if p.what != "ret":
            continue
        inside = p.fact(ip.compare(p.mem, "Lt", ix, length))
        ev = [e for e in flat(p.evs) if e[0] == "vec"]
        if inside:
            r.check(not [e for e in ev if e[2] != "resize"], "names/insert", "a covered name needs no extension")
        else:
            grew += 1
            r.check(inside is False and len(ev) == 1 and ev[0][2] == "resize" and canon(ev[0][3]) == canon(ip.arith("Add", ix, I(1), "usize")), "names/insert", "the map is extended to cover a new name", pp(ev))
        w = [(k, b) for k, (a, b) in p.cells.items()]
        r.check(len(w) == 1 and w[0][0][1] == ix and w[0][1] is not None and mentions(w[0][1], to), "names/insert", "only the entry of the given name changes", pp(w))
    r.floor("growing insertions", grew, 1)
    ip = Sol(prog, (), (t,))
    for p in ip.paths(MAP + "::remove", me + [fr], ip.state(MAP)):
        r.check(p.what == "ret" and not [e for e in flat(p.evs) if e[0] == "vec"], "names/remove", "removing a name keeps the table", pp(p.evs))
    ip = Sol(prog, (), (t,))
    for p in ip.paths(MAP + "::watermark", me, ip.state(MAP)):
        r.check(p.what == "ret" and p.value is not None and p.value[0] == "t" and p.value[1] == ("len", t), "names/watermark", "the watermark is the table length", pp(p.value))


class Names(Sol):
    """Variable names as seen by their users: maps with watermarks that only grow."""
    BI = "varisat::variables::var_map::VarBiMapMut"

    def names(self, c, args, mem, gh):
        n = c.names[0] if c.names else ""
        if n.startswith(MAP + "::") or n.startswith(self.BI + "::") or n.startswith("varisat::variables::var_map::"):
            ln = last(n)
            A = lambda i: self.close(mem, args[i])
            bound = mem.get(("o", "bound"), I(0))
            if ln in ("fwd", "bwd", "fwd_mut", "bwd_mut"):
                return [(("a", None, ()) if False else ("map", ln), mem, gh)]
            if ln == "watermark":
                return [(T(("watermark", exact(bound)), 0, 2 ** 31), mem, gh)]
            if ln == "get":
                return [(("u", ("opt", ("name", A(1))), (("None", ()), ("Some", (("var", ("name", A(1))),)))), mem, gh)]
            if ln == "insert":
                m = dict(mem)
                m[("o", "bound")] = I(exact(bound) + 1)
                return [(UNIT, m, emit(gh, ("bind", A(1), A(2))))]
            if ln == "remove":
                return [(("u", ("opt", ("name", A(1))), (("None", ()), ("Some", (("var", ("name", A(1))),)))), mem, emit(gh, ("unbind", A(1))))]
        return None


def named(ip, c, args, mem, gh):
    x = ip.names(c, args, mem, gh)
    if x is not None:
        return x
    n = c.names[0] if c.names else ""
    if "hash::set::HashSet" in n or n.startswith("std::collections::hash") or "hashbrown" in n:
        ln = last(n)
        if ln in ("insert", "remove", "contains"):
            return [(B(("set", ln, ip.close(mem, args[1]))), mem, emit(gh, ("free", ip.name_of(args[0]), ln, ip.close(mem, args[1]))))]
    if n.startswith(VARS + "::next_unmapped"):
        return [(("var", ("unused", last(n))), mem, emit(gh, ("unused", last(n))))]
    return None


def new_solver_var(prog, r):
    ip = Names(prog, (SET, INIT, "varisat::proof::add_step"), ("Variables.var_data",), more=named)
    g = ("var", "g")
    ps = ip.paths("varisat::variables::solver_from_global", [("ctx",), g], ip.state(VARS))
    for b in ip.bodies:
        r.saw(prog.bodies[b])
    w0, w1 = T(("watermark", 0), 0, 2 ** 31), T(("watermark", 1), 0, 2 ** 31)
    got = set()
    for p in ps:
        if p.what != "ret":
            continue
        binds = [e for e in flat(p.evs) if e[0] == "bind"]
        if not binds:
            r.check(not p.calls("initialize_solver_var"), "new", "an existing solver variable is not initialised again")
            got.add("known")
            continue
        r.check(len(binds) == 1, "new", "one name is bound")
        order = [e[1] if e[0] == "call" else e[0] for e in p.evs if e[0] in ("bind", "call")]
        sets = p.calls("set_var_count")
        new = binds[0][1] if binds[0][1] != g else binds[0][2]
        if sets:
            grown = p.fact(ip.compare(p.mem, "Gt", w1, w0)) or p.fact(ip.compare(p.mem, "Ne", w1, w0)) or p.fact(ip.compare(p.mem, "Ge", w1, w0))
            arg = sets[0][-1]
            outside = p.fact(ip.compare(p.mem, "Ge", vindex(new), w0))
            ok = canon(arg) == canon(w1) or canon(arg) == canon(ip.arith("Add", vindex(new), I(1), "usize")) and outside
            r.check(len(sets) == 1 and bool(ok), "new", "the tables are extended to cover the new variable", "the tables are extended to %s entries for a new solver variable" % pp(sets))
            r.check("set_var_count" in order[:(order + ["initialize_solver_var"]).index("initialize_solver_var")], "new", "the tables are extended before the variable is initialised", str(order))
            got.add("grown")
        else:
            # watermarks never shrink (name maps are only ever extended)
            r.check(p.fact(ip.compare(p.mem, "Gt", w1, w0)) is False or p.fact(ip.compare(p.mem, "Eq", w1, w0)) is True or p.fact(ip.compare(p.mem, "Lt", vindex(new), w0)) is True, "new", "the tables are only left alone if they cover the variable",
                    "a new solver variable can be used without extending the tables")
            got.add("reused")
        r.check(order.count("initialize_solver_var") == 1, "new", "a new solver variable is initialised", str(order))
    r.check(got >= {"known", "grown"}, "new", "all outcomes are possible", str(got))
    # the extension only happens there
    users = {(prog.owner_fn(prog.bodies[i]) if prog.bodies[i].is_closure else prog.bodies[i]).id for i in prog.callers().get(prog.fn(SET).id, ())}
    reach = {prog.fn("varisat::variables::solver_from_global").id}
    todo = [u for u in users if u not in reach]
    for u in todo:
        up = {prog.bodies[i].id for i in prog.callers().get(u, ())}
        r.check(bool(up) and up <= reach, "new/users", "the tables only change their size for a new solver variable", "%s changes the variable count" % u)


def global_table(prog, r):
    t = "Variables.var_data"
    ip = Names(prog, (), (t,), more=named)
    g = ("var", "g")
    ps = ip.paths(VARS + "::var_data_global_mut", [("p", ("o", VARS), ()), g], ip.state(VARS))
    length, ix = T(("len", t), 0, 2 ** 31), vindex(g)
    grew = 0
    for p in ps:
        if p.what != "ret":
            continue
        ev = [e for e in flat(p.evs) if e[0] == "vec"]
        inside = p.fact(ip.compare(p.mem, "Lt", ix, length))
        if ev:
            grew += 1
            r.check(inside is False and len(ev) == 1 and ev[0][2] == "resize" and canon(ev[0][3]) == canon(ip.arith("Add", ix, I(1), "usize")), "global", "the variable data is extended to cover a new variable", pp(ev[0][3:4]))
        else:
            r.check(inside is True, "global", "variable data is only left alone if it covers the variable")
    r.floor("extensions of the variable data", grew, 1)
    ip = Names(prog, ("varisat::proof::add_step",), (t,), more=named)
    u = ("var", "user")
    ps = ip.paths("varisat::variables::global_from_user", [("ctx",), u, B(("require",))], ip.state(VARS, "varisat::state::SolverState"))
    for b in ip.bodies:
        r.saw(prog.bodies[b])
    n = 0
    for p in ps:
        if p.what != "ret":
            continue
        binds = [e for e in p.evs if e[0] == "bind" and u in e[1:]]
        for e in binds:
            n += 1
            new = e[1] if e[1] != u else (e[2] if e[2] != u else u)
            ix = vindex(new)
            ev = [x for x in p.evs if x[0] == "vec" and x[1] == t and x[2] == "resize" and canon(x[3]) == canon(ip.arith("Add", ix, I(1), "usize"))]
            r.check(bool(ev) or p.fact(ip.compare(p.mem, "Lt", ix, T(("len", t), 0, 2 ** 31))) is True, "global/bind", "a named variable has variable data", "the name of %s is bound without making room for its data" % pp(new))
    r.floor("bound names", n, 3)


def model(prog, r):
    t = "Model.assignment"
    M = "varisat::model::Model"
    ip = Names(prog, ("varisat::proof::add_step",), (t, "Variables.var_data", "Assignment.assignment"), more=named)
    ps = ip.paths("varisat::model::reconstruct_global_model", [("ctx",)], ip.state(VARS, M, "varisat::prop::assignment::Assignment", "varisat::tmp::TmpData", "varisat::state::SolverState"))
    for b in ip.bodies:
        r.saw(prog.bodies[b])
    ok = [p for p in ps if p.what == "ret"]
    r.check(bool(ok), "model", "returns")
    for p in ok:
        es = list(p.evs)
        rs = [i for i, e in enumerate(es) if e[0] == "vec" and e[1] == t and e[2].startswith("resize")]
        use = [i for i, e in enumerate(es) if e[0] in ("loop", "brk") and any(x[0] in ("access", "set") and x[1] == t for x in flat([e]))] + [i for i, e in enumerate(es) if e[0] in ("access", "set") and e[1] == t]
        size = [e[3] for e in es if e[0] == "vec" and e[1] == t and e[2].startswith("resize")]
        r.check(len(rs) == 1 and all(rs[0] < u for u in use) and size[0] is not None and size[0][0] == "t" and size[0][1] == ("len", "Variables.var_data"), "model", "the model covers every variable before values are stored", pp(size))


def checker(prog, r):
    c25.extension(prog, r, set())


def kept(ip, m, v, old, seq):
    """At the end of an iteration v is at least old, or at least the count after an earlier iteration (which was checked there)."""
    if v == old or exact(ip.known(m, ip.compare(m, "Ge", v, old))) == 1:
        return True
    for q in (seq, forward(seq)):
        ix, before = vindex(("vr", ("e", q))), ip.arith("Add", vindex(("vr", ("pe", q))), I(1), "usize")
        if canon(v) == canon(before):
            return True
        if canon(v) == canon(ip.arith("Add", ix, I(1), "usize")) and any(exact(ip.known(m, ip.compare(m, "Ge", ix, w))) == 1 for w in (old, before)):
            return True
    return False


def formula(prog, r):
    F = "varisat_formula::cnf::CnfFormula"
    key = "CnfFormula.var_count"
    ends = []

    class Fm(Sol):
        def advance(self, mem, gh, name, done):
            v = mem.get(("o", F))
            if not done and gh[0] and any(f[0] == name for f in gh[0]):
                ends.append((self, name, mem, self.field(mem, F, "var_count")))
            return super().advance(mem, gh, name, done)

    def more(ip, c, args, mem, gh):
        n = c.names[0] if c.names else ""
        if n in ("core::cmp::max", "core::cmp::Ord::max") and len(args) == 2:
            a, b = ip.close(mem, args[0]), ip.close(mem, args[1])
            if a is None or b is None:
                return [(None, mem, gh)]
            return [(a if x else b, m, g) for x, m, g in ip.branch(ip.compare(mem, "Gt", a, b), mem, gh)]
        return None
    ip = Fm(prog, (), (), more=more)
    old = T(key, 0, 2 ** 62 - 1)
    fn = next((b for b in prog.bodies.values() if b.crate == "varisat_formula" and b.name == "add_clause" and "CnfFormula" in b.loc_type(1)), None)
    if fn is None:
        raise Missing("CnfFormula::add_clause")
    mem = ip.state(F)
    ip.types["clause"] = LITTY
    ps = ip.paths(fn, [("p", ("o", F), ()), REF(("sl", "clause"))], mem)
    for b in ip.bodies:
        r.saw(prog.bodies[b])
    counted, length = {}, T(("len", "CnfFormula.literals"), 0, 2 ** 62)
    for me, name, m, v in ends:
        if v is None:
            continue        # a later iteration, after the loop state was joined
        ok = False
        for k in {("e", name[0]), ("e", forward(name[0]))}:
            ix = vindex(("vr", k))
            ok |= exact(me.known(m, me.compare(m, "Gt", v, ix))) == 1
        counted[name] = counted.get(name, True) and ok
        r.check(v == old or kept(me, m, v, old, name[0]), "formula", "the variable count never shrinks", pp(v))
    seqs = []
    for (seq, site), ok in counted.items():
        q = forward(seq)
        new = q == "clause" or isinstance(q, tuple) and q[0] == "from" and q[1] != "clause" and q[2] in ("Range", "RangeFrom") and q[3][0] is not None and q[3][0][:2] == length[:2]
        if ok and new:
            seqs.append(seq)
    r.check(bool(seqs), "formula", "every literal of an added clause is counted", "the variable count does not cover every literal of an added clause")
    r.floor("loops over literals", len(counted), 1)
    ip = Sol(prog, (), (), more=more)
    for p in ip.paths(F + "::set_var_count", [("p", ("o", F), ()), T(("n",), 0, 2 ** 31)], ip.state(F)):
        v = p.fields.get(key, old)
        r.check(p.what == "ret" and v is not None and exact(ip.known(p.mem, ip.compare(p.mem, "Ge", v, old))) == 1 and exact(ip.known(p.mem, ip.compare(p.mem, "Ge", v, T(("n",), 0, 2 ** 31)))) == 1, "formula", "the variable count never shrinks", pp(v))
    nv = next((b for b in prog.bodies.values() if b.crate == "varisat_formula" and b.name == "new_var" and "CnfFormula" in b.loc_type(1)), None)
    ip = Sol(prog, (), ())
    for p in ip.paths(nv, [("p", ("o", F), ())], ip.state(F)):
        v = p.fields.get(key)
        r.check(p.what != "ret" or v is not None and canon(v) == canon(ip.arith("Add", old, I(1), "usize")) and mentions(p.value, key), "formula", "a new variable is the next one and is counted", pp(v))
        r.saw(nv)


LITTY = "varisat_formula::lit::Lit"
