"""C04 — every change to the clause set and variable names is logged in the proof."""
from vlib.common import *
from vlib.absint import Stuck
from vlib.terms import *
from vlib.terms import I, T, B, REF, NONE, SOME, emit, GH0, UNIT
from vlib.solver import Sol, Path, pp, flat, main, vindex, writers_ok
from vlib.lits import parts
from vlib.outputs import events
from vlib.ir import Missing, last
from .c26 import EQ, pairs
from .c17 import Names, VARS, named

EXPLANATION = ("Term-based abstract interpretation of every function that changes the clause set, units, assumptions, failed assumptions or the model, on an arbitrary solver state: on every path the "
               "stored, shortened or removed clause and the logged step must be about the same literals, in the order the proof needs, with only the documented exceptions; the operations that "
               "change clauses are only called from the interpreted functions.  (Changes of variable names: C17.)")
V = "varisat::"
STEPS, CLAUSES = V + "proof::add_step", V + "proof::add_clause"
LITTY = "varisat_formula::lit::Lit"
ENQ, ADD, BIN = V + "prop::assignment::enqueue_assignment", V + "clause::db::add_clause", V + "binary::BinaryClauses::add_binary_clause"
TABLES = ("Assignment.assignment", "Assignment.last_value", "ImplGraph.nodes")
STATE = (V + "prop::assignment::Assignment", V + "prop::assignment::Trail", V + "prop::graph::ImplGraph", V + "state::SolverState", V + "assumptions::Assumptions", V + "tmp::TmpData", V + "proof::Proof")
KIND = "varisat_internal_proof::ProofStep"


def run(prog, r):
    r.rule("every stored, shortened or deleted clause, removed unit, assumption, failed core and model comes with the proof step about it; no other function changes them")
    for part in (flags, loaded, learned, units, simplified, reduced, binaries, assumed, failed, found, elsewhere):
        try:
            part(prog, r)
        except Stuck as e:
            r.fail("undecided", "%s: %s" % (part.__name__, e))
        except Missing as e:
            r.fail("anchor", str(e))


def deep(ip, mem, v, n=6):
    """Value with its references followed."""
    if n and v is not None and v[0] == "p":
        return deep(ip, mem, ip.deref(mem, v), n - 1)
    v = ip.close(mem, v)
    if v is not None and v[0] == "a":
        return (v[0], v[1], tuple(deep(ip, mem, x, n - 1) for x in v[2]))
    return v


def step(ip, c, args, mem, gh, ev):
    s = [a for a in args if a is None or a != ("ctx",)]
    return [(UNIT, mem, emit(gh, ("step",) + tuple(deep(ip, mem, a) for a in s)))]


def given(ip, c, args, mem, gh, ev):
    """A clause given to the proof."""
    s = [a for a in args if a is None or a != ("ctx",)]
    return [(UNIT, mem, emit(gh, ("given",) + tuple(deep(ip, mem, a) for a in s)))]


def stored(ip, c, args, mem, gh, ev):
    s = [a for a in args if a is None or a != ("ctx",) and ip.name_of(a) is None]
    return [(ip.arbitrary(c, gh, ("result", ev[1])), mem, emit(gh, ("store", ev[1]) + tuple(deep(ip, mem, a) for a in args if a is None or a != ("ctx",))))]


class Steps(Sol):
    """Solver functions with clause vectors that are filtered in place."""
    inner = ("BinaryClauses.by_lit",)

    def __init__(self, prog, contracts=(), tables=(), more=None, single=False, **kw):
        self.further, self.single, self.rounds = more, single, []
        cons = ((STEPS, step), (CLAUSES, given), (ADD, stored), (BIN, stored), (ENQ, stored)) + tuple(contracts)
        super().__init__(prog, cons, tables, more=self.scans, **kw)

    def scans(self, ip, c, args, mem, gh):
        if self.further is not None:
            x = self.further(self, c, args, mem, gh)
            if x is not None:
                return x
        n = c.names[0] if c.names else ""
        ln = last(n)
        A = lambda i: self.close(mem, args[i])
        d = self.deref(mem, args[0]) if args else None
        if n.startswith("vec_mut_scan::"):
            if ln == "new" and d is not None and d[0] == "sl":
                m = dict(mem)
                self.types[("kept", d[1])] = self.types[("dropped", d[1])] = self.types.get(d[1])
                self.write(m, args[0][1], args[0][2], ("sl", ("kept", d[1])))
                return [(("scan", self.iterator(mem, d, "val")), m, emit(gh, ("scan", d[1])))]
            if ln == "next" and d is not None and d[0] == "scan" and self.single:
                return self.once(mem, gh, d[1][1][0][1], lambda e: ("guard", e))
            if ln == "next" and d is not None and d[0] == "scan":
                out = []
                for x, it, m, g in self.next(mem, gh, d[1], self.site):
                    m = dict(m)
                    self.write(m, args[0][1], args[0][2], ("scan", it))
                    out.append((NONE if x == "END" else SOME(("guard", x)), m, g))
                return out
            if ln in ("remove", "replace") and d is not None and d[0] == "guard":
                return [(d[1], mem, emit(gh, ("scan " + ln, d[1]) + tuple(A(i) for i in range(1, len(args)))))]
        if n.startswith("core::cmp::PartialOrd::") and ln in ("lt", "le", "gt", "ge") and len(args) == 2 and LITTY in c.arg_types()[0]:
            a, b = (deep(self, mem, x) for x in (args if ln in ("lt", "ge") else args[::-1]))
            x = self.known(mem, B(("before", a, b)))
            return [(x if ln in ("lt", "gt") else self.negate(x), mem, gh)]
        if self.single and ln in ("iter_mut", "enumerate") and d is not None and len(args) == 1:
            if ln == "iter_mut" and d[0] == "sl" and d[1] in self.inner:
                return [(("mutate", d[1], False), mem, gh)]
            if ln == "enumerate" and d[0] == "mutate":
                return [(("mutate", d[1], True), mem, gh)]
        if ln == "into_iter" and d is not None and d[0] == "mutate":
            return [(args[0], mem, gh)]
        if ln == "next" and d is not None and d[0] == "mutate":
            def place(e):
                p = ("p", ("o", ("element", d[1])), ())
                return ("a", None, (T(("ix", d[1]), 0, 2 ** 32 - 1), p)) if d[2] else p
            return self.once(mem, gh, d[1], place, ("o", ("element", d[1])))
        if n == "core::mem::replace" and d is not None:
            m = dict(mem)
            self.write(m, args[0][1], args[0][2], self.close(mem, args[1]))
            return [(d, m, gh)]
        if ln.startswith("sort") and d is not None and d[0] == "sl" and args[0][0] == "p" and self.name_of(args[0]) is None:
            return [(UNIT, mem, gh)]        # another order of the same elements
        if ln in ("retain", "retain_mut") and d is not None and d[0] == "sl" and len(args) == 2:
            name = d[1]
            key = ("o", ("candidate", name))

            def each(x, m, g):
                m = dict(m)
                m[key] = x
                out = []
                for v, m2, g2 in self.invoke(args[1], [("p", key, ())], m, g):
                    for b, m3, g3 in self.branch(v, m2, g2):
                        m3 = {k: y for k, y in m3.items() if k != key}
                        out.append((UNIT, m3, emit(g3, ("kept" if b else "dropped", x))))
                return out

            def end(m, g):
                m = dict(m)
                self.types[("retained", name)] = self.types.get(name)
                self.write(m, args[0][1], args[0][2], ("sl", ("retained", name)))
                return UNIT, m, g
            if self.single:
                # any one element, with arbitrary contents of the collections carried along
                m0 = dict(mem)
                f = self.deref(mem, args[1])
                for a in f[2] if f is not None and f[0] == "cl" else ():
                    v = self.deref(mem, a) if a is not None and a[0] == "p" else None
                    if v is not None and v[0] == "q":
                        self.types["stale"] = LITTY
                        self.write(m0, a[1], a[2], ("sl", "stale"))
                e = self.element(("e", name))
                for _, m2, g2 in each(e, m0, GH0):
                    if _ is UNIT:
                        self.rounds.append((e, m2, events(g2)))
                return [end(mem, emit(gh, ("filtered", name)))]
            return self.drive(mem, gh, self.iterator(mem, d, "val"), self.site, each, end)
        if d is not None and d[0] == "clause" and ln == "lits_mut":
            return [(REF(("cls", d[1])), mem, gh)]
        if d is not None and d[0] == "cls":
            if ln == "index_mut":
                return [(REF(d + (A(1),)), mem, gh)]
            if ln in ("deref_mut", "as_mut_slice"):
                return [(args[0], mem, gh)]
            return [(UNIT if c.ret_ty == "()" else None, mem, emit(gh, ("literals", d[1], ln, d[2:]) + tuple(deep(self, mem, a) for a in args[1:])))]
        if d is not None and d[0] == "guard" and ln in ("deref", "deref_mut"):
            return [(REF(d[1]), mem, gh)]
        if ln == "push" and len(args) == 2 and args[0] is not None and args[0][0] == "p":
            e = A(1)
            if e is not None and e[0] == "e" and d is not None and (d[0] == "sl" and d[1] == ("dropped", e[1]) or d[0] == "q" and not d[2]) and self.types.get(("dropped", e[1])) is not None:
                m = dict(mem)
                self.write(m, args[0][1], args[0][2], ("sl", ("dropped", e[1])))
                return [(UNIT, m, emit(gh, ("moved", e)))]
        if ln in ("extend_from_slice", "extend", "append") and d is not None and d[0] == "sl" and isinstance(d[1], tuple) and d[1][0] == "kept":
            x = self.deref(mem, args[1])
            if x is not None and x[0] == "it" and len(x[1]) == 1 and x[1][0][0] == "each" and not x[4]:
                x = ("sl", x[1][0][1])
            m = dict(mem)
            if x == ("sl", ("dropped", d[1][1])):
                self.write(m, args[0][1], args[0][2], ("sl", d[1][1]))
                return [(UNIT, m, gh)]
            if x is not None and x[0] == "q" and not x[2]:
                return [(UNIT, m, gh)]
        return None


    def once(self, mem, gh, name, item, cell=None):
        """The next element of a loop that is interpreted for one element only."""
        k = ("o", ("round", name, self.site))
        end = (NONE, mem, emit(gh, ("end round", name)))
        if k in mem:
            return [end]
        m = dict(mem)
        m[k] = I(1)
        e = self.element(("e", name))
        if cell is not None:
            m[cell] = e
        return [(NONE, m, end[2]), (SOME(item(e)), m, emit(gh, ("round", name)))]


def see(prog, r, ip, ps):
    for b in ip.bodies:
        r.saw(prog.bodies[b])
    r.count("paths", len(ps))


# ------------------------------------------------------------ input clauses
def loaded(prog, r):
    def translate(ip, c, args, mem, gh, ev):
        m = dict(mem)
        ip.types["L0"] = LITTY
        dest = next(a for a in args if a is not None and a[0] == "p" and (ip.deref(mem, a) or ("",))[0] in ("sl", "q"))
        ip.write(m, dest[1], dest[2], ("sl", "L0"))
        return [(UNIT, m, emit(gh, ("translated",) + tuple(deep(ip, mem, a) for a in args[1:])))]
    ip = Steps(prog, ((V + "variables::solver_from_user_lits", translate), V + "unit_simplify::resurrect_unit", V + "prop::assignment::full_restart"), TABLES)
    mem = ip.state(*STATE)
    ip.types["user"] = LITTY
    ps = ip.paths(V + "load::load_clause", [("ctx",), REF(("sl", "user"))], mem)
    see(prog, r, ip, ps)
    got = set()
    ok = lambda b, text, detail="": r.check(b, "input", text, detail)
    for p in ps:
        if p.what != "ret":
            continue
        evs = list(flat(p.evs))
        given_, steps = [e for e in evs if e[0] == "given"], [e for e in evs if e[0] == "step"]
        stores = [e for e in evs if e[0] == "store"]
        if not given_:
            ok(not stores and not steps and not (set(p.fields) - {"SolverState.sat_state"}) and p.is_(("enum", "SolverState.sat_state")) == "Unsat",
               "an input clause is given to the proof unless the formula is already known to be unsatisfiable", pp(p.evs)[:300])
            got.add("ignored")
            continue
        c = given_[0][1]
        name = c[1] if c is not None and c[0] == "sl" else None
        base, n = name, name
        while isinstance(n, tuple) and n[0] == "after" and n[1] in ("sort_unstable", "sort", "dedup", "sort_unstable_by_key", "sort_by_key", "reverse"):
            n = n[2]
        ok(len(given_) == 1 and n == "L0" and any(e[0] == "translated" and ("sl", "user") in e for e in evs), "the input clause itself is given to the proof, once", pp(given_))
        at = [i for i, e in enumerate(evs) if e[0] in ("given", "store", "step")]
        ok(evs[at[0]][0] == "given", "the clause is given to the proof before it is used", pp([evs[i] for i in at]))
        lost = any(e[0] == "scan remove" for e in evs)
        whole = lambda v: v == ("sl", base) or v == ("sl", ("kept", base)) and not lost
        size = lambda op, k: any(p.fact(ip.compare(p.mem, op, ip.length(("sl", x)), I(k))) for x in ((base,) if lost else (base, ("kept", base))))
        ok(not (lost and not any(e[0] == "moved" for e in evs)), "no literal of a stored clause is lost", pp(evs)[:300])
        unsat = p.fields.get("SolverState.sat_state") == ("a", "Unsat", ())
        deletes = [e for e in steps if is_step(prog, e, "DeleteClause") is not None]
        for e in deletes:
            ok(whole(is_step(prog, e, "DeleteClause")["clause"]) and not stores and e[1] == I(1), "only the clause that is not stored is deleted", pp(e))
        ok(len(deletes) == len(steps) <= 1, "no other steps for an input clause", pp(steps))
        ok(len(stores) <= 1, "an input clause is stored once", pp(stores))
        if stores:
            s = stores[0]
            what, v = s[1], s[2:]
            lits = [x for x in v if x is not None and (x[0] == "sl" or x[0] == "a" and x[1] in (None, "array") or x[0] in ("at", "e"))]
            firsts = lambda k: [[("at", x, i) for i in range(k)] for x in ((base,) if lost else (base, ("kept", base)))]
            if what == "add_clause":
                ok(len(lits) == 1 and whole(lits[0]), "the stored clause has the literals given to the proof", pp(s))
            elif what == "add_binary_clause":
                ok(len(lits) == 1 and lits[0][0] == "a" and list(lits[0][2]) in firsts(2) and size("Eq", 2), "a stored binary clause has the literals given to the proof", pp(s))
            else:
                ok(any(x in ([y[0] for y in firsts(1)]) for x in v) and size("Eq", 1), "an assigned unit is the clause given to the proof", pp(s))
            got.add(what)
        elif unsat:
            got.add("unsat")
        elif deletes:
            got.add("satisfied")
        elif any(e[0] == "access" and e[1] == "Assignment.assignment" for e in evs):
            ok(size("Le", 1) or size("Lt", 2), "a clause that is not stored because of the assignment is deleted in the proof", pp(p.evs)[:400])
            got.add("unit")
        else:
            ok(any(e[0] == "is" and isinstance(e[1], tuple) and e[1][0] == "same" for e in evs) or ip.unknown, "a clause is dropped only after comparing its literals", pp(p.evs)[:300])
            got.add("tautology")
    ok(got == {"ignored", "add_clause", "add_binary_clause", "enqueue_assignment", "unsat", "satisfied", "unit", "tautology"}, "all outcomes are possible", str(sorted(got)))


def is_step(prog, e, kind):
    """Fields of the step of a step event, None if it is of another kind."""
    s = e[2] if len(e) > 2 else None
    if s is None or s[0] != "a" or s[1] != kind:
        return None
    v = next(x for x in prog.adt(KIND)["variants"] if x["name"] == kind)
    return {f["name"]: x for f, x in zip(v["fields"], s[2])}


# ------------------------------------------------------------ which steps are needed
def flags(prog, r):
    """The conditions under which steps may be left out."""
    P = V + "proof::Proof::"
    for fn, native in (("is_active", False), ("native_format", True), ("clause_hashes_required", True), ("models_in_proof", True)):
        b = prog.fn_opt(P + fn) if hasattr(prog, "fn_opt") else prog.fn(P + fn)
        ip = Steps(prog)
        mem = ip.state(V + "proof::Proof")
        got = set()
        for p in ip.paths(b, [("p", ("o", V + "proof::Proof"), ())], mem):
            checker, form = p.is_(("opt", "Proof.checker")), p.is_(("opt", "Proof.format"))
            kind = p.is_(("enum", ("some", "Proof.format")))
            v = exact(p.value) if p.value is not None and p.value[0] in "it" else None
            written = (kind == "Varisat" if native else form == "Some" or kind is not None)
            silent = form == "None" or native and kind not in (None, "Varisat")
            right = v == 1 and (checker == "Some" or written) or v == 0 and checker == "None" and silent
            r.check(p.what == "ret" and right, "flags", "%s holds whenever %s" % (fn, "the native format is written or the proof is checked" if native else "a proof is written or checked"),
                    "checker %s, format %s %s: %s" % (checker, form, kind, pp(p.value)))
            got.add(v)
        r.check(got == {0, 1}, "flags", "%s is not constant" % fn, str(got))
        see(prog, r, ip, [])


# ------------------------------------------------------------ learned clauses
def learned(prog, r):
    AN = ("sl", "learned")

    def more(ip, c, args, mem, gh):
        n = c.names[0] if c.names else ""
        if n.startswith(V + "analyze_conflict::AnalyzeConflict::") and len(args) == 1:
            ip.types["learned"] = LITTY
            ip.types["hashes"] = ip.types["involved"] = None
            if LITTY in c.ret_ty:
                return [(REF(AN), mem, gh)]
            if "ClauseHash" in c.ret_ty or "u64" in c.ret_ty:
                return [(REF(("sl", "hashes")), mem, gh)]
            return [(REF(("sl", "involved")), mem, gh)] if c.ret_ty.startswith("&") else None
        return None
    cons = (V + "cdcl::find_conflict", V + "analyze_conflict::analyze_conflict", V + "prop::assignment::backtrack", V + "clause::assess::bump_clause", V + "clause::assess::assess_learned_clause",
            V + "clause::activity::decay_clause_activities", V + "model::reconstruct_global_model")
    ip = Steps(prog, cons, TABLES, more=more)
    ps = ip.paths(V + "cdcl::conflict_step", [("ctx",)], ip.state(*STATE))
    see(prog, r, ip, ps)
    ok = lambda b, text, detail="": r.check(b, "learned", text, detail)
    got = set()
    ln = ("t", ("len", "learned"), 0, 2 ** 62)
    for p in ps:
        if p.what != "ret":
            continue
        evs = list(flat(p.evs))
        steps, stores = [e for e in evs if e[0] == "step"], [e for e in evs if e[0] == "store"]
        if not any(e[0] == "call" and e[1] == "analyze_conflict" for e in evs):
            ok(not steps and not stores, "nothing is learned or logged here without a conflict", pp(p.evs)[:300])
            st = p.fields.get("SolverState.sat_state")
            model = any(e[0] == "call" and e[1] == "reconstruct_global_model" for e in evs)
            ok(model or st is not None and st[1] == "UnsatUnderAssumptions", "the search ends with a logged model or failed assumptions", pp(p.evs)[:300])
            got.add("model" if model else "failed")
            continue
        d = is_step(prog, steps[0], "AtClause") if len(steps) == 1 else None
        ok(d is not None and d["clause"] == AN and d["propagation_hashes"] == ("sl", "hashes") and steps[0][1] == I(1), "the learned clause is logged with its propagations", pp(steps))
        at = [e[0] for e in evs if e[0] in ("step", "store")]
        ok(at[:1] == ["step"], "the learned clause is logged before it is used", str(at))
        if d is not None:
            long = p.fact(ip.compare(p.mem, "Gt", ln, I(2)))
            ok(long is not None and p.fact(d["redundant"]) == long, "exactly the learned long clauses are logged as redundant", "%s %s %s" % (long, p.fact(d["redundant"]), d["redundant"]))
        for s in stores:
            lits = [x for x in s[2:] if x is not None and (x[0] == "sl" or x[0] == "a" and x[1] in (None, "array"))]
            if s[1] == "add_clause":
                ok(AN in lits, "the stored clause is the logged one", pp(s))
            elif s[1] == "add_binary_clause":
                ok(lits == [("a", lits[0][1], (("at", "learned", 0), ("at", "learned", 1)))] if lits else False, "the stored clause is the logged one", pp(s))
            got.add(s[1])
        if not stores:
            ok(p.fact(ip.compare(p.mem, "Eq", ln, I(0))) is True, "only an empty learned clause is not used", pp(p.evs)[:300])
            got.add("empty")
    ok(got == {"model", "failed", "add_clause", "add_binary_clause", "enqueue_assignment", "empty"}, "all outcomes are possible", str(sorted(got)))


# ------------------------------------------------------------ units
def units(prog, r):
    ip = Steps(prog, ((V + "prop::graph::Reason::lits", reason_lits),), TABLES)
    ps = ip.paths(V + "unit_simplify::prove_units", [("ctx",)], ip.state(*STATE))
    see(prog, r, ip, ps)
    ok = lambda b, text, detail="": r.check(b, "units", text, detail)
    got = set()
    for p in ps:
        if p.what != "ret":
            continue
        evs = list(flat(p.evs))
        steps = [e for e in evs if e[0] == "step"]
        for e in evs:
            if e[0] == "step":
                d = is_step(prog, e, "UnitClauses")
                ok(d is not None and e[1] == I(1), "proved units are logged", pp(e))
                us = d["units"] if d else None
                each = us[2][0] if us is not None and us[0] == "q" and len(us[2]) == 1 and us[2][0][0] == "each" else None
                ok(each is not None and forward(each[1]) == "Trail.trail", "the logged units are those of the trail", pp(us))
                for alt in each[2] if each else ():
                    if alt:
                        x = alt[0][1] if len(alt) == 1 and alt[0][0] == "one" else None
                        lit = x[2][0] if x is not None and x[0] == "a" and len(x[2]) == 2 else None
                        ok(lit == ("e", each[1]), "a unit is logged with its literal", pp(x))
                        h = x[2][1] if lit is not None else None
                        t = h[1] if h is not None and h[0] == "t" else None
                        good = isinstance(t, tuple) and t[0] == "BitXor" and sorted(y[1][0] for y in t[1:3]) == ["clause_hash", "lit_hash"]
                        ok(good and all(reason_of(y[1][1], lit) or y[1][1] == lit for y in t[1:3]), "and the hash of the rest of the clause that implies it", pp(h))
                got.add("logged")
        cleared = [e for e in evs if e[0] == "vec" and e[1] == "Trail.trail" or e[0] == "set" and e[1] == "ImplGraph.nodes"]
        loops = [e for e in p.evs if e[0] in ("loop", "brk") and forward(e[1]) == "Trail.trail"]
        if not cleared:
            ok(not steps, "nothing is logged unless units are removed")
            got.add("none")
            continue
        # every unit with a clause as reason is collected
        implied = False
        for lp in loops:
            ok(lp[0] == "loop", "all entries of the trail are handled", pp(lp))
            for it in lp[2]:
                kinds = {e[2] for e in flat(it) if e[0] == "is" and isinstance(e[1], tuple) and e[1][0] == "enum" and mentions(e[1], ("e", lp[1]))}
                known = kinds or {"?"}
                implied = implied or known != {"Unit"}
        none = any(e[0] == "is" and isinstance(e[1], tuple) and e[1][0] == "Lt" and mentions(e[1][1], "q") and e[1][2] == I(1) and e[2] == 1 for e in evs)
        ok(bool(steps) or none or not implied, "units implied by clauses are logged", pp(p.evs)[:400])
        if implied and steps:
            d = is_step(prog, steps[0], "UnitClauses")
            us = d["units"] if d else None
            alts = us[2][0][2] if us is not None and us[0] == "q" and us[2] and us[2][0][0] == "each" else ()
            unit_only = {bool(it) for it in alts}
            n = sum(1 for lp in loops for it in lp[2] if {e[2] for e in flat(it) if e[0] == "is" and isinstance(e[1], tuple) and e[1][0] == "enum"} == {"Unit"})
            ok(bool(n) == (False in unit_only), "only units that are clauses themselves are left out", pp(us))
        got.add("implied" if implied else "clauses")
    ok(got == {"none", "logged", "implied", "clauses"}, "all outcomes are possible", str(sorted(got)))


def reason_of(v, lit):
    """v are the literals of the reason of lit."""
    return v is not None and v[0] == "sl" and isinstance(v[1], tuple) and v[1][0] == "reason lits" and mentions(v[1], vindex(parts(lit)[0])) or False


# ------------------------------------------------------------ simplification
DB, ALLOC, BINS = V + "clause::db::ClauseDb", V + "clause::alloc::ClauseAlloc", V + "binary::BinaryClauses"


def simplified(prog, r):
    cons = (V + "binary::simplify_binary", (V + "proof::Proof::is_active", active), V + "variables::remove_solver_var", V + "variables::Variables::var_data_solver_mut", V + "variables::Variables::solver_var_present",
            V + "prop::watch::Watchlists::disable")
    ip = Steps(prog, cons, TABLES, more=any_ref, single=True)
    mem = ip.state(*STATE, DB, ALLOC)
    ps = ip.paths(V + "unit_simplify::unit_simplify", [("ctx",)], mem)
    see(prog, r, ip, ps)
    ok = lambda b, text, detail="": r.check(b, "simplify", text, detail)
    got = set()
    for cref, m, evs in ip.rounds:
        evs = list(flat(evs))
        old = ("sl", ("lits", cref))
        yes = lambda t, v: any(e[0] == "is" and e[1] == t and e[2] == v for e in evs)
        before = yes(("header", cref, "deleted"), 1)
        steps = [e for e in evs if e[0] == "step"]
        gone = any(e[0] == "header" and e[1] == "set_deleted" and e[2] == cref and exact(e[3]) == 1 for e in evs)
        changed = [e for e in evs if e[0] == "literals"]
        stores = [e for e in evs if e[0] == "store"]
        if before:
            ok(not steps and not changed and not stores, "a deleted clause is not handled again", pp(evs)[:300])
            got.add("deleted")
            continue
        dels = [e for e in steps if (is_step(prog, e, "DeleteClause") or {}).get("clause") == old and e[1] == I(1)]
        adds = [e for e in steps if is_step(prog, e, "AtClause") is not None and e[1] == I(1)]
        off = yes("active", 0)
        if not gone and not changed:
            ok(not steps and not stores and ("kept", cref) in evs, "nothing is logged for an unchanged clause", pp(steps))
            got.add("kept")
            continue
        ok(len(dels) == 1 or off and not steps, "the deletion of a removed or shortened clause is logged", "logged: %s" % pp(steps))
        ok(len(dels) + len(adds) == len(steps), "nothing else is logged for a clause", pp(steps))
        red = [e[2] for e in evs if e[0] == "is" and e[1] == ("header", cref, "redundant")]
        for e in dels:
            how = is_step(prog, e, "DeleteClause")["proof"]
            why = "Redundant" if red and red[0] else "Simplified" if changed or stores else "Satisfied"
            ok(how is not None and how[0] == "a" and bool(red) and how[1] == why, "the deletion gives the reason why the clause may go", "%s, should be %s" % (pp(how), why))
        if stores or changed:
            ok(off or len(adds) == 1 and steps.index(adds[0]) < steps.index(dels[0]) if dels else off, "a shortened clause is logged before the deletion of the longer one", pp(steps))
            ok(not stores or gone, "the longer clause is removed when a shorter one is stored", pp(evs)[:300])
            d = is_step(prog, adds[0], "AtClause") if adds else None
            for e in changed:
                ok(e[2] in ("copy_from_slice", "clone_from_slice") and (d is None or e[4] == d["clause"]), "the shortened clause is the logged one", pp(e))
                ln = ip.length(e[4]) if len(e) > 4 and e[4] is not None else None
                ok(ln is not None and any(x[0] == "header" and x[1] == "set_len" and x[2] == cref and x[3] is not None and same(ip.known(m, x[3]), ip.known(m, ln)) for x in evs), "the length of the shortened clause is that of its literals", pp(ln))
                got.add("shortened")
            for e in stores:
                ok(e[1] == "add_binary_clause", "only binary clauses are stored anew", pp(e))
                got.add("binary")
            if d is not None:
                c = d["clause"]
                ok(c is not None and c[0] == "q" and all(x[0] == "each" and x[1] == old[1] and all(not y or y == (("one", ("e", old[1])),) for y in x[2]) for x in c[2]) and c[2], "the shortened clause consists of literals of the clause", pp(c))
                long = m_fact(ip, m, ip.compare(m, "Gt", ip.length(c), I(2)))
                want = bool(red and red[0]) and long
                ok(long is not None and m_fact(ip, m, d["redundant"]) == want, "a shortened clause is redundant if the longer one was and it has more than two literals", pp(d["redundant"]))
        else:
            got.add("satisfied")
    ok(got == {"deleted", "kept", "satisfied", "binary", "shortened"}, "all outcomes are possible", str(sorted(got)))


def reduced(prog, r):
    cons = ((V + "proof::Proof::is_active", active), V + "prop::watch::Watchlists::disable", V + "clause::reduce::dedup_and_mark_by_tier")
    ip = Steps(prog, cons, TABLES, single=True)
    mem = ip.state(*STATE, DB, ALLOC)
    ps = ip.paths(V + "clause::reduce::reduce_locals", [("ctx",)], mem)
    see(prog, r, ip, ps)
    ok = lambda b, text, detail="": r.check(b, "reduce", text, detail)
    got = set()
    for p in ps:
        if p.what != "ret":
            continue
        evs = list(flat(p.evs))
        gone = [e[2] for e in evs if e[0] == "header" and e[1] == "set_deleted" and exact(e[3]) == 1]
        steps = [e for e in evs if e[0] == "step"]
        dels = [(is_step(prog, e, "DeleteClause") or {}) for e in steps]
        on = p.fact(B("active")) is not False
        ok(all(e[1] == I(1) for e in steps) and len(gone) == len(set(gone)) and None not in gone, "a clause is deleted once", pp(gone))
        ok([d.get("clause") for d in dels] == ([("sl", ("lits", x)) for x in gone] if on else []) or not on and not steps, "exactly the deleted clauses are logged as deleted", "%s for %s" % (pp(steps), pp(gone)))
        ok(all(d.get("proof") == ("a", "Redundant", ()) for d in dels), "clauses of the local tier are redundant", pp(dels))
        ok({e[1] for e in evs if e[0] == "scan remove"} == set(gone), "exactly the deleted clauses leave the list", pp(evs)[:300])
        got.add((bool(gone), bool(steps)))
    ok({(True, True), (False, False)} <= got, "clauses are deleted or not", str(got))


def binaries(prog, r):
    cons = ((V + "proof::Proof::is_active", active), EQ)
    ip = Steps(prog, cons, TABLES, single=True)
    mem = ip.state(*STATE, BINS)
    ps = ip.paths(V + "binary::simplify_binary", [("ctx",)], mem)
    see(prog, r, ip, ps)
    ok = lambda b, text, detail="": r.check(b, "binary", text, detail)
    t = "BinaryClauses.by_lit"
    inner = ("e", t)
    orders, got = set(), set()

    def logged(evs, other, gone):
        """One implied literal: logged exactly if the clause goes and this is the list it is logged for."""
        steps = [e for e in evs if e[0] == "step"]
        order = [(e[1], e[2]) for e in evs if e[0] == "is" and isinstance(e[1], tuple) and e[1][0] == "before"]
        if steps:
            ok(gone and len(steps) == 1, "only removed binary clauses are logged as deleted", pp(evs)[:300])
            d = is_step(prog, steps[0], "DeleteClause")
            c = pairs(d["clause"]) if d else []
            k = [parts(x) for x in c if x != other]
            ok(d is not None and steps[0][1] == I(1) and len(c) == 2 and other in c and len(k) == 1 and mentions(k[0], "code") and mentions(k[0], t) and negated(k[0][1]), "the logged clause is that of the list and the literal in it", pp(steps))
            ok(d is not None and d["proof"] is not None and d["proof"][0] == "a" and d["proof"][1] == "Satisfied", "it is satisfied", pp(d))
        off = any(e[0] == "is" and e[1] == "active" and e[2] == 0 for e in evs)
        if gone and order and not off:
            b, v = order[0]
            first = bool(v) == (b[2] == other)      # the literal of the list comes first
            orders.add(first == bool(steps))
            got.add("logged" if steps else "elsewhere")
        elif gone:
            ok(off or not steps, "a removed clause is logged for one of its two lists", pp(evs)[:300])
    for e, m, evs in ip.rounds:
        evs = list(flat(evs))
        opt = [x[2] for x in evs if x[0] == "is" and isinstance(x[1], tuple) and x[1][0] == "opt" and mentions(x[1], "Assignment.assignment")]
        gone = ("dropped", e) in evs
        ok(opt == ["Some" if gone else "None"], "a clause leaves the list exactly if its other literal is assigned", pp(evs)[:300])
        logged(evs, e, gone)
        ok(not gone or any(x[0] == "is" and (x[1] == "active" and x[2] == 0 or isinstance(x[1], tuple) and x[1][0] == "before") for x in evs), "a removed clause is logged unless it is for the other list", pp(evs)[:300])
    for p in ps:
        if p.what != "ret" or not any(e[0] == "round" for e in p.evs):
            continue
        evs = list(flat(p.evs))
        opt = [x[2] for x in evs if x[0] == "is" and isinstance(x[1], tuple) and x[1][0] == "opt" and mentions(x[1], "Assignment.assignment")]
        v = ip.close(p.mem, p.mem.get(("o", ("element", t))))
        if any(e[0] == "filtered" for e in evs):
            ok(opt == ["None"] and v == ("sl", ("retained", inner)), "lists of unassigned literals are filtered", pp(p.evs)[:300])
            got.add("filtered")
            continue
        ok(opt == ["Some"] and v is not None and v[0] == "q" and not v[2], "lists of assigned literals are emptied", pp(v))
        loops = [e for e in p.evs if e[0] in ("loop", "brk") and e[1] == inner]
        ok(p.fact(B("active")) is False or len(loops) == 1 and loops[0][0] == "loop", "the whole list is logged", pp(p.evs)[:300])
        got.add("cleared")
        for lp in loops:
            for it in lp[2]:
                logged(list(flat(it)), ("e", inner), True)
                ok(any(x[0] == "is" and isinstance(x[1], tuple) and x[1][0] == "before" for x in flat(it)), "a removed clause is logged unless it is for the other list", pp(it))
    ok(len(orders) == 1, "a clause in two lists is logged for exactly one of them", str(orders))
    ok(got == {"logged", "elsewhere", "filtered", "cleared"}, "all outcomes are possible", str(sorted(got)))


def negated(pos):
    return pos is not None and pos[0] == "t" and isinstance(pos[1], tuple) and pos[1][0] == "not"


def m_fact(ip, m, b):
    return Path.fact(type("X", (), {"ip": ip, "mem": m})(), b)


def same(a, b):
    return a is not None and b is not None and (a == b or a[0] == b[0] == "t" and a[1] == b[1])


def active(ip, c, args, mem, gh, ev):
    return [(B("active"), mem, gh)]


def assumed(prog, r):
    def translate(ip, c, args, mem, gh, ev):
        m = dict(mem)
        ip.types["L0"] = LITTY
        dest = next(a for a in args if a is not None and a[0] == "p" and (ip.deref(mem, a) or ("",))[0] in ("sl", "q"))
        ip.write(m, dest[1], dest[2], ("sl", "L0"))
        return [(UNIT, m, emit(gh, ("translated",) + tuple(deep(ip, mem, a) for a in args[1:])))]
    ip = Steps(prog, ((V + "variables::solver_from_user_lits", translate), V + "prop::assignment::full_restart", V + "variables::Variables::var_data_solver_mut"), TABLES, more=any_ref)
    ip.types["user"] = LITTY
    ps = ip.paths(V + "assumptions::set_assumptions", [("ctx",), REF(("sl", "user"))], ip.state(*STATE))
    see(prog, r, ip, ps)
    ok = lambda b, text, detail="": r.check(b, "assumptions", text, detail)
    n = 0
    for p in ps:
        if p.what != "ret":
            continue
        n += 1
        evs = list(flat(p.evs))
        steps = [e for e in evs if e[0] == "step"]
        d = is_step(prog, steps[0], "Assumptions") if len(steps) == 1 else None
        ok(d is not None and steps[0][1] == I(1) and d["assumptions"] == p.fields.get("Assumptions.assumptions") == ("sl", "L0"), "new assumptions are logged", pp(steps))
        ok(any(e[0] == "translated" and ("sl", "user") in e for e in evs), "the assumptions are those given by the user", pp(p.evs)[:300])
        ok(not any(e[0] == "vec" and e[1] == "Assumptions.assumptions" for e in evs[max([i for i, e in enumerate(evs) if e[0] == "step"] or [0]):]), "the assumptions are not changed after they are logged")
    ok(n, "assumptions can be set")


def any_ref(ip, c, args, mem, gh):
    if c.ret_ty.startswith("&mut") and last(c.names[0] if c.names else "") == "var_data_solver_mut":
        return [(("p", ("o", ("data", ip.close(mem, args[1]))), ()), mem, gh)]
    return None


def failed(prog, r):
    from .c26 import recorders
    fs = recorders(prog)
    r.floor("functions recording failed assumptions", len(fs), 1)
    ok = lambda b, text, detail="": r.check(b, "failed", text, detail)
    for f in fs:
        ip = Steps(prog, ((V + "prop::graph::Reason::lits", one_lit), (V + "proof::Proof::clause_hashes_required", asked), V + "variables::Variables::existing_user_from_solver"), TABLES, more=flag)
        mem = ip.state(*STATE, V + "tmp::TmpFlags")
        ps = ip.paths(f, [("ctx",), ("lt", "l")], mem)
        see(prog, r, ip, ps)
        n = 0
        for p in ps:
            if p.what != "ret":
                continue
            n += 1
            evs = list(flat(p.evs))
            steps = [e for e in evs if e[0] == "step"]
            d = is_step(prog, steps[0], "FailedAssumptions") if len(steps) == 1 else None
            core = p.fields.get("Assumptions.failed_core")
            ok(d is not None and steps[0][1] == I(1) and core is not None and d["failed_core"] == core, "the failed assumptions are logged as they are reported", pp(steps))
            hs = d["propagation_hashes"] if d else None
            ok(d is not None and hs == p.fields.get("Assumptions.failed_propagation_hashes"), "together with the propagations recorded", pp(hs))
            for lp in p.evs:
                if lp[0] in ("loop", "brk") and forward(strip(lp[1])) == "Trail.trail":
                    for it in tuple(lp[2]) + ((lp[3],) if lp[0] == "brk" else ()):
                        kinds = {e[2] for e in flat(it) if e[0] == "is" and isinstance(e[1], tuple) and e[1][0] == "enum" and mentions(e[1], ("e", forward(strip(lp[1]))))}
                        if kinds & {"Binary", "Long"}:
                            hashes = [e[-1] for e in flat(it) if e[0] == "vec" and e[2] == "push" and "hash" in e[1]]
                            ok(len(hashes) == 1 and hashes[0] is not None and mentions(hashes[0], "clause_hash") and mentions(hashes[0], "lit_hash"), "every propagation used is recorded", pp(it))
                            n += 1000
        ok(n > 1000, "failed assumptions are found by following propagations")


def strip(n):
    return n[1] if isinstance(n, tuple) and n[0] == "rev" else n


def asked(ip, c, args, mem, gh, ev):
    return [(I(1), mem, gh)]


def one_lit(ip, c, args, mem, gh, ev):
    return [(REF(("a", "array", (("rl", ip.close(mem, args[0])),))), mem, gh)]


def flag(ip, c, args, mem, gh):
    """Marks of literals are not followed."""
    if args and "index" in last(c.names[0] if c.names else "") and ip.name_of(args[0]) == "TmpFlags.flags":
        return [(None, mem, gh)]
    return None


def reason_lits(ip, c, args, mem, gh, ev):
    why = ip.close(mem, args[0])
    ip.types[("reason lits", why)] = LITTY
    return [(REF(("sl", ("reason lits", why))), mem, gh)]


def found(prog, r):
    M = V + "model::Model"
    ip = Names(prog, ((STEPS, step), (V + "proof::Proof::models_in_proof", modelled)), ("Model.assignment", "Variables.var_data", "Assignment.assignment"), more=named)
    mem = ip.state(VARS, M, *STATE)
    ps = ip.paths(V + "model::reconstruct_global_model", [("ctx",)], mem)
    see(prog, r, ip, ps)
    ok = lambda b, text, detail="": r.check(b, "model", text, detail)
    got = set()
    for p in ps:
        if p.what != "ret":
            continue
        evs = list(flat(p.evs))
        steps = [e for e in evs if e[0] == "step"]
        ok(p.fields.get("SolverState.sat_state") == ("a", "Sat", ()), "a model makes the formula satisfiable", pp(p.fields.get("SolverState.sat_state")))
        if not steps:
            ok(p.fact(B("models")) is False, "a model is logged if models are part of the proof", pp(p.evs)[:300])
            got.add("none")
            continue
        got.add("logged")
        d = is_step(prog, steps[0], "Model") if len(steps) == 1 else None
        ok(d is not None and steps[0][1] == I(0), "a model is logged once, in global variables", pp(steps))
        for lp in p.evs:
            if lp[0] not in ("loop", "brk"):
                continue
            for it in lp[2]:
                sets = [e for e in flat(it) if e[0] == "set" and e[1] == "Model.assignment"]
                pushes = [e[3] for e in flat(it) if e[0] == "vec" and e[2] == "push"]
                for e in sets:
                    v = e[4]
                    if v is not None and v[0] == "a" and v[1] == "Some":
                        got.add("value")
                        lit = pushes[0] if len(pushes) == 1 else None
                        q = parts(lit) if lit is not None else None
                        ok(q is not None and vindex(q[0]) == e[2] and q[1] == v[2][0], "a value of the model is logged for its variable", "%s for %s" % (pp(pushes), pp(e)))
                    else:
                        ok(not pushes, "only values of the model are logged", pp(it))
                ok(bool(sets) or not pushes, "only values of the model are logged", pp(it))
        if d is not None:
            last_ = [k for k, v in p.fields.items() if v == d["assignment"]]
            ok(bool(last_), "all collected values are logged", pp(d))
            ok(not any(e[0] == "vec" and e[2] not in ("push", "clear") and e[1] in last_ for e in evs), "all collected values are logged", pp(p.evs)[:300])
    ok(got == {"none", "logged", "value"}, "all outcomes are possible", str(sorted(got)))


def modelled(ip, c, args, mem, gh, ev):
    return [(B("models"), mem, gh)]


# ------------------------------------------------------------ no other changes
ROOTS = [V + x for x in ("load::load_clause", "cdcl::conflict_step", "unit_simplify::prove_units", "unit_simplify::unit_simplify", "clause::reduce::reduce_locals", "binary::simplify_binary",
                         "assumptions::set_assumptions", "model::reconstruct_global_model")]


def elsewhere(prog, r):
    """The clause set, assumptions, models and failed assumptions only change in the interpreted functions."""
    from .c26 import recorders
    roots = {prog.fn(x).id for x in ROOTS} | set(recorders(prog))

    def covered(b, extra, seen):
        b = prog.owner_fn(b) if b.is_closure else b
        if b.id in roots | extra:
            return True
        if b.id in seen:
            return False
        cs = {(prog.owner_fn(c) if c.is_closure else c).id for c in (prog.bodies[i] for i in prog.callers().get(b.id, ()))} - {b.id}
        return all(covered(prog.bodies[c], extra, seen | {b.id}) for c in cs) if cs else not public(b)

    def public(b):
        return False
    gc = {prog.fn(V + "clause::gc::collect_garbage").id}
    shortened = {V + "clause::header::ClauseHeader::set_len", V + "clause::Clause::lits_mut", V + "clause::alloc::ClauseAlloc::lits_ptr_mut_unchecked"}
    n = 0
    for f, extra in ((V + "clause::db::add_clause", set()), (V + "binary::BinaryClauses::add_binary_clause", set()), (V + "clause::header::ClauseHeader::set_deleted", set()),
                     (V + "clause::alloc::ClauseAlloc::add_clause", gc), (V + "clause::header::ClauseHeader::set_len", {V + "clause::alloc::ClauseAlloc::add_clause"}),
                     (V + "clause::Clause::lits_mut", set())):
        b = prog.fn(f)
        r.saw(b)
        for c in sorted(prog.callers().get(b.id, ())):
            n += 1
            c = prog.bodies[c]
            r.check(covered(c, extra, set()), "elsewhere", "%s is only used where the change is logged" % f, "%s calls it outside the functions whose changes are logged" % c.id)
    r.floor("uses of the operations that change clauses", n, 8)
    m = 0
    size = {V + "context::set_var_count"}
    for owner, field, extra in (("BinaryClauses", "by_lit", size | {V + "binary::BinaryClauses::add_binary_clause"}), ("ClauseDb", "clauses", {V + "clause::db::add_clause", *gc}),
                                ("Assumptions", "assumptions", {V + "assumptions::enqueue_assumption"}), ("Assumptions", "failed_core", set()), ("Model", "assignment", set())):
        m += writers_ok(prog, r, owner, field, roots | {prog.fn(x).id for x in extra}, unused=True)
    r.floor("writes of clauses, assumptions and models", m, 8)
