"""C25 — Proof steps with arbitrary variables never crash the checker."""
from vlib.common import *
from vlib.absint import Stuck, exact, I
from vlib.checkersteps import *
from vlib.terms import T, B, SOME
from . import c07

EXPLANATION = ("Term-based abstract interpretation of every kind of checker step and of every helper that indexes a per-variable table, with arbitrary step contents and checker state: each index is compared with the "
               "table length the path established (extension, length test or stored clause), no path ends in a panic or unwraps nothing, the extension of the tables covers the variable in all three tables, only the "
               "extension changes their lengths, and every literal handed to the transcript is visible to the user.")
HELPERS = (("clauses::store_clause", dict(flag=0)), ("clauses::store_clause", dict(flag=1)), ("clauses::store_unit_clause", {}), ("clauses::delete_clause", dict(flag=0)), ("clauses::delete_clause", dict(flag=1)),
           ("clauses::collect_garbage", dict(cls=Moving)), ("hash::rehash", dict(cls=Moving, solver_var_names=("solver_var_names",))),
           ("variables::ensure_sampling_var", {}), ("sorted_lits::copy_canonical", {}))


def run(prog, r):
    r.rule("no path of a checker step or helper indexes a per-variable table beyond the length it established, ends in a panic, or unwraps nothing; the table extension covers the variable; reported literals are visible")
    reached = set()
    for part in (steps_, helpers, propagation, extension, lookup):
        try:
            part(prog, r, reached)
        except Stuck as e:
            r.fail("undecided/" + part.__name__, "%s: %s" % (part.__name__, e))
    coverage(prog, r, reached)
    r.rule("no counter of the checker overflows at 8 or 16 bits")
    narrow(prog, r, [b for b in prog.bodies.values() if b.crate == "varisat_checker"], "width", "a proof with many literals or clauses makes it overflow")


class Counting(Helper):
    """Helper whose copy counts do not overflow (fewer than 2^32 copies of a clause)."""
    def checker(self, ip, c, args, mem, gh):
        rs = super().checker(ip, c, args, mem, gh)
        if rs and c.names and last(c.names[0]) == "checked_add" and len(rs) == 2 and "u32" in c.ret_ty:
            return rs[:1]
        return rs


def sound(r, key, what, p, allowed=lambda p, e: False):
    bad = [e for e in flat(p.evs) if e[0] == "unsafe access" and not allowed(p, e)]
    r.check(not bad, key + "/index", "indices within the tables", "%s may index a per-variable table beyond its end: the %s table at `%s` on a path that does not cover that variable" % (
        what, {"var": "variable data", "lit": "literal data", "unit": "unit clause"}.get(bad[0][1], bad[0][1]) if bad else "", pp(bad[0][2]) if bad else ""))
    grown = [e for e in flat(p.evs) if e[0] == "resize"]
    r.check(not grown, key + "/length", "table lengths kept", "%s changes the length of the %s table outside the extension for a variable" % (what, grown[0][1] if grown else ""))
    r.check(p.what != "panic", key + "/panic", "no panic", "%s may panic at %s" % (what, p.value if isinstance(p.value, str) else "%s" % (p.value,)))


def crashes(r, key, what, ip):
    for s in sorted(str(x) for x in ip.crashes):
        r.fail(key + "/unwrap", "%s may unwrap nothing at %s" % (what, s))
    r.ok("%s: no unwrap of nothing" % what)


def steps_(prog, r, reached):
    steps = all_steps(prog, r)
    reached |= set(VISITED)
    n = vis = 0
    for kind, ps in steps.items():
        for p in ps:
            n += 1
            sound(r, "step/" + kind, "a %s step" % kind, p)
            for s in seqs(p.evs):
                for e in s:
                    if e[0] == "report":
                        vis += visible(prog, r, kind, p, e)
        if ps:
            crashes(r, "step/" + kind, "a %s step" % kind, ps[0].ip)
    r.floor("paths of steps", n, 200)
    r.floor("reports of user-visible literals", vis, 10)


FIELD = {"AddClause": "clause", "DuplicatedClause": "clause", "TautologicalClause": "clause", "Assumptions": "assumptions", "FailedAssumptions": "failed_core"}


def visible(prog, r, kind, p, e):
    """Literals that transcripts translate to user variables must have been found visible by this path."""
    v = e[1]
    if v is None or v[0] != "a":
        return 0
    names = [f["name"] for x in prog.adt(CHECKED)["variants"] if x["name"] == v[1] for f in x["fields"]]
    if v[1] == "UserVar":
        u = v[2][names.index("user_var")]
        if u is None or u[0] != "a" or u[1] != "None":
            return 0
        r.check(len(e) > 2 and e[2] is not None and e[2][0] == "a" and e[2][1] == "Some", "visible/removed name", "hidden variable had a name", "removing the user name of a variable is reported although it has no name (transcripts look it up)")
        return 1
    if v[1] not in FIELD:
        return 0
    ls = v[2][names.index(FIELD[v[1]])]
    if ls is not None and ls[0] in "aq" and not ls[2]:
        return 0
    covered(r, p, kind, ls, v[1])
    return 1


def covered(r, p, kind, ls, what=None):
    """All literals of ls were found to be visible (or to belong to sampling variables) by a loop of this path."""
    src = ls[1] if ls is not None and ls[0] == "sl" else None
    if src is None and ls is not None and ls[0] == "q" and len(ls[2]) == 1 and ls[2][0][0] == "each":
        src = ls[2][0][1]
    base = lambda x: base(x[1][1]) if isinstance(x, tuple) and x[0] == "canon" and isinstance(x[1], tuple) and x[1][0] == "sl" else x
    ok = False
    empty = src is not None and any(p.ip.interval(p.mem, ("t", ("len", x), 0, 2 ** 62)) == (0, 0) for x in (src, base(src)))
    if src is not None:
        for s in seqs(p.evs):
            for x in s:
                if x[0] == "loop" and base(x[1]) == base(src):
                    var = ("vr", ("e", x[1]))
                    ok |= all(any(y[0] == "sampling" and y[1] == var or what is not None and y[0] == "is" and y[1] == ("visible", var) and y[2] == "Some" for y in it) for it in x[2])
    r.check(ok or empty, "visible/" + (what or kind), "visible literals", "a %s step %s literals whose variables may be hidden from the user%s" % (
        kind, "reports %s for" % what if what else "stores", " (transcripts cannot name them)" if what else ""))


def helpers(prog, r, reached):
    n = removed = 0
    for name, kw in HELPERS:
        kw = dict(kw)
        kw.setdefault("cls", Counting)
        ip, ps = helper_paths(prog, name, **kw)
        c07.saw(r, prog, ip)
        reached |= set(ip.bodies)
        for p in ps:
            n += 1

            def same(p, e):         # the literals of a clause that was found among the stored clauses
                return e[2] == T(("code", ("e", "lits")), 0, 2 ** 32 - 1) and any(x[0] == "dropped" and any(y[0] == "is" and y[1][0] == "same" and ("sl", "lits") in y[1] and y[2] == 1 for y in s) for s in seqs(p.evs) for x in s)
            removed += sum(e[0] == "unsafe access" and same(p, e) for e in flat(p.evs))
            sound(r, name, name.split("::")[1], p, same if name.endswith("delete_clause") else (lambda p, e: False))
        crashes(r, name, name.split("::")[1], ip)
    c07.subset(prog, r)
    r.floor("paths of helpers", n, 60)
    r.floor("literals of removed clauses", removed, 2)


def propagation(prog, r, reached):
    """The propagation check; its two assertions only fire when its precondition (no temporary assignments) does not hold."""
    ip, ps = rup_paths(prog)
    c07.saw(r, prog, ip)
    reached |= set(ip.bodies)
    n = 0
    for p in ps:
        n += 1
        if p.what == "panic":
            left = p.ip.interval(p.mem, ("t", ("len", "old trail"), 0, 2 ** 62))[0] >= 1 or any(
                k[0] == "o" and isinstance(k[1], tuple) and k[1][0] == "cell0" and k[1][1] == "unit" and v is not None and v[0] == "a" and v[1] == "Some" and v[2][0][2][ip.ii] is not None and v[2][0][2][ip.ii][0] == "a" and v[2][0][2][ip.ii][1] != "Global" for k, v in p.mem.items())
            r.check(not p.gh[4] and left, "rup/panic", "only with temporary assignments left over", "the propagation check may panic at %s" % (p.value,))
            continue
        sound(r, "rup", "the propagation check", p)
        r.check(not p.gh[4] or p.gh[5], "rup/left over", "no temporary assignments left over", "the propagation check returns %s with temporary assignments left in place (the next check panics)" % pp(p.value))
    crashes(r, "rup", "the propagation check", ip)
    r.floor("paths of the propagation check", n, 150)


def extension(prog, r, reached):
    ip, ps = helper_paths(prog, "variables::ensure_var")
    c07.saw(r, prog, ip)
    reached |= set(ip.bodies)
    crashes(r, "ensure_var", "the extension of the tables", ip)
    grew = 0
    for p in ps:
        r.check(p.what != "panic", "ensure_var/panic", "no panic", "extending the tables may panic at %s" % (p.value,))
        ix = vindex(("var", "v"))
        inside = p.ip.known(p.mem, p.ip.compare(p.mem, "Lt", ix, NVARS))
        rs = {e[1]: e for e in flat(p.evs) if e[0] == "resize"}
        if exact(inside) == 1:
            r.check(not rs, "ensure_var/kept", "known variable: nothing to do", "the tables change their length although the variable is covered")
            continue
        grew += 1
        one = p.ip.arith("Add", ix, I(1), "usize")
        both = (p.ip.arith("Mul", one, I(2), "usize"), p.ip.arith("Mul", I(2), one, "usize"), p.ip.arith("Add", p.ip.arith("Mul", ix, I(2), "usize"), I(2), "usize"), p.ip.arith("Add", one, one, "usize"),
                p.ip.arith("Add", p.ip.arith("Mul", I(2), ix, "usize"), I(2), "usize"))
        for t, want in (("var", one), ("unit", one), ("lit", both[0])):
            e = rs.get(t)
            r.check(e is not None and e[2].startswith("resize") and (e[3] == want or t == "lit" and e[3] in both) and sum(x[0] == "resize" and x[1] == t for x in flat(p.evs)) == 1, "ensure_var/" + t, "extended to cover the variable",
                    "the %s table is %s when a new variable appears" % ({"var": "variable data", "lit": "literal data", "unit": "unit clause"}[t], "not extended" if e is None else "resized to `%s` entries; required `%s`" % (pp(e[3]), pp(want))))
    r.floor("extensions", grew, 1)


def lookup(prog, r, reached):
    fn = next((b for b in prog.bodies.values() if b.crate == "varisat_checker" and b.name == "user_from_proof_var" and b.argc == 2 and VAR in (b.loc_type(1), b.loc_type(2))), None)
    if fn is None:
        raise Stuck("CheckerData::user_from_proof_var not found")
    ip = Helper(prog, contracts=())
    mem = memory(prog, **helper_state())
    args = [("var", "v") if fn.loc_type(i) == VAR else ("ctx",) for i in range(1, fn.argc + 1)]
    n = 0
    for o in ip.run(fn, args, mem, GH0):
        p = Path(prog, ip, "lookup", o, mem)
        n += 1
        sound(r, "lookup", "looking up the user name of a variable", p)
    reached |= set(ip.bodies)
    crashes(r, "lookup", "looking up the user name of a variable", ip)
    r.floor("paths of looking up a name", n, 3)


GROW = ("resize", "truncate", "clear", "push", "pop", "extend", "resize_with", "drain", "insert", "remove", "swap_remove", "append", "retain", "split_off", "set_len")


def coverage(prog, r, reached):
    n = 0
    for b in prog.bodies.values():
        if b.crate != "varisat_checker":
            continue
        for c in b.calls():
            ts = c.arg_types()
            t = table_of(ts[0]) if ts else None
            if t is None or not c.names:
                continue
            ln = last(c.names[0])
            if c.names[0].startswith("core::ops::index::") or "unchecked" in ln or ln in GROW:
                n += 1
                r.check(b.id in reached, "coverage/%s" % b.name, "analysed", "%s %s a per-variable table at %s in code no analysed step or helper reaches" % (b.name, "resizes" if ln in GROW else "indexes", c.span()))
    r.floor("places that index or resize per-variable tables", n, 12)
