"""C17 — user, global and solver variable names stay one-to-one and are correctly recycled."""
from vlib.common import *
from vlib.absint import Stuck
from vlib.terms import *
from vlib.terms import I, T, B, REF, NONE, SOME, emit, GH0, UNIT, exact
from vlib.solver import Sol, pp, flat, var_of, vindex, writers_ok
from vlib.ir import Missing

EXPLANATION = ("Term-based abstract interpretation of every function that changes variable names, on an arbitrary state of the name maps (lookups branch into unnamed and named): on every path "
               "both directions of a map change together, only names shown to be unused are given out, freelists and deletion marks follow, and the matching proof step is emitted. "
               "The maps themselves are interpreted entry by entry, and writers of the maps and freelists are enumerated.")

V = "varisat::variables::"
MAP, VARS, DATA = V + "var_map::VarMap", V + "Variables", V + "data::VarData"
TABLE = "Variables.var_data"


def run(prog, r):
    widths(prog, r, "varisat::variables")
    r.rule("a name is bound only while unused, in both directions, and offered for reuse exactly after it was unbound")
    for part in (entries, accessors, unused, user_names, unnamed_again, solver_names, solver_removed, initial, translated, given_up, occurring, writers):
        try:
            part(prog, r)
        except Stuck as e:
            r.fail("undecided", "%s: %s" % (part.__name__, e))
        except Missing as e:
            r.fail("anchor", str(e))
    r.floor("paths", r.counts.get("paths", 0), 20)


# ------------------------------------------------------------ one map
def entries(prog, r):
    t = "VarMap.mapping"
    me = [("p", ("o", MAP), ())]
    fr, to = ("var", "from"), ("var", "into")
    length, ix = T(("len", t), 0, 2 ** 31), vindex(fr)
    ip = Sol(prog, (), (t,))
    ps = ip.paths(MAP + "::insert", me + [to, fr], ip.state(MAP))
    see(prog, r, ip)
    absent = None
    for p in ps:
        if p.what != "ret":
            continue
        r.count("paths")
        w = list(p.cells.items())
        r.check(len(w) == 1 and w[0][0][1] == ix and w[0][1][1] == vindex(to), "map/insert", "the entry of the name is set", pp(w))
        for e in flat(p.evs):
            if e[0] == "vec":
                absent = exact(e[4]) if e[2] == "resize" and len(e) > 4 and e[4] is not None else None
                r.check(absent is not None, "map/insert", "an extension fills the map with unnamed entries", pp(e))
    top = [Sol(prog).paths("varisat_formula::lit::Var::max_var", [], {})]
    most = [exact(p.value[2][0]) for p in top[0] if p.value is not None and p.value[0] == "a" and len(p.value[2]) == 1]
    r.check(absent is not None and len(most) == 1 and most[0] is not None and absent > most[0], "map/insert", "the mark of unnamed entries is not a variable", "the mark %s is a variable index" % absent)
    ip = Sol(prog, (), (t,))
    ps = ip.paths(MAP + "::remove", me + [fr], ip.state(MAP))
    see(prog, r, ip)
    kinds = set()
    for p in ps:
        if p.what != "ret":
            continue
        r.count("paths")
        inside = p.fact(ip.compare(p.mem, "Lt", ix, length))
        w = list(p.cells.items())
        kinds.add(inside)
        if inside is False:
            r.check(not w, "map/remove", "nothing changes if the name is not covered", pp(w))
        else:
            r.check(len(w) == 1 and w[0][0][1] == ix and w[0][1][1] is not None and exact(w[0][1][1]) == absent, "map/remove", "the entry is marked as unnamed", pp(w))
    r.check(kinds == {True, False}, "map/remove", "both outcomes are possible")

    class Whole(Sol):
        def initial(self, table, index):
            return self.entry
    kinds = set()
    for name, e in (("unnamed", I(absent or 0)), ("named", T(("entry",), 0, (absent or 2) - 1))):
        ip = Whole(prog, (), (t,))
        ip.entry = e
        for p in ip.paths(MAP + "::get", me + [fr], ip.state(MAP)):
            r.count("paths")
            r.check(p.what == "ret" and p.value is not None and p.value[0] == "a", "map/get", "decides", "a lookup ends with %s %s" % (p.what, pp(p.value)))
            if p.what != "ret" or p.value is None or p.value[0] != "a":
                continue
            inside = p.fact(ip.compare(p.mem, "Lt", ix, length))
            kinds.add((name, inside, p.value[1]))
            if inside is False or name == "unnamed":
                r.check(p.value == NONE, "map/get", "an unnamed variable has no name", pp(p.value))
            else:
                x = p.value[2][0] if p.value[1] == "Some" else None
                r.check(x is not None and num(x) == e, "map/get", "a named variable gives its name", pp(p.value))
        see(prog, r, ip)
    r.check(len(kinds) >= 4, "map/get", "all cases are possible", str(kinds))


def num(n):
    """The index of a variable."""
    return n[2] if n is not None and n[0] == "mk" and n[1] == "vindex" else vindex(n)


def see(prog, r, ip):
    for b in ip.bodies:
        r.saw(prog.bodies[b])


# ------------------------------------------------------------ names as their users see them
class Names(Sol):
    def at_map(self, ptr):
        return self.name_of(ptr)

    def names(self, c, args, mem, gh):
        if c.names and c.names[0] == "core::iter::traits::iterator::Iterator::next" and args:
            d = self.deref(mem, args[0])
            if d is not None and d[0] == "a" and d[1] == "Range" and any(x is not None and x[0] == "t" for x in d[2]):
                key = ("o", ("round", d[2]))        # every round of a loop over names starts in an arbitrary state: one is enough
                if key in mem:
                    return [(NONE, mem, gh)]
                return [(SOME(T(("in",) + d[2], 0, 2 ** 31)), {**m, key: I(1)}, g) if b else (NONE, m, g) for b, m, g in self.branch(self.compare(mem, "Lt", d[2][0], d[2][1]), mem, gh)]
        n = c.names[0] if c.names else ""
        ln = last(n)
        A = lambda i: self.close(mem, args[i])
        if n.startswith(MAP + "::") and ln in ("get", "insert", "remove", "watermark"):
            m = self.name_of(args[0])
            if m is None:
                raise Stuck("a map of names that is not part of the solver at %s" % c.span())
            count = ("o", ("bound", m))
            if ln == "watermark":
                return [(T(("watermark", m, exact(mem.get(count, I(0)))), 0, 2 ** 31), mem, gh)]
            x = A(1) if ln != "insert" else A(2)
            key = ("o", ("named", m, x))
            if ln == "get":
                if key in mem:
                    return [(mem[key], mem, gh)]
                out = []
                for v in (NONE, SOME(("var", ("name", m, x)))):
                    m2 = dict(mem)
                    m2[key] = v
                    out.append((v, m2, emit(gh, ("named", m, x, v))))
                return out
            m2 = dict(mem)
            if ln == "insert":
                m2[key], m2[count] = SOME(A(1)), I(exact(mem.get(count, I(0))) + 1)
                return [(UNIT, m2, emit(gh, ("bind", m, A(1), x, mem.get(key))))]
            m2[key] = NONE
            return [(UNIT, m2, emit(gh, ("unbind", m, x, mem.get(key))))]
        if "hash::set::HashSet" in n or "hash_set" in n or "hash::set::" in n:
            s = self.name_of(args[0]) if args else None
            if ln in ("insert", "remove", "contains") and s is not None:
                return [(B(("set", ln, A(1))), mem, emit(gh, ("free", s, ln, A(1))))]
            if ln == "take" and s is not None:
                return [(x, m, g) for x, m, g in ((SOME(A(1)), mem, emit(gh, ("free", s, "remove", A(1)))), (NONE, mem, emit(gh, ("free", s, "remove", A(1)))))]
            if ln == "iter" and s is not None:
                return [(("setiter", s), mem, gh)]
            if ln == "is_empty" and s is not None:
                return [(v, m, emit(g, ("empty", s)) if b else g) for b, m, g in self.branch(B(("empty", s)), mem, gh) for v in (I(int(b)),)]
            if s is not None:
                raise Stuck("unknown use of a freelist: %s at %s" % (ln, c.span()))
        d = self.deref(mem, args[0]) if args else None
        if d is None and args and args[0] is not None and args[0][0] == "setiter":
            d = args[0]
        if d is not None and d[0] == "setiter":
            if ln == "next":
                return [(SOME(REF(("var", ("free", d[1])))), mem, gh), (NONE, mem, emit(gh, ("empty", d[1])))]
            if ln in ("cloned", "copied", "into_iter", "by_ref"):
                return [(d, mem, gh)]
            raise Stuck("unknown use of a freelist iterator: %s at %s" % (ln, c.span()))
        return None


def named(ip, c, args, mem, gh):
    return ip.names(c, args, mem, gh)


class Where:
    """The maps and freelists, by the accessors that show them."""

    def __init__(self, prog, r=None):
        self.prog = prog
        me = [("p", ("o", VARS), ())]

        def look(fn):
            ip = Names(prog, (), (TABLE,), more=named)
            out = set()
            for p in ip.paths(VARS + "::" + fn, me, ip.state(VARS)):
                v = p.raw
                out.add(ip.name_of(v) if v is not None and v[0] == "p" else tuple(ip.name_of(x) for x in v[2]) if v is not None and v[0] == "a" else None)
            if r is not None:
                see(prog, r, ip)
            if len(out) != 1 or None in out or any(isinstance(x, tuple) and None in x for x in out):
                raise Missing("accessor %s does not give a map (%s)" % (fn, out))
            return out.pop()
        self.map = {k: look(k) for k in ("global_from_user", "user_from_global", "solver_from_global", "global_from_solver")}
        self.mut = {k: look(k + "_mut") for k in self.map}
        self.inverse = {self.map[a]: self.map[b] for a, b in (("global_from_user", "user_from_global"), ("user_from_global", "global_from_user"),
                                                              ("solver_from_global", "global_from_solver"), ("global_from_solver", "solver_from_global"))}
        self.free, self.mark = {}, {}
        for side, m in (("user", "global_from_user"), ("solver", "global_from_solver"), ("global", None)):
            ip = Names(prog, (), (TABLE,), more=named)
            ps = ip.paths(VARS + "::next_unmapped_" + side, me, ip.state(VARS))
            if r is not None:
                see(prog, r, ip)
            sets, other = set(), []
            for p in ps:
                v = p.value
                if p.what == "ret" and isinstance(v, tuple) and v[0] == "var" and isinstance(v[1], tuple) and v[1][0] == "free":
                    sets.add(v[1][1])
                else:
                    other.append((p.what, v))
            mark = T(("len", TABLE), 0, 2 ** 31) if side == "global" else T(("watermark", self.map[m], 0), 0, 2 ** 31)
            self.free[side] = sets.pop() if len(sets) == 1 else None
            self.mark[side] = mark
            if r is not None:
                r.check(self.free[side] is not None, "unused/" + side, "a free name is recycled", "next_unmapped_%s does not recycle names of one freelist" % side)
                r.check(bool(other) and all(w == "ret" and v is not None and canon(num(v)) == canon(mark) for w, v in other), "unused/" + side,
                        "otherwise the first name above all used ones is taken", pp(other))
        if len(set(self.free.values())) != 3:
            raise Missing("three freelists")

    def side(self, m):
        """What the keys of a map are."""
        for k, v in self.map.items():
            if v == m:
                return k.rsplit("_from_", 1)[1]
        raise Missing("map " + m)


def accessors(prog, r):
    w = Where(prog)
    r.check(len(set(w.map.values())) == 4, "maps", "the four lookups use four maps", str(w.map))
    for k, m in w.map.items():
        r.check(w.mut[k] == (m, w.inverse[m]), "maps", "the mutable view of %s changes it and its inverse" % k, "%s_mut gives %s" % (k, w.mut[k]))


def unused(prog, r):
    Where(prog, r)


class Data:
    """Variable data of one variable before and after a path."""

    def __init__(self, ip, p, g):
        self.ip, self.p = ip, p
        fs = [f["name"] for f in ip.prog.adt(DATA)["variants"][0]["fields"]]
        self.old = self.new = None
        ix = num(g)
        for k, v in p.mem.items():
            if k[0] == "o" and isinstance(k[1], tuple) and k[1][:2] in (("cell0", TABLE), ("cell", TABLE)) and canon(k[1][2]) == canon(ix) and v is not None and v[0] == "a":
                d = {f: ip.close(p.mem, x) for f, x in zip(fs, v[2])}
                if k[1][0] == "cell":
                    self.new = d
                else:
                    self.old = d

    def was(self, f):
        return None if self.old is None else exact_of(self.ip, self.p, self.old[f])


def exact_of(ip, p, v):
    v = ip.known(p.mem, v) if v is not None else None
    if v is not None and v[0] == "a":
        return v[1]
    return exact(v) if v is not None else None


def consistent(prog, r, ip, w, p, what):
    """The changes of names on one path fit together.  Returns what happened."""
    es = flat(p.evs)
    done = {"user": [], "unuser": [], "solver": [], "unsolver": [], "deleted": []}
    binds = [e for e in es if e[0] == "bind"]
    for e in binds:
        m, into, frm = e[1:4]
        r.check(any(x[1] == w.inverse[m] and x[2] == frm and x[3] == into for x in binds), what, "both directions of a map change together", "%s is bound to %s in one direction only" % (pp(frm), pp(into)))
    gone = [e for e in es if e[0] == "unbind"]
    both = lambda e, x: x[1] == w.inverse[e[1]] and (e[3] is not None and e[3][1] == "Some" and x[2] == e[3][2][0] or x[3] is not None and x[3][1] == "Some" and e[2] == x[3][2][0])
    for e in gone:
        r.check(any(both(e, x) for x in gone), what, "both directions of a map change together", "the name of %s is removed in one direction only, or is not known to be bound" % pp(e[2]))
    for kind, a in (("user", "global_from_user"), ("solver", "solver_from_global")):
        for e in binds:
            if e[1] == w.map[a]:
                u, g = (e[3], e[2]) if kind == "user" else (e[2], e[3])
                done[kind].append((u, g))
    inv = {"user": "user_from_global", "solver": "solver_from_global"}
    seen = set()
    for e in es:
        if e[0] == "unbind" and e[3] is not None and e[3][1] == "Some":
            side = w.side(e[1])
            other = e[3][2][0]
            kind = "user" if w.map["global_from_user"] in (e[1], w.inverse[e[1]]) else "solver"
            pair = (e[2], other) if side == kind else (other, e[2])
            pair = tuple(x for x in pair)
            if not any(pair == q for q in done["un" + kind]) and ("un" + kind) not in seen:
                done["un" + kind].append(pair)
                seen.add("un" + kind)
    frees = [e for e in es if e[0] == "free" and e[2] in ("insert", "remove")]

    def freed(side, op, n):
        return any(e[1] == w.free[side] and e[2] == op and e[3] == n for e in frees)
    used = []
    for kind in ("user", "solver"):
        for n, g in done[kind]:
            keyed = next((e[4] for e in binds if w.side(e[1]) == kind and e[3] == n), None)
            fresh = n == ("var", ("free", w.free[kind])) or canon(num(n)) == canon(w.mark[kind]) or keyed == NONE
            r.check(fresh, what, "a name is only bound while it is unused", "%s may already be in use" % pp(n))
            r.check(freed(kind, "remove", n) or canon(num(n)) == canon(w.mark[kind]), what, "a bound name is no longer offered for reuse", "%s stays in the freelist while it is in use" % pp(n))
            used += [(kind, n)]
    for kind in ("unuser", "unsolver"):
        for n, g in done[kind]:
            r.check(freed(kind[2:], "insert", n), what, "a name that was given up can be reused", "%s is not put into the freelist" % pp(n))
            used += [(kind, n)]
    return done, frees


def steps_of(p):
    return [e[3] if len(e) > 3 else None for e in flat(p.evs) if e[0] == "call" and e[1] == "add_step"]


def step_is(s, variant, prog, **want):
    if s is None:
        return False
    if s[0] == "p":
        return False
    if s[0] != "a" or s[1] != variant:
        return False
    a = next(v for v in prog.adt("varisat_internal_proof::ProofStep")["variants"] if v["name"] == variant)
    d = {f["name"]: x for f, x in zip(a["fields"], s[2])}
    return d == want


def steps_match(prog, r, ip, p, done, what, extra=()):
    got = [deref_step(ip, p, s) for s in steps_of(p)]
    want = [("UserVarName", dict(zip(("global", "user"), (g, SOME(n))))) for n, g in done["user"]]
    want += [("UserVarName", {"global": g, "user": NONE}) for n, g in done["unuser"]]
    want += [("SolverVarName", {"global": g, "solver": SOME(n)}) for n, g in done["solver"]]
    want += [("SolverVarName", {"global": g, "solver": NONE}) for n, g in done["unsolver"]]
    want += [("DeleteVar", {"var": g}) for g in done["deleted"]]
    for v, kw in want:
        r.check(sum(step_is(s, v, prog, **kw) for s in got) == 1, what, "the change of names is put into the proof", "no %s step for %s; steps are %s" % (v, pp(sorted(kw.items())), pp(got)))
    left = [s for s in got if not any(step_is(s, v, prog, **kw) for v, kw in want) and not (s is not None and s[0] == "a" and s[1] in extra)]
    r.check(not left, what, "no other change of names is put into the proof", pp(left))


def deref_step(ip, p, s):
    if s is not None and s[0] == "p":
        s = ip.deref(p.mem, s)
    return ip.close(p.mem, s) if s is not None else None


PARTS = (VARS, "varisat::state::SolverState")
STEP = "varisat::proof::add_step"


# ------------------------------------------------------------ user names
def user_names(prog, r):
    w = Where(prog)
    u, what = ("var", "user"), "global_from_user"
    fn = prog.fn(V + "global_from_user")
    hits = []

    def again(ip, c, args, mem, gh, ev):
        return [(("var", ("again", ev[2])), mem, emit(gh, ev))]

    class Rec(Names):
        pass

    def more(ip, c, args, mem, gh):
        if c.names and c.names[0] == fn.id and len(gh[0]) > 0:
            return [(("var", ("again",)), mem, emit(gh, ("call", "again") + tuple(ip.close(mem, a) for a in args[1:])))]
        return ip.names(c, args, mem, gh)
    ip = Rec(prog, (STEP,), (TABLE,), more=more)
    ps = ip.paths(fn, [("ctx",), u, B(("require",))], ip.state(*PARTS))
    see(prog, r, ip)
    kinds = set()
    mark, iu = w.mark["user"], num(u)
    for p in ps:
        if p.what != "ret":
            kinds.add("refused")
            r.check(not [e for e in flat(p.evs) if e[0] in ("bind", "unbind", "free")], what, "a refused name changes nothing")
            continue
        r.count("paths")
        done, frees = consistent(prog, r, ip, w, p, what)
        # names in between are bound first, so that none is lost
        gap = p.fact(ip.compare(p.mem, "Gt", iu, mark))
        calls = [e for e in flat(p.evs) if e[0] == "call" and e[1] == "again"]
        if gap is not False:
            loops = [e for e in p.evs if e[0] in ("loop", "brk", "each")]
            r.check(bool(calls) or bool(loops), what, "user names below the new one are bound or free", "a user name above the watermark is bound without binding the ones below it")
            kinds.add("gap")
        b = done["user"]
        if not b:
            n = p.value
            r.check(n == ("var", ("name", w.map["global_from_user"], u)), what, "a bound user name gives its variable", pp(n))
            r.check(not frees and not [s for s in steps_of(p)], what, "looking up a bound name changes nothing")
            kinds.add("known")
            continue
        r.check(len(b) == 1 and b[0][0] == u and p.value == b[0][1], what, "the given user name is bound to the returned variable", pp(b))
        g = b[0][1]
        d = Data(ip, p, g)
        top = T(("len", TABLE), 0, 2 ** 31)
        absent = p.fact(ip.compare(p.mem, "Ge", num(g), top)) is True or canon(num(g)) == canon(top)
        free = g == ("var", ("free", w.free["global"]))
        kinds.add("absent" if absent else "free" if free else "deleted")
        r.check(absent or free or d.was("deleted") == 1, what, "only a deleted or new variable gets a user name here", "%s may be in use" % pp(g))
        r.check(any(e[1] == w.free["global"] and e[2] == "remove" and e[3] == g for e in frees) or absent and canon(num(g)) == canon(top), what, "a variable in use is no longer offered for reuse", "%s stays in the freelist" % pp(g))
        r.check(not [e for e in frees if (e[1], e[3]) not in ((w.free["user"], u), (w.free["global"], g))], what, "no other freelist changes", pp(frees))
        new = d.new
        r.check(new is not None and (exact_of(ip, p, new["deleted"]), exact_of(ip, p, new["sampling_mode"]), exact_of(ip, p, new["assumed"]), exact_of(ip, p, new["unit"]), exact_of(ip, p, new["isolated"])) ==
                (0, "Sample", 0, "None", 1), what, "a new variable starts as an unconstrained sampling variable", pp(new))
        steps_match(prog, r, ip, p, done, what)
        f = p.fields.get("SolverState.formula_is_empty")
        r.check(f is not None and exact(f) == 0, what, "the formula is no longer empty")
    r.check(kinds >= {"gap", "known", "absent", "deleted", "free", "refused"}, what, "all outcomes are possible", str(sorted(kinds)))
    gaps(prog, r, w, fn, u)


def gaps(prog, r, w, fn, u):
    """The loop that binds skipped names covers exactly those."""
    seen = []

    def more(ip, c, args, mem, gh):
        if c.names and c.names[0] == fn.id:
            seen.append((ip.close(mem, args[1]), ip.close(mem, args[2]), ip.known(mem, args[2])))
            return [(("var", ("again",)), mem, emit(gh, ("call", "again") + tuple(ip.close(mem, a) for a in args[1:])))]
        return ip.names(c, args, mem, gh)
    ip = Names(prog, (STEP,), (TABLE,), more=more)
    ip.paths(fn, [("ctx",), u, B(("require",))], ip.state(*PARTS))
    lo, hi = w.mark["user"], num(u)
    good = 0
    for a, b, k in seen:
        t = num(a)
        good += t is not None and (t[1] == ("in", lo, hi) or canon(t) == canon(lo))
        r.check(b is not None and exact(b) == 0, "gap", "skipped names are not constrained", pp(b))
    r.check(bool(seen) and good == len(seen), "gap", "every skipped name between the used ones and the new one is bound", pp(seen[:3]))


# ------------------------------------------------------------ hiding and showing
def unnamed_again(prog, r):
    w = Where(prog)
    what = "set_sampling_mode"
    g = ("var", "g")
    kinds = set()
    modes = [v["name"] for v in prog.adt(V + "data::SamplingMode")["variants"]]
    for mode in modes:
        ip = Names(prog, (STEP,), (TABLE,), more=named)
        ps = ip.paths(V + "set_sampling_mode", [("ctx",), g, ("a", mode, ())], ip.state(*PARTS))
        see(prog, r, ip)
        for p in ps:
            if p.what != "ret":
                r.check(not [e for e in flat(p.evs) if e[0] in ("bind", "unbind", "free")], what, "a refused change changes nothing")
                continue
            d = Data(ip, p, g)
            before = d.was("sampling_mode")
            known = next((e[3] for e in p.evs if e[0] == "named" and e[1:3] == (w.map["user_from_global"], g)), None)
            if known is not None and before is not None and (known == NONE) != (before == "Hide"):
                continue        # exactly the hidden variables have no user name
            r.count("paths")
            r.check(d.was("deleted") == 0, what, "a deleted variable is refused", "the mode of a deleted variable can change")
            done, frees = consistent(prog, r, ip, w, p, what)
            now = exact_of(ip, p, d.new["sampling_mode"]) if d.new else None
            # deletion
            gone = exact_of(ip, p, d.new["deleted"]) == 1
            sets = [e for e in frees if e[1] == w.free["global"]]
            r.check((len(sets) == 1 and sets[0][2:] == ("insert", g)) if gone else not sets, what, "a variable is offered for reuse exactly if it is deleted", pp(sets))
            if gone:
                done["deleted"].append(g)
                deletable(r, ip, p, w, d, g, what)
            if before == mode or before is None:
                r.check(before == mode and not any(done.values()) and p.value == NONE and not steps_of(p), what, "the same mode changes nothing", pp(done))
                kinds.add("same")
                continue
            r.check(now == mode, what, "the mode is set", str(now))
            steps_match(prog, r, ip, p, done, what, extra=("ChangeSamplingMode",))
            changes = [deref_step(ip, p, s) for s in steps_of(p)]
            changes = [s for s in changes if s is not None and s[0] == "a" and s[1] == "ChangeSamplingMode"]
            if mode == "Hide":
                kinds.add("hide deleted" if gone else "hide")
                r.check(not done["user"] and len(done["unuser"]) == 1 and done["unuser"][0][1] == g and p.value == NONE, what, "hiding removes the user name", pp(done))
                r.check(not changes, what, "hiding is not a mode change of the proof")
            else:
                r.check(len(changes) == 1 and changes[0][2] == (g, I(int(mode == "Sample"))), what, "the mode is put into the proof", pp(changes))
                if before == "Hide":
                    kinds.add("show")
                    r.check(not done["unuser"] and len(done["user"]) == 1 and done["user"][0][1] == g and p.value == SOME(done["user"][0][0]), what, "a hidden variable gets an unused user name, which is returned", pp(done))
                else:
                    kinds.add("other")
                    r.check(not any(done.values()) and p.value == NONE, what, "only hiding and showing change names", pp(done))
    r.check(kinds >= {"same", "hide", "hide deleted", "show", "other"}, what, "all outcomes are possible", str(sorted(kinds)))


def deletable(r, ip, p, w, d, g, what):
    for k in ("user_from_global", "solver_from_global"):
        r.check(p.mem.get(("o", ("named", w.map[k], g))) == NONE, what, "only a variable without names is deleted", "a variable is deleted while %s may name it" % k)
    r.check(exact_of(ip, p, d.new["isolated"]) == 1, what, "only an isolated variable is deleted", "a variable is deleted that may occur in clauses")
    r.check(exact_of(ip, p, d.new["sampling_mode"]) == "Hide", what, "only a hidden variable is deleted", "a variable is deleted that may be visible")


# ------------------------------------------------------------ solver names
def solver_names(prog, r):
    w = Where(prog)
    what, g = "solver_from_global", ("var", "g")
    ip = Names(prog, (STEP, "varisat::context::set_var_count", V + "initialize_solver_var"), (TABLE,), more=named)
    ps = ip.paths(V + "solver_from_global", [("ctx",), g], ip.state(*PARTS))
    see(prog, r, ip)
    kinds = set()
    for p in ps:
        if p.what != "ret":
            continue
        r.count("paths")
        done, frees = consistent(prog, r, ip, w, p, what)
        b = done["solver"]
        if not b:
            r.check(p.value == ("var", ("name", w.map["solver_from_global"], g)) and not frees and not p.calls(), what, "a bound variable gives its solver variable", pp(p.value))
            kinds.add("known")
            continue
        kinds.add("new")
        r.check(len(b) == 1 and b[0][1] == g and p.value == b[0][0], what, "the given variable is bound to the returned solver variable", pp(b))
        r.check(p.mem.get(("o", ("named", w.map["solver_from_global"], g))) == SOME(p.value) and any(e[0] == "named" and e[1:] == (w.map["solver_from_global"], g, NONE) for e in p.evs), what, "only an unbound variable gets a solver variable")
        r.check(not done["user"] and not done["unuser"] and not [e for e in frees if e[1] != w.free["solver"] or e[3] != p.value], what, "nothing else changes", pp(frees))
        init = p.calls("initialize_solver_var")
        r.check(len(init) == 1 and init[0][2:] in ((("ctx",), p.value, g), (p.value, g)), what, "the new solver variable is initialised", pp(init))
        steps_match(prog, r, ip, p, done, what)
    r.check(kinds == {"known", "new"}, what, "all outcomes are possible", str(kinds))


def solver_removed(prog, r):
    w = Where(prog)
    what, s = "remove_solver_var", ("var", "s")
    ip = Names(prog, (STEP, "varisat::decision::remove_var"), (TABLE,), more=named)
    ps = ip.paths(V + "remove_solver_var", [("ctx",), s], ip.state(*PARTS))
    see(prog, r, ip)
    kinds = set()
    for p in ps:
        if p.what != "ret":
            continue
        r.count("paths")
        g = ("var", ("name", w.map["global_from_solver"], s))
        d = Data(ip, p, g)
        gone = d.new is not None and exact_of(ip, p, d.new["deleted"]) == 1 and exact_of(ip, p, d.old["deleted"]) != 1
        done, frees = consistent(prog, r, ip, w, p, what)
        r.check(done["unsolver"] == [(s, g)] and not done["user"] and not done["unuser"] and not done["solver"], what, "exactly the given solver variable is unbound", pp(done))
        r.check(len(p.calls("remove_var")) == 1 and p.calls("remove_var")[0][-1] == s, what, "a removed solver variable is no decision candidate")
        sets = [e for e in frees if e[1] == w.free["global"]]
        r.check((len(sets) == 1 and sets[0][2:] == ("insert", g)) if gone else not sets, what, "a variable is offered for reuse exactly if it is deleted", pp(sets))
        r.check(not [e for e in frees if e[1] not in (w.free["global"], w.free["solver"])], what, "no user name changes", pp(frees))
        kinds.add(gone)
        if gone:
            done["deleted"].append(g)
            deletable(r, ip, p, w, d, g, what)
        steps_match(prog, r, ip, p, done, what)
    r.check(kinds == {True, False}, what, "all outcomes are possible", str(kinds))


def initial(prog, r):
    """A new solver variable starts in the state its variable has."""
    what, x, g = "initialize_solver_var", ("var", "s"), ("var", "g")
    A, G = "varisat::prop::assignment::Assignment", "varisat::prop::graph::ImplGraph"
    ip = Names(prog, (A + "::set_var", G + "::update_removed_unit", "varisat::decision::initialize_var"), (TABLE,), more=named)
    ps = ip.paths(V + "initialize_solver_var", [("ctx",), x, g], ip.state(VARS, A, G))
    see(prog, r, ip)
    kinds = set()
    for p in ps:
        r.check(p.what == "ret", what, "returns")
        r.count("paths")
        d = Data(ip, p, g)
        unit = None if d.old is None else d.old["unit"]
        sets, marks, inits = p.calls("set_var"), p.calls("update_removed_unit"), p.calls("initialize_var")
        ok = len(sets) == 1 and sets[0][-2] == x and (sets[0][-1] == unit or sets[0][-1][:2] == ("u", ("opt", ((TABLE, num(g)), "unit"))))
        r.check(ok, what, "the solver variable gets the known value of its variable", pp(sets))
        known = unit is not None and unit[0] == "a" and unit[1] == "Some"
        r.check(unit is not None and unit[0] == "a" or not marks, what, "decides whether a value is known", pp(unit))
        r.check(len(marks) == int(known) and all(m[-1] == x for m in marks), what, "a known value is marked as removed from the formula", pp(marks))
        r.check(len(inits) == 1 and inits[0][-2] == x and exact_of(ip, p, inits[0][-1]) == int(not known), what, "exactly variables without a known value are decision candidates", pp(inits))
        kinds.add(known)
    r.check(kinds == {True, False}, what, "all outcomes are possible", str(kinds))


def translated(prog, r):
    w = Where(prog)
    u, req = ("var", "user"), B(("require",))
    name = lambda m, x: ("var", ("name", w.map[m], x))
    # existing names
    for fn, a, b in (("existing_solver_from_user", "global_from_user", "solver_from_global"), ("existing_user_from_solver", "global_from_solver", "user_from_global")):
        ip = Names(prog, (), (TABLE,), more=named)
        ps = [p for p in ip.paths(VARS + "::" + fn, [("p", ("o", VARS), ()), u], ip.state(VARS)) if p.what == "ret"]
        see(prog, r, ip)
        r.check(len(ps) == 1 and ps[0].value == name(b, name(a, u)), fn, "the name of the name", pp([p.value for p in ps]))
    ip = Names(prog, (), (TABLE,), more=named)
    ps = ip.paths(VARS + "::solver_var_present", [("p", ("o", VARS), ()), u], ip.state(VARS))
    see(prog, r, ip)
    for p in ps:
        known = next((e[3] for e in p.evs if e[0] == "named" and e[1:3] == (w.map["global_from_solver"], u)), None)
        r.check(p.what == "ret" and known is not None and p.value is not None and exact(p.value) == int(known != NONE), "solver_var_present", "tells whether a solver variable is in use", pp(p.value))
    r.floor("solver_var_present", len(ps), 2)

    # new names
    def result(tag):
        def f(ip, c, args, mem, gh, ev):
            return [(("var", (tag, ev[-2] if tag == "G" else ev[-1])), mem, emit(gh, ev))]
        return f
    con = ((V + "global_from_user", result("G")), (V + "solver_from_global", result("S")))
    ip = Names(prog, con, (TABLE,), more=named)
    ps = [p for p in ip.paths(V + "solver_from_user", [("ctx",), u, req], ip.state(*PARTS)) if p.what == "ret"]
    see(prog, r, ip)
    r.check(len(ps) == 1 and ps[0].value == ("var", ("S", ("var", ("G", u)))) and ps[0].calls("global_from_user")[0][-1] == req, "solver_from_user", "the solver variable of the variable of the name", pp([p.value for p in ps]))
    ip = Names(prog, con, (TABLE,), more=named)
    ps = [p for p in ip.paths(V + "new_user_var", [("ctx",)], ip.state(*PARTS)) if p.what == "ret"]
    see(prog, r, ip)
    for p in ps:
        calls = p.calls("global_from_user")
        r.check(len(calls) == 1 and calls[0][-2] == p.value and exact(calls[0][-1]) == 0, "new_user_var", "the returned name is bound", pp(calls))
        r.check(p.value == ("var", ("free", w.free["user"])) or canon(num(p.value)) == canon(w.mark["user"]), "new_user_var", "the returned name was unused", pp(p.value))
    r.floor("new_user_var", len(ps), 2)
    # slices of literals
    ip = Names(prog, ((V + "solver_from_user", result("G")), (V + "global_from_user", None), (V + "solver_from_global", None)), (TABLE,), more=named)
    mem = ip.state(*PARTS)
    mem[("o", "result")] = ("sl", "before")
    ip.types["before"] = ip.types["lits"] = "varisat_formula::lit::Lit"
    ps = [p for p in ip.paths(V + "solver_from_user_lits", [("ctx",), ("p", ("o", "result"), ()), REF(("sl", "lits")), req], mem) if p.what == "ret"]
    see(prog, r, ip)
    from vlib.lits import parts, mk
    v, pol = parts(("e", "lits"))
    want = mk(("var", ("G", v)), pol)
    for p in ps:
        q = ip.close(p.mem, p.mem.get(("o", "result")))
        got = q[2] if q is not None and q[0] == "q" else None
        ok = got is not None and (got == () and not p.calls() or len(got) == 1 and got[0][0] == "each" and got[0][1] == "lits" and set(got[0][2]) <= {(("one", want),)})
        r.check(ok, "solver_from_user_lits", "every literal is translated, keeping its sign", pp(q))
        r.check(all(e[-1] == req for e in p.calls()), "solver_from_user_lits", "the requirement is passed on", pp(p.calls()))
    r.check(bool(ps), "solver_from_user_lits", "returns")


# ------------------------------------------------------------ when solver names are given up
def within(e, x):
    return e == x or isinstance(e, tuple) and any(within(y, x) for y in e)


def value_of(e):
    """The assigned value of a variable, not something looked up by it."""
    return has_fld(e, "Assignment", "assignment") and e[0] != "next" and not within(e, ("S", "Variables"))


def removals(prog):
    """What is known about the removed variable whenever unit_simplify removes one, by interpretation."""
    from rules.c04 import Steps, STATE, TABLES as ASSIGNED
    fields = prog.adt(DATA)["variants"][0]["fields"]
    names, seen = [f["name"] for f in fields], []

    def data(ip, c, args, mem, gh, ev):
        o, m = ("o", ("data", ip.close(mem, args[-1]))), dict(mem)
        if o not in m:
            m[o] = ("a", "VarData", tuple(ip.typed(f["ty"], "%s before" % f["name"]) for f in fields))
        return [(("p", o, ()), m, gh)]

    def removed(ip, c, args, mem, gh, ev):
        v = mem.get(("o", ("data", ip.close(mem, args[-1]))))
        seen.append({} if v is None or v[0] != "a" else {n: exact(ip.known(mem, x)) for n, x in zip(names, v[2]) if n in ("isolated", "assumed")})
        return [(UNIT, mem, gh)]

    class Rounds(Steps):
        def leave(self, mem, depth, name, done):
            return super().leave({k: v for k, v in mem.items() if not (k[0] == "o" and isinstance(k[1], tuple) and k[1][0] == "data")}, depth, name, done)
    ip = Rounds(prog, ("varisat::binary::simplify_binary", "varisat::clause::db::filter_clauses", (V + "remove_solver_var", removed), (VARS + "::var_data_solver_mut", data), VARS + "::solver_var_present"), ASSIGNED)
    try:
        ip.paths("varisat::unit_simplify::unit_simplify", [("ctx",)], ip.state(*STATE))
    except (Stuck, Missing):
        return [], set()
    return seen, ip.bodies


def adds(s):
    """isolated |= (a value is assigned)"""
    v = s.val
    return v[0] == "bin" and v[1] == "BitOr" and any(x == s.dest and y[0] == "call" and y[1].endswith("Option::is_some") and value_of(y) for x, y in (v[2:4], v[3:1:-1]))


def given_up(prog, r):
    """A solver variable loses its name only while no clause and no assumption contains it."""
    from vlib.ir import Graph, Policy
    remove = prog.fn(V + "remove_solver_var")
    anchor = prog.fn("varisat::unit_simplify::unit_simplify").id

    def outermost(i, depth=4):
        cs = {(prog.owner_fn(b) if b.is_closure else b).id for b in (prog.bodies[c] for c in prog.callers().get(i, ()))} - {i}
        return {i} if i == anchor or not cs or not depth else {x for c in cs for x in ({c} if c == anchor else outermost(c, depth - 1))}
    users = outermost(remove.id) - {remove.id}
    r.check(bool(users), "given up", "solver variables are removed")
    pol = Policy(prog, interest=lambda c: bool(re.search(r"HashSet::insert$|proof::add_step$", c.name)), writes=lambda o, f: (last(o), f) == ("VarData", "isolated"))
    flag = lambda f, v, x: lambda at: at[0] == "true" and at[2] is v and at[1][0] == "f" and at[1][3] == f and last(at[1][2]) == "VarData" and within(at[1][1], x)
    done = set()
    seen, interpreted = removals(prog)
    for u in sorted(users):
        g = r.graph(Graph(prog, prog.bodies[u], pol))
        rounds = [g.entry] + [v for a in range(len(g.nodes)) for v, cs in g.succ[a] if any(c[0] == "is" and c[1][0] == "next" and atom_is(c, "Some") == 1 for c in cs)]
        sets = [w for w in writes(g, "VarData", "isolated") if const_val(node_val(g.nodes[w])) == 1]
        done |= {g.nodes[w].span() for w in sets}
        for n in g.nodes:
            if n.kind == "call" and re.search(r"HashSet::insert$", n.call.name) and on_spine(n.args()[0], "Variables", "solver_freelist"):
                r.count("removals")
                x = n.args()[1]
                for f, v, nodes, text in (("isolated", True, [w for w in sets if within(node_dest(g.nodes[w]), x)], "occurs in no clause"), ("assumed", False, (), "is not assumed")):
                    p = avoid_path(g, rounds, [n.id], nodes, flag(f, v, x))
                    if p is not None and u in interpreted and seen and all(d.get(f) == int(v) for d in seen):
                        p = None        # conditions stored in variables are not edges of the graph, but known to the interpretation
                    r.check(p is None, "given up/%s" % f, "a solver variable is removed only if it %s" % text, "a solver variable is removed without knowing that it %s: %s" % (text, " -> ".join(g.describe(p)) if p else ""))
        known = lambda at: at[0] == "is" and atom_is(at, "Some") == 1 and value_of(at[1])
        for w in sets:
            p = avoid_path(g, rounds, [w], (), known)
            r.check(p is None, "isolated", "a variable becomes isolated when a unit clause assigns it", "a variable without a value is marked isolated: %s" % (" -> ".join(g.describe(p)) if p else ""))
    r.floor("removals of solver variables", r.counts.get("removals", 0), 1)
    for s in mut_sites(prog, "VarData", "isolated", ("varisat",)):
        if s.span() not in done:
            b = s.ctx.body
            r.check(s.kind == "write" and s.val is not None and (const_val(s.val) == 0 or adds(s)), "isolated/%s" % b.path, "other writes mark variables as not isolated", "%s changes whether a variable is isolated" % s.span())


def occurring(prog, r):
    """Loading a clause that is stored marks its variables as occurring."""
    from rules.c04 import Steps, STATE, TABLES as ASSIGNED, LITTY
    fields = prog.adt(DATA)["variants"][0]["fields"]
    at = [f["name"] for f in fields].index("isolated")

    def translate(ip, c, args, mem, gh, ev):
        m = dict(mem)
        ip.types["L0"] = LITTY
        dest = next(a for a in args if a is not None and a[0] == "p" and (ip.deref(mem, a) or ("",))[0] in ("sl", "q"))
        ip.write(m, dest[1], dest[2], ("sl", "L0"))
        return [(UNIT, m, gh)]

    def data(ip, c, args, mem, gh, ev):
        x = ip.close(mem, args[-1])
        o, m = ("o", ("data", x)), dict(mem)
        if o not in m:
            m[o] = ("a", "VarData", tuple(ip.typed(f["ty"], ("before", f["name"], x)) for f in fields))
        return [(("p", o, ()), m, emit(gh, ("data", x)))]

    class Marks(Steps):
        left = ()

        def leave(self, mem, depth, name, done):
            for k in [k for k in mem if k[0] == "o" and isinstance(k[1], tuple) and k[1][0] == "data" and within(k[1][1], name)]:
                if exact(self.known(mem, mem[k][2][at])) != 0:
                    self.left += ((pp(k[1][1]), pp(mem[k][2][at])),)
                mem = {a: b for a, b in mem.items() if a != k}
            return super().leave(mem, depth, name, done)
    ip = Marks(prog, ((V + "solver_from_user_lits", translate), "varisat::unit_simplify::resurrect_unit", "varisat::prop::assignment::full_restart", (VARS + "::var_data_solver_mut", data)), ASSIGNED)
    ip.types["user"] = LITTY
    ps = ip.paths("varisat::load::load_clause", [("ctx",), REF(("sl", "user"))], ip.state(*STATE))
    see(prog, r, ip)
    n = set()
    for p in ps:
        if p.what != "ret":
            continue
        evs = flat(p.evs)
        for s in (e for e in evs if e[0] == "store" and e[1] != "enqueue_assignment"):
            names = {e[1] for e in evs if e[0] == "loop" and whole(e[1])}
            if any(p.fact(ip.compare(p.mem, "Lt", ip.length(("sl", x)), I(2))) is True for x in names):
                continue        # the stored literals are some of these, so this path does not exist: the stored length is at least two
            n.add(s[1])
            good = False
            for e in evs:
                if e[0] == "loop" and len(e) > 2 and whole(e[1]):
                    good = good or all(any(y[0] == "data" and within(y[1], e[1]) for y in rnd) for rnd in e[2])
            r.check(good, "occurring", "the variables of a stored clause are marked as occurring in clauses", "%s: %s" % (s[1], pp(evs)[:600]))
    r.check(not ip.left, "occurring", "every variable looked up for a clause is marked as occurring in clauses", "not marked: %s" % (ip.left[:2],))
    r.check(n == {"add_clause", "add_binary_clause"}, "occurring", "clauses are stored", str(sorted(n)))


def whole(n):
    """The name of all literals of the input clause."""
    while isinstance(n, tuple) and n[0] == "after" and n[1] in ("sort_unstable", "sort", "dedup", "sort_unstable_by_key", "sort_by_key", "reverse"):
        n = n[2]
    return n == "L0"


def writers(prog, r):
    roots = {prog.fn(V + f).id for f in ("global_from_user", "set_sampling_mode", "solver_from_global", "remove_solver_var")}
    w = Where(prog)
    n = 0
    for f in sorted({m.split(".")[1] for m in w.map.values()} | {s.split(".")[1] for s in w.free.values()}):
        n += writers_ok(prog, r, "Variables", f, roots, unused=True)      # the module is private: what nothing calls never runs
    r.floor("writes of maps and freelists", n, 5)
