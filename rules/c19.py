"""C19 — clause database bookkeeping matches the stored clauses."""
from vlib.common import *
from vlib.absint import Stuck, Interp, norm_bits, to_bits
from vlib.terms import *
from vlib.terms import I, T, B, REF, NONE, SOME, emit, GH0, UNIT
from vlib.solver import Sol, Path, pp, flat, main, vindex, writers_ok
from vlib.lits import parts, neg
from vlib.outputs import events
from vlib.ir import Missing, last
from .c04 import Steps, deep, see, m_fact, V, TABLES, LITTY, active

EXPLANATION = ("Bit-exact abstract interpretation of the clause header's accessors, and term-based abstract interpretation of every operation of the clause database on an arbitrary database, for each tier: "
               "the counts, lists, deletion mark and amount of garbage must change together; every added clause is watched by its first two literals, deletions invalidate the watch lists, and these are "
               "rebuilt from the clauses that are not deleted before the next propagation.  The fields are only written by the interpreted operations.")
DB, WL, CREF = V + "clause::db::ClauseDb", V + "prop::watch::Watchlists", V + "clause::alloc::ClauseRef"
HEADER = V + "clause::header::ClauseHeader"
TIERS = ("Irred", "Core", "Mid", "Local")
C = ("cref", "c")


def run(prog, r):
    widths(prog, r, "varisat::clause", "varisat::binary")
    r.rule("header fields do not overlap; adding, moving, deleting, filtering, reducing and collecting clauses keep counts, lists, garbage size and watch lists in step")
    for part in (header, added, moved, deleted, filtered, reduced, collected, watched, rebuilt, first, elsewhere):
        try:
            part(prog, r)
        except Stuck as e:
            r.fail("undecided", "%s: %s" % (part.__name__, e))
        except Missing as e:
            r.fail("anchor", str(e))


# ------------------------------------------------------------------- the header
WIDTHS = {"len": 32, "deleted": 1, "tier": 2, "mark": 1, "active": 1, "activity": 32, "glue": 6}


def words(prog):
    """Number of words of a clause header."""
    n = prog.adt(HEADER)["variants"][0]["fields"][0]["ty"].split("; ")[1][:-1]
    if n.isdigit():
        return int(n)
    b = [b for b in prog.bodies.values() if last(b.id) == n and b.id.startswith(V + "clause::header")]
    vs = [exact(v) for b in b for k, v, o, g in Interp(prog, lambda *a: None).run(b, [], {}, ()) if k == "ret"]
    if len(vs) != 1 or vs[0] is None:
        raise Missing("the size of the clause header")
    return vs[0]


def header(prog, r):
    from vlib.absint import transmute
    n = words(prog)
    h0 = ("a", "ClauseHeader", (("a", "array", tuple(("b", tuple("w%d.%d" % (w, i) for i in range(32))) for w in range(n))),))
    H = ("o", "header")
    discr = {v["name"]: int(v["discr"]) for v in prog.adt(V + "clause::db::Tier")["variants"]}
    r.check(discr == {t: i for i, t in enumerate(TIERS)}, "header", "tiers are numbered from 0", str(discr))

    class Bits(Interp):
        def tier(self, v):
            x = exact(v)
            return ("a", TIERS[x], ()) if x is not None and x < 4 else None

        def rvalue(self, mem, d, e):
            if e["k"] == "cast" and e["c"].startswith("Transmute") and e["t"].endswith("::Tier"):
                return self.tier(self.operand(mem, d, e["a"]))
            return Interp.rvalue(self, mem, d, e)

        def builtin(self, m, c, args):
            n = c.names[0] if c.names else ""
            ln = last(n)
            if ln == "transmute":
                if c.ret_ty.endswith("::Tier"):
                    return True, self.tier(args[0])
                return True, transmute(args[0], c.arg_types()[0], c.ret_ty) if args[0] else None
            if ln == "default" and c.ret_ty.startswith("[u32; "):
                return True, ("a", "array", (I(0),) * int(c.ret_ty[6:-1]))
            if ln in ("to_bits", "from_bits") and "f32" in n:
                return True, args[0]
            if ln == "min" and len(args) == 2:
                a, b = (to_bits(x, 64) for x in args)
                if a is not None and b is not None:
                    for x, y in ((a, b), (b, a)):
                        w = sum(1 for t in y if t == 1)
                        if all(t == 1 for t in y[:w]) and not any(y[w:]) and not any(t != 0 for t in x[w:]):
                            return True, norm_bits(list(x))
                        if w and all(t == 1 for t in y[:w]) and not any(y[w:]):
                            return True, ("b", (None,) * w + (0,) * (64 - w))
            return Interp.builtin(self, m, c, args)

    def go(name, args, mem):
        b = prog.fn(HEADER + "::" + name)
        ip = Bits(prog, lambda *a: None)
        outs = list(ip.run(b, args, mem, ()))
        for i in ip.bodies:
            r.saw(prog.bodies[i])
        rets = [(v, dict(o)) for k, v, o, g in outs if k == "ret"]
        return rets[0] if len(rets) == 1 else (None, {})
    me = ("p", H, ())

    def get(f, mem):
        v = go(f, [me], mem)[0]
        return v
    k = 0
    ok = lambda b, text, detail="": r.check(b, "header", text, detail)
    for f, w in WIDTHS.items():
        values = [("a", t, ()) for t in TIERS] if f == "tier" else [("b", tuple("v%d" % i for i in range(w)) + (0,) * (64 - w) if f in ("len", "glue") else tuple("v%d" % i for i in range(w)))]
        if w == 1:
            values = [I(0), I(1)]
        if f == "glue":
            values.append(("b", tuple("v%d" % i for i in range(64))))
        for v in values:
            _, mem = go("set_" + f, [me, v], {H: h0})
            ok(mem.get(H) is not None, "set_%s is bit-exact" % f)
            if mem.get(H) is None:
                continue
            k += 1
            got = get(f, mem)
            if f == "tier":
                ok(got == v, "the value of %s that was set is read back" % f, "%s instead of %s" % (pp(got), pp(v)))
            else:
                a, b = to_bits(got, 64), to_bits(v, 64)
                ok(v == values[-1] and f == "glue" or got is not None and (got == v or a is not None and b is not None and a[:w] == b[:w] and not any(a[w:]) and not any(b[w:])), "the value of %s that was set is read back" % f, "%s instead of %s" % (pp(got), pp(v)))
            for g in WIDTHS:
                if g == f:
                    continue
                for x in [("a", t, ()) for t in TIERS] if g == "tier" else (I(0), I(1)) if WIDTHS[g] == 1 else (None,):
                    m1 = {H: h0} if x is None else go("set_" + g, [me, x], {H: h0})[1]
                    m2 = go("set_" + f, [me, v], m1)[1]
                    was, now = get(g, m1), get(g, m2)
                    ok(was is not None and now == was, "setting %s leaves %s alone" % (f, g), "%s instead of %s" % (pp(now), pp(was)))
    for t in TIERS:
        m1 = go("set_tier", [me, ("a", t, ())], {H: h0})[1]
        ok(get("redundant", m1) == I(int(t != "Irred")), "all clauses but the irredundant ones are redundant", t)
    zero = go("new", [], {})[0]
    if zero is None:
        zero = ("a", "ClauseHeader", (("a", "array", (I(0),) * n),))
    mem = {H: zero}
    ok(get("deleted", mem) == I(0) and get("mark", mem) == I(0) and get("tier", mem) == ("a", "Irred", ()), "a new header is that of an irredundant clause that is neither marked nor deleted")
    r.floor("header values", k, 10)


# ------------------------------------------------------------------ the database
def fixed(t):
    def tier(ip, c, args, mem, gh, ev):
        return [(("a", t, ()), mem, gh)]
    return (HEADER + "::tier", tier)


def database(ip, *adts, **over):
    for i in range(4):
        ip.types[("by_tier", i)] = CREF
    return ip.state(DB, WL, *adts, **{"ClauseDb.by_tier": ("a", "array", tuple(("sl", ("by_tier", i)) for i in range(4))),
                                      "ClauseDb.count_by_tier": ("a", "array", tuple(T(("count", i), 1, 2 ** 40) for i in range(4))),
                                      "ClauseDb.garbage_size": T("garbage", 0, 2 ** 40), **over})


def change(ip, mem):
    """[count changes], [new elements of by_tier], garbage change of a database."""
    cs, ls, g = ip.field(mem, DB, "count_by_tier"), ip.field(mem, DB, "by_tier"), ip.field(mem, DB, "garbage_size")
    counts = [delta(x, ("count", i)) for i, x in enumerate(cs[2])] if cs is not None and cs[0] == "a" else [None] * 4
    return counts, [pushed(x, ("by_tier", i)) for i, x in enumerate(ls[2])] if ls is not None and ls[0] == "a" else [None] * 4, delta(g, "garbage")


def delta(v, name):
    """What was added to the number called name."""
    if v is None:
        return None
    if v[0] == "t":
        if v[1] == name:
            return 0
        ts, k = addends(v)
        if ts.count(name) == 1:
            ts.remove(name)
            return (tuple(sorted(ts, key=repr)), k) if ts else k
    return ("=", v)


def addends(v):
    """([terms], constant) that a number is the sum of."""
    if isinstance(v, int):
        return [], v
    if isinstance(v, tuple) and v[0] == "i" and exact(v) is not None:
        return [], exact(v)
    t = v[1] if isinstance(v, tuple) and v[0] == "t" else v
    if isinstance(t, tuple) and len(t) == 3 and t[0] in ("+", "Add"):
        (a, i), (b, j) = addends(t[1]), addends(t[2])
        return a + b, i + j
    return [t], 0


def pushed(v, name):
    """Elements appended to the list called name."""
    if v == ("sl", name):
        return ()
    if v is None or v[0] != "q" or not v[2] or v[2][0][0] != "each" or forward(v[2][0][1]) != name:
        return None
    first = v[2][0]
    if len(first[2]) != 1 or not all(p[0] == "one" for p in v[2][1:]):
        return None
    x = [p for p in next(iter(first[2]))] if not isinstance(first[2], dict) else []
    if len(x) != 1 or x[0][0] != "one" or not mentions(x[0][1], ("e", first[1])) and not mentions(x[0][1], name):
        return None
    return tuple(p[1] for p in v[2][1:])


def plus(i, k):
    return [k if j == i else 0 for j in range(4)]


def appended(i, *xs):
    return [tuple(xs) if j == i else () for j in range(4)]


def size_of(c, n):
    """The literals and the header of a clause, as a term."""
    return lambda d: d == ((("header", c, "len"),), n)


def allocated(ip, c, args, mem, gh, ev):
    x = tuple(deep(ip, mem, a) for a in args)
    return [(("cref", ("new",) + x[1:]), mem, emit(gh, ("new",) + x))]


def watch(ip, c, args, mem, gh, ev):
    return [(UNIT, mem, emit(gh, ("watch",) + tuple(deep(ip, mem, a) for a in args[1:])))]


ADD = (V + "clause::alloc::ClauseAlloc::add_clause", allocated)
WATCH = (V + "prop::watch::Watchlists::watch_clause", watch)


def added(prog, r):
    ok = lambda b, text, detail="": r.check(b, "add", text, detail)
    for i, t in enumerate(TIERS):
        ip = Steps(prog, (fixed(t), ADD, WATCH))
        ip.types["lits"] = LITTY
        mem = database(ip)
        ps = ip.paths(V + "clause::db::add_clause", [("ctx",), ("clause", "header"), REF(("sl", "lits"))], mem)
        see(prog, r, ip, ps)
        n = 0
        for p in ps:
            if p.what != "ret":
                continue
            n += 1
            news = [e for e in flat(p.evs) if e[0] == "new"]
            new = p.value
            ok(len(news) == 1 and news[0][2:] == (("clause", "header"), ("sl", "lits")) and new == ("cref", ("new",) + news[0][2:]), "the clause is stored with its header", pp(p.evs)[:300])
            counts, lists, garbage = change(ip, p.mem)
            ok(counts == plus(i, 1), "adding a clause counts it in its tier", "%s: %s" % (t, counts))
            ok(lists == appended(i, new), "an added clause is in the list of its tier", "%s: %s" % (t, pp(lists)))
            ok(garbage == 0, "an added clause is no garbage")
            cs = [e for e in flat(p.evs) if e[0] == "vec" and e[1] == "ClauseDb.clauses"]
            ok([e[2:] for e in cs] == [("push", new)], "an added clause is in the list of all clauses", pp(cs))
            ws = [e for e in flat(p.evs) if e[0] == "watch"]
            pair = pairs_of(ip, ws[0][2]) if len(ws) == 1 else None
            ok(len(ws) == 1 and ws[0][1] == new and pair == [ip.at(("sl", "lits"), 0), ip.at(("sl", "lits"), 1)], "an added clause is watched by its first two literals", pp(ws))
        ok(n, "a clause can be added")


def pairs_of(ip, v):
    return list(v[2]) if v is not None and v[0] == "a" and len(v[2]) == 2 else None


def moved(prog, r):
    ok = lambda b, text, detail="": r.check(b, "tier", text, detail)
    n = 0
    for i, t in enumerate(TIERS):
        for j, u in enumerate(TIERS):
            ip = Steps(prog, (fixed(t),))
            mem = database(ip)
            ps = ip.paths(V + "clause::db::set_clause_tier", [("ctx",), C, ("a", u, ())], mem)
            see(prog, r, ip, ps)
            for p in ps:
                if p.what != "ret":
                    continue
                n += 1
                sets = [e[1:] for e in flat(p.evs) if e[0] == "header"]
                counts, lists, garbage = change(ip, p.mem)
                if i == j:
                    ok(counts == [0] * 4, "a clause that stays in its tier is not counted again", "%s: %s" % (t, counts))
                    ok(all(x in ((), (C,)) for x in lists), "a clause that stays in its tier stays in its list", pp(lists))
                else:
                    ok(counts == [1 if k == j else -1 if k == i else 0 for k in range(4)], "a moved clause is counted in the new tier instead of the old one", "%s to %s: %s" % (t, u, counts))
                    ok(lists == appended(j, C), "a moved clause is in the list of the new tier", "%s to %s: %s" % (t, u, pp(lists)))
                    ok(("set_tier", C, ("a", u, ())) in sets, "the header tells the new tier", pp(sets))
                ok(all(e[0] == "set_tier" and e[1] == C and e[2] == ("a", u, ()) for e in sets) and garbage == 0, "nothing else changes", "%s %s" % (pp(sets), pp(garbage)))
                ok(not [e for e in flat(p.evs) if e[0] == "vec"] and "Watchlists.enabled" not in p.fields, "nothing else changes", pp(p.evs)[:300])
    r.floor("tier changes", n, 16)


def gone(ip, mem, evs, c, i, ok):
    """One clause of tier i became garbage."""
    sets = [e[1:] for e in evs if e[0] == "header"]
    counts, lists, garbage = change(ip, mem)
    ok(sets.count(("set_deleted", c, I(1))) == 1 and not any(s[0] in ("set_tier", "set_len") or s[0] == "set_deleted" and s[2] != I(1) for s in sets), "a deleted clause is marked as deleted", pp(sets))
    ok(counts == plus(i, -1), "a deleted clause is no longer counted", "%s: %s" % (TIERS[i], counts))
    ok(size_of(c, words(ip.prog))(garbage), "a deleted clause counts as garbage with its header", "%s: %s" % (TIERS[i], pp(garbage)))
    return lists


def deleted(prog, r):
    ok = lambda b, text, detail="": r.check(b, "delete", text, detail)
    for i, t in enumerate(TIERS):
        ip = Steps(prog, (fixed(t),))
        mem = database(ip)
        ps = ip.paths(V + "clause::db::delete_clause", [("ctx",), C], mem)
        see(prog, r, ip, ps)
        n = 0
        for p in ps:
            if p.what != "ret":
                continue
            n += 1
            lists = gone(ip, p.mem, list(flat(p.evs)), C, i, ok)
            ok(all(x == () for x in lists), "nothing is added by a deletion", pp(lists))
            ok(p.fields.get("Watchlists.enabled") == I(0), "the watch lists are invalid after a deletion", pp(p.fields.get("Watchlists.enabled")))
        ok(n, "a clause can be deleted")


def filtered(prog, r):
    ok = lambda b, text, detail="": r.check(b, "filter", text, detail)
    for i, t in enumerate(TIERS):
        ip = Steps(prog, (fixed(t),), single=True)
        mem = database(ip)
        ps = ip.paths(V + "clause::db::filter_clauses", [("ctx",), None], mem)
        see(prog, r, ip, ps)
        got = set()
        for e, m, evs in ip.rounds:
            evs = list(flat(evs))
            was = m_fact(ip, m, B(("header", e, "deleted")))
            sets = [x for x in evs if x[0] == "header"]
            if ("kept", e) in evs:
                ok(was is False and not sets and change(ip, m) == ([0] * 4, [()] * 4, 0), "a kept clause is unchanged and was not deleted", pp(evs)[:300])
                got.add("kept")
            elif was:
                ok(not sets and change(ip, m) == ([0] * 4, [()] * 4, 0), "a clause deleted before is not counted again", pp(evs)[:300])
                got.add("before")
            else:
                got.add("deleted")
                ok(was is False, "only clauses that are not deleted yet are counted as deleted", pp(evs)[:300])
                gone(ip, m, evs, e, i, ok)
        for p in ps:
            if p.what == "ret":
                ok(p.fields.get("Watchlists.enabled") == I(0), "the watch lists are invalid after filtering", pp(p.fields.get("Watchlists.enabled")))
                ok(p.fields.get("ClauseDb.clauses") in (("sl", ("retained", "ClauseDb.clauses")), ("sl", ("kept", "ClauseDb.clauses"))), "the clauses kept remain in the database", pp(p.fields.get("ClauseDb.clauses")))
        ok(got == {"kept", "before", "deleted"}, "clauses are kept or deleted", str(sorted(got)))


def reduced(prog, r):
    """Reduction of the local and mid tiers: stale list entries go, marks are cleared, counts match the lists."""
    ok = lambda b, text, detail="": r.check(b, "reduce", text, detail)

    def attempt(ip, c, args, mem, gh, ev):
        x = B(("removable", deep(ip, mem, args[-1])))
        return [(I(int(b)), m, emit(g, ("attempt", deep(ip, mem, args[-1]), b))) for b, m, g in ip.branch(x, mem, gh)]

    def to_tier(ip, c, args, mem, gh, ev):
        return [(UNIT, mem, emit(gh, ("move",) + tuple(deep(ip, mem, a) for a in args[-2:])))]

    def own_tier(ip, c, args, mem, gh, ev):
        d = ip.deref(mem, args[0])
        return [(("u", ("enum", ("tier of", d[1])), tuple((t, ()) for t in TIERS), V + "clause::db::Tier"), mem, gh)]
    for fn, t, cons in (("reduce_locals", "Local", ((V + "clause::db::try_delete_clause", attempt), (V + "proof::Proof::is_active", active))),
                        ("reduce_mids", "Mid", ((V + "clause::db::set_clause_tier", to_tier),))):
        i = TIERS.index(t)
        ip = Steps(prog, cons + ((HEADER + "::tier", own_tier),), single=True)
        mem = database(ip)
        ps = ip.paths(V + "clause::reduce::" + fn, [("ctx",)], mem)
        see(prog, r, ip, ps)
        got = set()
        name = ("by_tier", i)
        for e, m, evs in ip.rounds:
            evs = list(flat(evs))
            sets = [x[1:] for x in evs if x[0] == "header"]
            kept = ("kept", e) in evs
            if not mentions(e, ("e", name)):
                # the second pass over the entries
                away = [x for x in evs if x[0] == "move"]
                ok(("set_mark", e, I(0)) in sets, "the marks of listed clauses are cleared", pp(evs)[:300])
                ok(bool(away) == (not kept) and all(x[1:] == (e, ("a", "Local", ())) for x in away) and len(away) <= 1, "a clause leaves the list exactly if it is moved to another tier", pp(evs)[:300])
                on = m_fact(ip, m, B(("header", e, "active")))
                ok(on is kept, "clauses that were not used since are moved", pp(evs)[:300])
                ok(not kept or ("set_active", e, I(0)) in sets, "clauses start the next round unused", pp(evs)[:300])
                got.add("stays" if kept else "moves")
                continue
            same = [x[2] for x in evs if x[0] == "is" and x[1] == ("enum", ("tier of", e))]
            was, mark = (m_fact(ip, m, B(("header", e, f))) for f in ("deleted", "mark"))
            mine = same == [t] if same else None
            if kept:
                ok(was is False and mark is False and mine is True, "listed clauses are in the tier, not deleted and listed once", pp(evs)[:300])
                ok(sets == [("set_mark", e, I(1))], "they are marked while the list is processed", pp(sets))
                got.add("kept")
            else:
                ok((was or mark or mine is False) and not sets, "only stale entries are dropped", pp(evs)[:300])
                got.add("stale")
        for p in ps:
            if p.what != "ret":
                continue
            evs = list(flat(p.evs))
            counts, lists = ip.field(p.mem, DB, "count_by_tier"), ip.field(p.mem, DB, "by_tier")
            l = lists[2][i] if lists is not None and lists[0] == "a" else None
            n = counts[2][i] if counts is not None and counts[0] == "a" else None
            ok(l is not None and n is not None and (n == ip.known(p.mem, ip.length(l)) or n[0] == "t" and n[1] == ip.length(l)[1]), "the count of the tier is the length of its list", "%s for %s" % (pp(n), pp(l)))
            ok(l is not None and l[0] == "sl" and base(l[1]) == name, "the list of the tier is what remains of it", pp(l))
            for k in range(4):
                if k != i and counts is not None and lists is not None:
                    ok(counts[2][k] == T(("count", k), 1, 2 ** 40) and lists[2][k] == ("sl", ("by_tier", k)), "other tiers are left alone", TIERS[k])
            tried = [e for e in evs if e[0] == "attempt"]
            removed = [e[1] for e in evs if e[0] == "scan remove"]
            ok(removed == [e[1] for e in tried if e[2]], "exactly the deleted clauses leave the list", pp(evs)[:300])
            unmarked = {e[2] for e in evs if e[0] == "header" and e[1] == "set_mark" and e[3] == I(0)}
            ok({e[1] for e in tried} | {e[2] for e in evs if e[0] == "header" and e[1] == "set_mark"} <= unmarked, "the marks of listed clauses are cleared", pp(evs)[:300])
            if fn == "reduce_locals":
                turns = [e[0] for e in evs if e[0] in ("round", "end round")]
                after = [e for e in p.evs if e[0] == "loop" and base(forward(e[1])) == name and all(any(x[0] == "header" and x[1] == "set_mark" and x[3] == I(0) for x in flat(it)) for it in e[2])]
                ok(turns and turns[-1] == "end round" or after, "all entries of the list are processed", pp(evs)[:300])
                n = turns.count("round")
                ok(sum(e[0] == "header" and e[1] == "set_mark" and e[3] == I(0) for e in evs) >= n, "the marks of all entries are cleared", pp(evs)[:300])
                got |= {"round"} if n else set()
                got |= {("removed", bool(removed))}
        want = {"kept", "stale"} | ({"stays", "moves"} if fn == "reduce_mids" else {("removed", True), ("removed", False), "round"})
        ok(want <= got, "all outcomes are possible in %s" % fn, str(sorted(got, key=str)))


def base(n):
    while isinstance(n, tuple) and n and n[0] in ("retained", "kept"):
        n = n[1]
    return n


FRESH, OLD = ("a", "ClauseAlloc", (("sl", "new storage"),)), ("a", "ClauseAlloc", (("sl", "old storage"),))


def fresh(ip, c, args, mem, gh, ev):
    return [(FRESH, mem, gh)]


def empty_lists(ip, c, args, mem, gh):
    if c.ret_ty.startswith("[alloc::vec::Vec<") and not args:
        return [(("a", "array", (("q", 0, ()),) * 4), mem, gh)]
    return None


def collections(prog, t):
    """Paths of a garbage collection of a database whose clauses are in tier t."""
    A = V + "clause::alloc::ClauseAlloc::"
    ip = Steps(prog, (fixed(t), ADD, (A + "with_capacity", fresh), (A + "new", fresh), V + "prop::graph::ImplGraph::update_reason"), TABLES, more=empty_lists)
    mem = database(ip, V + "prop::graph::ImplGraph", V + "prop::assignment::Trail")
    mem[("o", V + "clause::alloc::ClauseAlloc")] = OLD
    return ip, ip.paths(V + "clause::gc::collect_garbage", [("ctx",)], mem)


def copies(p):
    """The iterations over all clauses of a collection, or None if nothing was collected."""
    ls = [e for e in p.evs if e[0] in ("loop", "brk") and forward(e[1]) == "ClauseDb.clauses"]
    return ls[0][2] if len(ls) == 1 and ls[0][0] == "loop" else None


def collected(prog, r):
    ok = lambda b, text, detail="": r.check(b, "collect", text, detail)
    clauses = "ClauseDb.clauses"
    for i, t in enumerate(TIERS):
        ip, ps = collections(prog, t)
        see(prog, r, ip, ps)
        got = set()
        for p in ps:
            if p.what != "ret":
                continue
            its = copies(p)
            if its is None:
                ok(not p.fields and p.mem.get(("o", V + "clause::alloc::ClauseAlloc")) == OLD, "without a collection nothing changes", pp(p.evs)[:300])
                got.add("none")
                continue
            got.add("collected")
            ok(p.mem.get(("o", V + "clause::alloc::ClauseAlloc")) == FRESH, "the new storage replaces the old one", pp(p.mem.get(("o", V + "clause::alloc::ClauseAlloc"))))
            ok(ip.field(p.mem, DB, "garbage_size") == I(0), "nothing is garbage after a collection", pp(ip.field(p.mem, DB, "garbage_size")))
            ok(p.fields.get("Watchlists.enabled") == I(0), "the watch lists are invalid after a collection", pp(p.fields.get("Watchlists.enabled")))
            ok("ClauseDb.count_by_tier" not in p.fields, "a collection changes no counts")
            want = set()
            for it in its:
                evs = list(flat(it))
                news = [e for e in evs if e[0] == "new"]
                e = [x[1][1] for x in evs if x[0] == "is" and isinstance(x[1], tuple) and x[1][0] == "header" and x[1][2] == "deleted"]
                was = [x[2] for x in evs if x[0] == "is" and isinstance(x[1], tuple) and x[1][0] == "header" and x[1][2] == "deleted"]
                ok(len(was) == 1 and bool(was[0]) == (not news) and len(news) <= 1, "exactly the clauses that are not deleted are copied", pp(evs)[:300])
                if news:
                    n = news[0]
                    ok(n[1] == FRESH and n[2] == ("clause", e[0]) and n[3] == ("sl", ("lits", e[0])), "a clause is copied with its header and literals", pp(n))
                    want.add((("one", ("cref", ("new",) + n[2:])),))
                    k = evs.index(n)
                    ok(any(x[0] == "header" and x[1] == "set_mark" and x[2] == e[0] and x[3] == I(0) for x in evs[:k]) or any(x[0] == "is" and x[1] == ("header", e[0], "mark") and not x[2] for x in evs), "the copy is not marked", pp(evs)[:300])
                else:
                    want.add(())
            ok(set(want) == content(ip.field(p.mem, DB, "clauses"), clauses, want), "the copies are the clauses of the database", pp(ip.field(p.mem, DB, "clauses")))
            ls = ip.field(p.mem, DB, "by_tier")
            for k in range(4):
                l = ls[2][k] if ls is not None and ls[0] == "a" else None
                ok(l == ("q", 0, ()) if k != i else content(l, clauses, want) == want, "a copy is in the list of its tier", "%s: %s" % (TIERS[k], pp(l)))
        ok(got == {"none", "collected"}, "collections may happen", str(sorted(got)))


def content(v, name, want):
    """What each element of the list called name contributes to a collection."""
    if v == ("q", 0, ()):
        return set() if not want else {()}
    if v is None or v[0] != "q" or len(v[2]) != 1 or v[2][0][0] != "each" or forward(v[2][0][1]) != name:
        return None
    return set(tuple(x) for x in v[2][0][2])


# --------------------------------------------------------------------- watches
def watched(prog, r):
    ok = lambda b, text, detail="": r.check(b, "watch", text, detail)
    t = "Watchlists.watches"
    ip = Steps(prog, (), (t,))
    mem = ip.state(WL)
    ps = ip.paths(V + "prop::watch::Watchlists::watch_clause", [("p", ("o", WL), ()), C, ("a", "array", (("lt", "l0"), ("lt", "l1")))], mem)
    see(prog, r, ip, ps)
    got = set()
    for p in ps:
        if p.what != "ret":
            continue
        on = p.fact(B("Watchlists.enabled"))
        if on is False:
            ok(not p.cells, "invalid watch lists are left alone", pp(p.evs)[:300])
            got.add("off")
            continue
        got.add("on")
        seen = set()
        for (table, ix), (old, new) in p.cells.items():
            add = new[2][1:] if new is not None and new[0] == "q" else ()
            ok(len(add) == 1 and add[0][0] == "one", "one watch is added to each of the two lists", pp(new))
            w = add[0][1] if len(add) == 1 else None
            fs = dict(zip([f["name"] for f in prog.adt(V + "prop::watch::Watch")["variants"][0]["fields"]], w[2])) if w is not None and w[0] == "a" else {}
            for me, other in (("l0", "l1"), ("l1", "l0")):
                if of_code(ix) is not None and parts(of_code(ix)) == parts(neg(("lt", me))):
                    seen.add(me)
                    ok(fs.get("cref") == C and fs.get("blocking") == ("lt", other), "the watch refers to the clause and blocks on the other literal", pp(fs))
        ok(seen == {"l0", "l1"} and len(p.cells) == 2, "a clause is found when one of its watched literals becomes false", pp(sorted(p.cells, key=repr)))
    ok(got == {"on", "off"}, "watches are added unless the lists are invalid", str(sorted(got)))


def of_code(ix):
    """Literal whose index this is."""
    return ix[1][1] if ix is not None and ix[0] == "t" and isinstance(ix[1], tuple) and ix[1][0] == "code" else None


def watch_on(ip, c, args, mem, gh, ev):
    on = ip.field(mem, WL, "enabled")
    return [(UNIT, mem, emit(gh, ("watch",) + tuple(deep(ip, mem, a) for a in args[1:]) + (on,)))]


def emptied(ip, c, args, mem, gh):
    if args and last(c.names[0] if c.names else "") == "clear" and "::Watch>" in c.arg_types()[0]:
        return [(UNIT, mem, emit(gh, ("emptied",)))]
    return None


def rebuilt(prog, r):
    ok = lambda b, text, detail="": r.check(b, "rebuild", text, detail)
    t = "Watchlists.watches"
    ip = Steps(prog, ((WATCH[0], watch_on),), (), more=emptied)
    mem = database(ip)
    ps = ip.paths(V + "prop::watch::enable_watchlists", [("ctx",)], mem)
    see(prog, r, ip, ps)
    got = set()
    for p in ps:
        if p.what != "ret":
            continue
        if p.fact(B("Watchlists.enabled")) is True:
            ok(not p.fields, "valid watch lists are left alone", pp(p.evs)[:300])
            got.add("valid")
            continue
        top = p.evs
        ok(p.fields.get("Watchlists.enabled") == I(1), "the watch lists are valid after they are rebuilt", pp(p.fields.get("Watchlists.enabled")))
        lists = [(k, e) for k, e in enumerate(top) if e[0] == "loop" and strip(e[1]) == t]
        db = [(k, e) for k, e in enumerate(top) if e[0] == "loop" and strip(e[1]) == "ClauseDb.clauses"]
        ok(len(lists) == 1 and all(("emptied",) in flat(it) for it in lists[0][1][2]), "all watch lists are emptied before", pp(p.evs)[:300])
        ok(len(db) == 1 and bool(lists) and lists[0][0] < db[0][0], "all clauses are watched again", pp(p.evs)[:300])
        ok(not any(e[0] == "brk" for e in top), "no clause is left out", pp(p.evs)[:300])
        for it in db[0][1][2] if db else ():
            evs = list(flat(it))
            was = [e for e in evs if e[0] == "is" and isinstance(e[1], tuple) and e[1][0] == "header" and e[1][2] == "deleted"]
            ws = [e for e in evs if e[0] == "watch"]
            ok(len(was) == 1 and mentions(was[0][1][1], ("e", db[0][1][1])), "deleted clauses are told apart", pp(evs)[:300])
            c = was[0][1][1] if was else None
            ok(len(ws) == (0 if was and was[0][2] else 1), "exactly the clauses that are not deleted are watched", pp(evs)[:300])
            for w in ws:
                ok(w[1] == c and pairs_of(ip, w[2]) == [ip.at(("sl", ("lits", c)), 0), ip.at(("sl", ("lits", c)), 1)], "a clause is watched by its first two literals", pp(w))
                ok(w[3] == I(1), "watches are added to valid lists only", pp(w[3]))
            got.add("watched" if ws else "deleted")
    ok(got == {"valid", "watched", "deleted"}, "all outcomes are possible", str(sorted(got)))


def strip(n):
    n = forward(n)
    return strip(n[1]) if isinstance(n, tuple) and n and n[0] == "rev" else n


def first(prog, r):
    """Long clauses are only propagated with valid watch lists."""
    ok = lambda b, text, detail="": r.check(b, "propagate", text, detail)
    P, E = V + "prop::long::propagate_long", V + "prop::watch::enable_watchlists"

    def once(gh, name):
        return gh if any(e == ("call", name) for e in flat(events(gh))) else emit(gh, ("call", name))

    def called(values):
        def f(ip, c, args, mem, gh, ev):
            return [(v, mem, once(gh, ev[1])) for v in values(ip, c)]
        return f
    either = called(lambda ip, c: (("a", "Ok", (UNIT,)), ("a", "Err", (("opaque", "conflict"),))))
    ip = Steps(prog, ((E, called(lambda ip, c: (UNIT,))), (P, either), (V + "prop::binary::propagate_binary", either),
                      (V + "prop::assignment::Trail::pop_queue", called(lambda ip, c: (NONE, SOME(("lt", "next")))))), TABLES)
    mem = ip.state(WL)
    ps = ip.paths(V + "prop::propagate", [("ctx",)], mem)
    see(prog, r, ip, ps)
    n = 0
    for p in ps:
        calls = [e[1] for e in flat(p.evs) if e[0] == "call"]
        if "propagate_long" in calls:
            n += 1
            ok("enable_watchlists" in calls[:calls.index("propagate_long")], "the watch lists are valid before clauses are propagated", pp(p.evs)[:300])
    ok(n, "clauses are propagated")
    b = prog.fn(P)
    for c in sorted(prog.callers().get(b.id, ())):
        c = prog.bodies[c]
        ok((prog.owner_fn(c) if c.is_closure else c).id == prog.fn(V + "prop::propagate").id, "clauses are only propagated where the lists are valid", c.id)


def elsewhere(prog, r):
    """Only the interpreted operations write the database, the watch lists and the deletion marks."""
    roots = {prog.fn(V + x).id for x in ("clause::db::add_clause", "clause::db::set_clause_tier", "clause::db::delete_clause", "clause::db::filter_clauses", "clause::reduce::reduce_locals",
                                         "clause::reduce::reduce_mids", "clause::gc::collect_garbage")}
    n = 0
    others = forgetful(prog, r, roots)
    for f in ("clauses", "by_tier", "count_by_tier", "garbage_size"):
        n += writers_ok(prog, r, "ClauseDb", f, roots | (others if f == "clauses" else set()))
    w = {prog.fn(V + x).id for x in ("prop::watch::Watchlists::watch_clause", "prop::watch::enable_watchlists", "prop::long::propagate_long", "context::set_var_count")}
    n += writers_ok(prog, r, "Watchlists", "watches", w)
    n += writers_ok(prog, r, "Watchlists", "enabled", {prog.fn(V + "prop::watch::enable_watchlists").id, prog.fn(V + "prop::watch::Watchlists::disable").id})
    r.floor("writes of the clause database and watch lists", n, 15)
    for f, extra in (("set_deleted", ()), ("set_len", (V + "clause::alloc::ClauseAlloc::add_clause",))):
        b = prog.fn(HEADER + "::" + f)
        r.saw(b)
        ok_ids = roots | {prog.fn(x).id for x in extra} | ({prog.fn(V + "unit_simplify::unit_simplify").id} if f == "set_len" else set())
        for c in sorted(prog.callers().get(b.id, ())):
            c = prog.bodies[c]
            c = prog.owner_fn(c) if c.is_closure else c
            r.check(covered(prog, c, ok_ids, set()), "elsewhere", "%s is only called by the interpreted operations" % f, c.id)


def covered(prog, b, roots, seen):
    b = prog.owner_fn(b) if b.is_closure else b
    if b.id in roots:
        return True
    if b.id in seen:
        return False
    cs = {prog.owner_fn(c) if c.is_closure else c for c in (prog.bodies[i] for i in prog.callers().get(b.id, ()))} - {b}
    return bool(cs) and all(covered(prog, c, roots, seen | {b.id}) for c in cs)


def forgetful(prog, r, roots):
    """Functions that remove entries of deleted clauses from the list of all clauses, and nothing else."""
    from vlib.common import mut_sites
    ok = lambda b, text, detail="": r.check(b, "forget", text, detail)
    found = set()
    for s in mut_sites(prog, "ClauseDb", "clauses"):
        b = s.ctx.body
        b = prog.owner_fn(b) if b.is_closure else b
        if b.id in found or covered(prog, b, roots, set()) or b.argc != 1:
            continue
        ip = Steps(prog, (), TABLES, single=True)
        mem = database(ip)
        ps = ip.paths(b, [("ctx",)], mem)
        see(prog, r, ip, ps)
        for p in ps:
            ok(p.what != "ret" or set(p.fields) <= {"ClauseDb.clauses"} and p.fields.get("ClauseDb.clauses") in (None, ("sl", ("retained", "ClauseDb.clauses"))), "%s only drops entries" % b.id, pp(p.fields))
        for e, m, evs in ip.rounds:
            evs = list(flat(evs))
            was = m_fact(ip, m, B(("header", e, "deleted")))
            ok(was is True if ("dropped", e) in evs else was is False, "only entries of deleted clauses are dropped", pp(evs)[:300])
            ok(change(ip, m) == ([0] * 4, [()] * 4, 0) and not any(x[0] == "header" and x[1] != "set_activity" for x in evs), "nothing else changes", pp(evs)[:300])
        if ip.rounds:
            found.add(b.id)
    return found
