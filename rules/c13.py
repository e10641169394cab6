"""C13 — temporary marks and assignments are always undone."""
from vlib.common import *

EXPLANATION = ("Exploded MIR graphs of glue computation, assumption conflict analysis, conflict analysis and the checker's propagation check. Every mark set in a shared table is paired on all "
               "paths with an entry of a cleanup list, an increment of a mark counter or a clearing loop over the same collection, and every exit lies behind the completed cleanup; "
               "temporary assignments are remembered before they are made and restored in reverse order; nothing else writes the tables; shared buffers are emptied before they are filled.")

NEXT = "core::iter::traits::iterator::Iterator::next"
MUTVEC = re.compile(r"&('\w+ )?mut (alloc::vec::Vec<|\[)")
GROW = ("push", "extend", "extend_from_slice", "insert", "append", "resize")
HARMLESS = ("reserve", "shrink_to_fit", "iter_mut", "deref_mut", "index_mut", "as_mut_slice", "sort", "sort_unstable", "sort_by", "sort_unstable_by", "sort_by_key",
            "sort_unstable_by_key", "sort_by_cached_key", "swap", "reverse", "get_mut", "last_mut", "first_mut", "split_at_mut", "borrow_mut", "as_mut", "into_iter", "get_unchecked_mut", "by_ref")


def nm(n):
    return last(n.call.name)


def strip(e):
    """The literal or variable a key is about (marks are per variable)."""
    while True:
        if e[0] == "call" and len(e) > 2 and (e[1].endswith("ops::bit::Not>::not") or e[1] in ("varisat_formula::lit::Lit::var",) or last(e[1]) in ("clone", "copied", "cloned")):
            e = e[2]
        elif e[0] == "call" and last(e[1]) == "from" and len(e) == 3:
            e = e[2]
        else:
            return e


def canon(e):
    """Canonical table key: per variable keys of literals and variables coincide."""
    e = norm(e)
    while e[0] == "cast":
        e = e[1]
    if e[0] == "call" and e[1] in ("varisat_formula::lit::Lit::index", "varisat_formula::lit::Var::index"):
        return ("V", strip(norm(e[2])))
    if e[0] == "call" and e[1] == "varisat_formula::lit::Lit::code":
        return ("L", norm(e[2]))
    return ("K", norm(e))


PASS = ("rev", "copied", "cloned", "iter", "iter_mut", "into_iter", "drain", "by_ref", "take", "as_slice", "deref", "deref_mut", "borrow", "borrow_mut", "clone", "replace", "chain", "fuse", "peekable")


def element(it):
    """The element of an iteration, named after the collection; mapping closures are evaluated."""
    if it[0] == "call" and len(it) > 2:
        if last(it[1]) == "map" and it[3][0] == "closure" and it[3][1] in PROG[0].bodies:
            b = PROG[0].bodies[it[3][1]]
            if len(b.defs.get(0, [])) == 1 and 0 not in b.partial:
                return norm(Ctx(PROG[0], b, Policy(PROG[0]), args=[it[3], ("elem", it[2])]).local(0))
        elif last(it[1]) in PASS and not PARTIAL_ITER.search(it[1]) and last(it[1]) != "chain":
            return element(it[2])
        return ("elem", tuple(norm(x) if isinstance(x, tuple) else x for x in it))
    return ("elem", (norm(it),))


PROG = [None]


def norm(e):
    """Elements of an iteration are named after the collection."""
    if not isinstance(e, tuple):
        return e
    if e and e[0] == "elem" and len(e) == 2:
        return element(e[1]) if isinstance(e[1][0], str) else e
    return tuple(norm(x) if isinstance(x, tuple) else x for x in e)


def table_key(d, owner, field):
    """('key', canonical key) of a table entry, ('all',) for an element of an iteration over the table."""
    if d[0] == "i" and is_field(d[1], owner, field):
        return ("key", canon(d[2]))
    if d[0] == "call" and last(d[1]) in ("index_mut", "index") and is_field(d[2], owner, field):
        return ("key", canon(d[3]))
    if d[0] == "ok" and d[1][0] == "call" and last(d[1][1]) in ("get_mut", "get") and is_field(d[1][2], owner, field):
        return ("key", canon(d[1][3]))
    if d[0] == "elem" and any(is_field(s, owner, field) for s in iter_sources(d[1])):
        return ("all",)
    return None


def full_range(it):
    """The iterator expression contains no partial range."""
    for x in walk(it):
        if x[0] == "call" and last(x[1]) == "drain" and len(x) > 3:
            a = x[3]
            if not (a[0] == "agg" and (last(a[1]) == "RangeFull" or last(a[1]) == "RangeFrom" and const_val(dict(a[3]).get("start", ("x",))) == 0)):
                return False
    return True


def walk(e):
    if isinstance(e, tuple):
        if e and isinstance(e[0], str):
            yield e
        for x in e:
            if isinstance(x, tuple):
                yield from walk(x)


class Table:
    """Accesses of one shared table in an exploded graph."""

    def __init__(self, g, owner, field, fields=()):
        self.g, self.owner, self.field = g, owner, field
        self.ex = rets(g)
        self.sets, self.clears, self.alls, self.odd = [], [], [], []
        for n in g.nodes:
            if n.kind == "write":
                k = table_key(node_dest(n), owner, field)
                if k is None:
                    if on_spine(node_dest(n), owner, field):
                        self.odd.append(n.id)
                    continue
                (self.alls if k == ("all",) else self.sets).append(n.id)
            elif n.kind == "call" and nm(n) in ("fill",) and is_field(n.args()[0], owner, field):
                self.alls.append(n.id)

    def key(self, w):
        return table_key(node_dest(self.g.nodes[w]), self.owner, self.field)[1]

    def split(self, clean):
        self.clears = [w for w in self.sets if clean(node_val(self.g.nodes[w]))]
        self.sets = [w for w in self.sets if w not in self.clears]


def paired(g, w, partners, ex, before=True, after=True):
    """Every execution of w has its partner (in the same round): None or a path."""
    partners = [p for p in partners if p != w]
    if not partners:
        return [w]
    again = avoid_path(g, [w], [w], partners)
    if again is not None:
        return again
    p = avoid_path(g, [g.entry], [w], partners) if before else [g.entry, w]
    if p is None:
        return None
    q = avoid_path(g, [w], ex, partners) if after else [w]
    return None if q is None else p + q[1:]


def separate(g, pred):
    """Loops over collections; several loops with the same iterator expression are kept apart."""
    out = []
    for l in loops_over(g, pred):
        if l.done_nodes:
            out.append(l)
            continue
        groups = {}
        for h in l.heads:
            groups.setdefault((g.nodes[h].ctx.key, g.nodes[h].bi), []).append(h)
        if len(groups) == 1:
            out.append(l)
            continue
        for hs in groups.values():
            starts, done, seen, work = [], set(), set(hs), list(hs)
            while work:
                u = work.pop()
                for v, cs in g.succ[u]:
                    ks = [atom_is(c, "Some") for c in cs if c[0] == "is" and c[1] == ("next", l.it)]
                    if ks:
                        if 1 in ks:
                            starts.append(v)
                        elif -1 in ks:
                            done.add((u, v))
                    elif v not in seen and v not in l.heads:
                        seen.add(v)
                        work.append(v)
            out.append(Loop(g, l.it, starts, hs, done, set()))
    return out


def iterations(g, pred):
    """Loops over collections, including those popping elements: (loop, element key)."""
    for l in separate(g, pred):
        yield l, ("V", strip(norm(("elem", l.it))))


def pop_loops(g, owner, field):
    """`while let Some(x) = list.pop()`: one loop per pop call."""
    for n in g.nodes:
        if n.kind != "call" or nm(n) not in ("pop", "pop_front", "pop_back") or not is_field(n.args()[0], owner, field):
            continue
        starts, done = [], set()
        expr = None
        for u in range(len(g.nodes)):
            for v, cs in g.succ[u]:
                for c in cs:
                    if c[0] in ("is", "eq") and len(c) > 1 and isinstance(c[1], tuple) and c[1][0] == "call" and last(c[1][1]) == nm(n) and is_field(c[1][2], owner, field):
                        k = atom_is(c, "Some")
                        if k == 1:
                            starts.append(v)
                            expr = c[1]
                        elif k == -1:
                            done.add((u, v))
        if starts and done:
            yield Loop(g, expr, starts, [n.id], done, set()), ("V", strip(norm(("ok", expr))))


class Inside(Policy):
    """Closures of the functions that touch the tables are explored with them."""

    def __init__(self, touch, *a, **k):
        Policy.__init__(self, *a, **k)
        self.touch = touch

    def relevant(self, body):
        return body.is_closure and self.prog.owner_fn(body).id in self.touch or Policy.relevant(self, body)


def policy(prog, tables, stmt_in=(), types=()):
    """Inline everything that can touch the tables."""
    own = {o for o, _ in tables}
    touch, work = set(), []
    for o, f in tables:
        for s in mut_sites(prog, o, f):
            b = prog.owner_fn(s.body) if s.body.is_closure else s.body
            work += [b.id, s.body.id]
    while work:
        i = work.pop()
        if i in touch:
            continue
        touch.add(i)
        work += list(prog.callers().get(i, ()))

    def takes(b):
        for i in range(1, nargs(b) + 1):
            t = b.loc_type(i)
            if re.match(r"&('\w+ )?mut ", t) and any(re.search(x, t) for x in types):
                return True
        return False
    ids = {id(s) for b in stmt_in for blk in b.blocks for s in blk["st"]}

    def stmt(s):
        return id(s) in ids and s["k"] == "=" and not s["d"]["p"] and s["r"]["k"] in ("bin", "use")
    return Inside(touch, prog, writes=lambda o, f: (last(o), f) in tables, force=lambda b: b.id in touch or b.crate in LIBS and takes(b), small=0, stmt=stmt if ids else None)


def assigns(g, n):
    """(place, value) of an assignment node to a local variable."""
    s = n.ctx.body.blocks[n.bi]["st"][n.si]
    return ("phi", n.ctx.body.path, s["d"]["l"]), n.ctx.rvalue(s["r"])


def same_counter(a, c):
    if c[0] == "phi":
        return a[0] == "phi" and a[1][:2] == c[1:3]
    return a == c


class Counter:
    """A counter of set marks: a local variable or a field compared with zero."""

    def __init__(self, g, place):
        self.g, self.place = g, place
        self.up, self.down, self.const = [], [], {}
        self.odd = []
        for n in g.nodes:
            if n.kind == "write" and place[0] == "f":
                d, v = node_dest(n), node_val(n)
            elif n.kind == "stmt" and place[0] == "phi":
                d, v = assigns(g, n)
            else:
                continue
            if d != place:
                continue
            if v[0] == "bin" and v[1] in ("Add", "Sub") and same_counter(v[2], place) and const_val(v[3]) == 1:
                (self.up if v[1] == "Add" else self.down).append(n.id)
            elif const_val(v) is not None and v[0] == "c":
                self.const[n.id] = const_val(v)
            else:
                self.odd.append(n.id)

    def zero(self, at):
        """The edge proves that no counted mark is left."""
        if at[0] == "eq" and at[3] is True:
            for a, b in ((at[1], at[2]), (at[2], at[1])):
                if same_counter(a, self.place) and const_val(b) == 0:
                    return True
        if at[0] == "lt" and at[3] is False and const_val(at[1]) == 0 and same_counter(at[2], self.place):
            return True
        if at[0] == "lt" and at[3] is True and const_val(at[2]) == 1 and same_counter(at[1], self.place):
            return True
        return False


def counters(g):
    """Integer locals and fields the graph counts up and down by one."""
    out = []
    for n in g.nodes:
        if n.kind == "write":
            d, v = node_dest(n), node_val(n)
        elif n.kind == "stmt":
            d, v = assigns(g, n)
        else:
            continue
        if v[0] == "bin" and v[1] == "Sub" and same_counter(v[2], d) and const_val(v[3]) == 1 and d not in out and d[0] in ("phi", "f"):
            out.append(d)
    return [Counter(g, d) for d in out]


def describe(g, p):
    return " -> ".join(g.describe(p)) if p else ""


def marks(prog, r, g, owner, field, lists, where):
    """The obligations of a boolean mark table in one operation."""
    t = Table(g, owner, field)
    t.split(lambda v: const_val(v) == 0)
    ex = t.ex
    name = "%s.%s" % (owner, field)
    for w in t.odd:
        r.fail("write/%s" % where, "unrecognised change of `%s` at %s" % (name, g.nodes[w].span()))
    for w in t.alls:
        n = g.nodes[w]
        v = node_val(n) if n.kind == "write" else n.args()[1]
        r.check(const_val(v) == 0, "all/%s" % where, "the write to all of `%s` at %s clears it" % (name, n.span()), "the write to all marks of `%s` at %s sets them" % (name, n.span()))
    r.floor("marks set in %s" % where, len(t.sets), 1)
    r.floor("marks cleared in %s" % where, len(t.clears) + len(t.alls), 1)

    # clearing loops
    wipe = [l for l, _ in iterations(g, lambda s: is_field(s, owner, field)) if each_elem(g, l, t.alls, ex) is None]
    wipe_nodes = [w for w in t.alls if g.nodes[w].kind == "call"]
    full = []            # (cleaning list, loop)
    cl = {}
    for (o, f) in lists:
        its = [(l, k) for l, k in iterations(g, lambda s, o=o, f=f: is_field(s, o, f))] + list(pop_loops(g, o, f))
        good, partial = [], []
        for l, k in its:
            ev = [w for w in t.clears if t.key(w) == k]
            if not ev or not any(reach(g, l.starts, [w]) for w in ev):
                continue
            p = each_elem(g, l, ev, ex)
            r.check(p is None, "each/%s" % where, "the cleanup loop at %s clears every listed mark" % g.nodes[l.heads[0]].span(),
                    "the cleanup loop at %s can skip a listed mark: %s" % (g.nodes[l.heads[0]].span(), describe(g, p)))
            (good if full_range(l.it) else partial).append(l)
        cl[(o, f)] = (good, partial)
    cs = [c for c in counters(g) if c.up or c.const]
    counted = set()

    pushes = {}
    for (o, f) in lists:
        for n in g.nodes:
            if n.kind == "call" and nm(n) == "push" and is_field(n.args()[0], o, f):
                pushes[n.id] = (o, f)

    for w in t.sets:
        n = g.nodes[w]
        if const_val(node_val(n)) != 1:
            r.fail("value/%s" % where, "a value that may be `true` is stored in `%s` at %s without being tracked" % (name, n.span()))
            continue
        k = t.key(w)
        mine = [i for i in pushes if ("V", strip(norm(g.nodes[i].args()[1]))) == k]
        ups = [u for c in cs for u in c.up + [i for i, v in c.const.items() if v >= 1]]
        p = paired(g, w, mine + ups, ex)
        if p is None:
            counted |= {c.place for c in cs if reach(g, [w], c.up)}
            r.ok("set/%s" % where, "the mark set at %s is listed for cleanup or counted" % n.span())
            continue
        # a later loop over the same collection clears the same key
        fam = [l for l, _ in iterations(g, lambda s: True) if full_range(l.it)]
        sel = []
        for l in fam:
            ev = [x for x in t.clears if t.key(x) == k]
            if ev and any(reach(g, l.starts, [x]) for x in ev) and mentions(k, l) and each_elem(g, l, ev, ex) is None:
                sel.append(l)
        q = completes(g, sel, [w], ex) if sel else [w]
        # the marking loop itself must not run the clearing loop only for a prefix
        r.check(q is None, "set/%s" % where, "the mark set at %s is cleared by a later loop over the same collection" % n.span(),
                "the mark set in `%s` at %s is not undone on every path: %s" % (name, n.span(), describe(g, p)))

    r.rule("marks listed for cleanup are cleared before the operation returns")
    for i, lf in pushes.items():
        good = cl[lf][0]
        p = completes(g, good, [i], ex) if good else [i]
        r.check(p is None, "listed/%s" % where, "marks listed at %s are cleared before every return" % g.nodes[i].span(),
                "marks listed for cleanup at %s survive the operation: %s" % (g.nodes[i].span(), describe(g, p)))
    for lf in lists:
        good, partial = cl[lf]
        for n in g.nodes:
            if n.kind != "call" or not n.args() or not is_field(n.args()[0], *lf) or not MUTVEC.match(n.call.arg_types()[0]):
                continue
            what = nm(n)
            if what in ("push",) or what in HARMLESS or what in ("pop", "pop_back", "pop_front") and any(n.id in l.heads for l in good):
                continue
            if what in ("clear", "take", "replace", "truncate"):
                before = good + (partial if what == "truncate" else [])
                p = None
                for i in pushes:
                    if pushes[i] == lf and what in ("clear", "truncate"):
                        p = p or completes(g, before, [i], [n.id])
                r.check(p is None, "dropped/%s" % where, "the cleanup list is shortened at %s only after clearing" % n.span(), "the cleanup list is shortened at %s without clearing its marks" % n.span())
                continue
            if what == "drain":
                # the drained marks are all cleared before the operation goes on
                its = [l for l in good + partial if any(reach(g, [n.id], [h]) for h in l.heads) and n.call.name and any(x[0] == "call" and x == ("call", n.call.name) + tuple(n.args()) for x in walk(l.it))]
                its = its or [l for l in good + partial if reach(g, [n.id], l.heads)]
                p = completes(g, its, [n.id], ex + [n.id]) if its else [n.id]
                r.check(p is None, "drained/%s" % where, "the marks drained at %s are all cleared" % n.span(), "marks drained from the cleanup list at %s stay set: %s" % (n.span(), describe(g, p)))
                continue
            r.fail("list/%s" % where, "the cleanup list `%s` is changed by `%s` at %s" % (lf[1], what, n.span()))

    r.rule("counted marks are cleared before the operation returns")
    if counted:
        narrow(prog, r, [prog.bodies[i] for i in g.inlined if prog.bodies[i].crate == "varisat"] + [g.nodes[g.entry].ctx.body], "width/%s" % where, "the number of marks wraps around")
    for c in cs:
        if c.place not in counted:
            continue
        zero = [c.zero]
        for w in c.odd:
            r.fail("count/%s" % where, "unrecognised change of the mark counter at %s" % g.nodes[w].span())
        flagged = lambda at: at[0] == "true" and at[2] is True and table_key(at[1], owner, field) is not None
        unset = lambda at: at[0] == "true" and at[2] is False and table_key(at[1], owner, field) is not None
        for w in c.down:
            p = paired(g, w, t.clears, ex)
            r.check(p is None, "down/%s" % where, "the mark counter is decreased at %s together with clearing a mark" % g.nodes[w].span(),
                    "the mark counter is decreased at %s without clearing a mark: %s" % (g.nodes[w].span(), describe(g, p)))
            p = avoid_path(g, [g.entry], [w], (), flagged) or loop_again(g, w, flagged)
            r.check(p is None, "down-set/%s" % where, "the mark counter is decreased at %s only for marks that were set" % g.nodes[w].span(),
                    "the mark counter is decreased at %s for a mark that may not be set: %s" % (g.nodes[w].span(), describe(g, p)))
        for w, v in c.const.items():
            p = g.search(c.up, [w])
            before = [x for x in t.sets if reach(g, [x], [w])]
            loop = any(g.search([x], [x]) is not None for x in before)
            r.check(p is None and len(before) <= max(v, 0) and not loop, "restart/%s" % where, "the mark counter starts at %s before marks are counted" % g.nodes[w].span(),
                    "the mark counter is reset at %s while marks are set" % g.nodes[w].span())
        # loops over the trail that see every counted mark
        seen = []
        for l, k in iterations(g, lambda s: is_field(s, "Trail", "trail")):
            if search_edges(g, l.starts, l.heads, lambda v: v in t.clears, (), unset) is None:
                seen.append(l)
        # the count in the assumption analysis covers literals that are not on the trail
        es, ns = set(), set(wipe_nodes)
        for l in wipe + (seen if c.place[0] == "f" else []):
            es |= l.done_edges
            ns |= l.done_nodes
        for w in c.up + [i for i, v in c.const.items() if v >= 1]:
            p = search_edges(g, [w], ex, lambda v: v in ns, es, c.zero)
            r.check(p is None, "counted/%s" % where, "marks counted at %s are all cleared before every return" % g.nodes[w].span(),
                    "marks counted at %s can survive the operation: %s" % (g.nodes[w].span(), describe(g, p)))
    return t


def loop_again(g, w, edge):
    return avoid_path(g, [w], [w], (), edge)


def mentions(k, l):
    return any(("elem", (norm(x),)) in list(walk(k)) for x in iter_sources(l.it))


def stable(prog, r, g, keys, where):
    """The state a key is computed from does not change while marks are set."""
    fs = {(last(x[2]), x[3]) for k in keys for x in walk(k) if x[0] == "f" and len(x) > 3 and isinstance(x[3], str)}
    for n in g.nodes:
        if n.kind == "write":
            for o, f in fs:
                if on_spine(node_dest(n), o, f):
                    r.fail("stable/%s" % where, "`%s` changes at %s while it names marks" % (f, n.span()))
    r.ok("stable/%s" % where, "the keys of the marks do not change while they are set")


def run(prog, r):
    PROG[0] = prog
    covered = {}

    def explored(owner, field, graphs):
        covered[(owner, field)] = {prog.bodies[i].path for g in graphs for i in g.inlined} | {g.nodes[g.entry].ctx.body.path for g in graphs}

    # ------------------------------------------------------------ mark tables
    r.rule("every mark in the temporary flags is undone on each exit of glue computation")
    cg = prog.fn("varisat::glue::compute_glue")
    g1 = r.graph(Graph(prog, cg, policy(prog, {("TmpFlags", "flags")}, (), (r"\bbool\b", r"TmpFlags"))))
    t1 = marks(prog, r, g1, "TmpFlags", "flags", [], "compute_glue")
    stable(prog, r, g1, [t1.key(w) for w in t1.sets], "compute_glue")

    r.rule("every mark in the temporary flags is undone on each exit of assumption conflict analysis")
    an = prog.fn("varisat::assumptions::analyze_assumption_conflict")
    pol = policy(prog, {("TmpFlags", "flags")}, [an], (r"\bbool\b", r"TmpFlags"))
    g2 = r.graph(Graph(prog, an, pol))
    marks(prog, r, g2, "TmpFlags", "flags", [], "analyze_assumption_conflict")

    r.rule("every mark of conflict analysis is undone on each exit")
    ac = prog.fn("varisat::analyze_conflict::analyze_conflict")
    tc = field_by_type(prog, "varisat::analyze_conflict::AnalyzeConflict", r"Vec<varisat_formula::(lit::)?Var[,>]")
    fl = field_by_type(prog, "varisat::analyze_conflict::AnalyzeConflict", r"Vec<bool[,>]")
    tabs = {("AnalyzeConflict", fl), ("AnalyzeConflict", tc)} | {("AnalyzeConflict", f["name"]) for f in prog.adt("varisat::analyze_conflict::AnalyzeConflict")["variants"][0]["fields"] if f["ty"] == "usize"}
    g3 = r.graph(Graph(prog, ac, policy(prog, tabs, (), (r"\bbool\b", r"AnalyzeConflict"))))
    marks(prog, r, g3, "AnalyzeConflict", fl, [("AnalyzeConflict", tc)], "analyze_conflict")

    explored("TmpFlags", "flags", [g1, g2])
    explored("AnalyzeConflict", fl, [g3])
    explored("AnalyzeConflict", tc, [g3])

    r.rule("nothing else writes the mark tables, and growing them adds clear marks")
    k = 0
    for (o, f), inside in covered.items():
        for s in mut_sites(prog, o, f):
            b = prog.owner_fn(s.body) if s.body.is_closure else s.body
            if s.body.path in inside or b.path in inside:
                continue
            if s.kind == "call" and last(s.call.name) in ("resize", "resize_with"):
                k += 1
                v = Ctx(prog, s.body, Policy(prog)).call_args(s.bi)[2] if s.body else ("x",)
                r.check(last(s.call.name) == "resize" and const_val(v) == 0, "grow/%s" % f, "new entries of `%s` are clear" % f, "new entries of `%s` are not clear at %s" % (f, s.span()))
            elif s.kind == "call" and last(s.call.name) in HARMLESS + ("clear",):
                continue
            else:
                r.fail("who/%s" % f, "`%s` is changed at %s outside of the analysed operations" % (f, s.span()))
    r.floor("resizes of mark tables", k, 2)

    # ------------------------------------------------------------ temporary assignments of the checker
    rup(prog, r)
    buffers(prog, r)


def rup(prog, r):
    r.rule("temporary assignments of the propagation check remember the old value before they are made and are restored in reverse order")
    b = prog.fn("varisat_checker::rup::check_clause_with_hashes")
    T = ("Clauses", field_by_type(prog, "varisat_checker::clauses::Clauses", r"Vec<core::option::Option<varisat_checker::clauses::UnitClause"))
    L = ("RupCheck", field_by_type(prog, "varisat_checker::rup::RupCheck", r"Option<varisat_checker::clauses::UnitClause"))
    g = r.graph(Graph(prog, b, policy(prog, {T, L}, (), (r"UnitClause", r"RupCheck", r"checker::clauses::Clauses$"))))
    ex = rets(g)
    t = Table(g, *T)
    for w in t.odd + t.alls:
        r.fail("rup-write", "unrecognised change of the assignment at %s" % g.nodes[w].span())
    its = [(l, True) for l in separate(g, lambda s: is_field(s, *L))] + [(l, False) for l, _ in pop_loops(g, *L)]
    loops, restores = [], set()
    for l, iterated in its:
        el = ("elem", l.it) if iterated else ("ok", l.it)
        rev = sum(1 for x in walk(l.it) if x[0] == "call" and last(x[1]) == "rev") % 2 == 1 if iterated else True
        ev = []
        for w in t.sets:
            n = g.nodes[w]
            v = node_val(n)
            while v[0] == "call" and last(v[1]) in ("clone", "copied", "cloned"):
                v = v[2]
            if v[0] == "f" and v[1] == el and v[3] == "1" and t.key(w) == ("V", strip(norm(("f", el, v[2], "0")))):
                ev.append(w)
        if not ev:
            continue
        restores |= set(ev)
        p = each_elem(g, l, ev, ex)
        span = g.nodes[l.heads[0]].span()
        r.check(p is None, "restore-each", "every remembered assignment is restored at %s" % span, "the restoring loop at %s can skip an assignment: %s" % (span, describe(g, p)))
        r.check(rev, "restore-order", "assignments are restored in reverse order at %s" % span, "assignments are restored in the order they were made at %s: an assignment made twice keeps a temporary value" % span)
        if full_range(l.it):
            loops.append(l)
        else:
            r.fail("restore-all", "the restoring loop at %s covers only part of the trail" % span)
    r.floor("restoring loops", len(loops), 1)
    pushes = [n.id for n in g.nodes if n.kind == "call" and nm(n) == "push" and is_field(n.args()[0], *L)]
    sets = [w for w in t.sets if w not in restores]
    r.floor("temporary assignments", len(sets), 2)
    r.floor("remembered assignments", len(pushes), 2)
    for w in sets:
        n = g.nodes[w]
        mine = []
        for i in pushes:
            v = g.nodes[i].args()[1]
            if v[0] not in ("tup", "agg"):
                continue
            lit, old = (v[1], v[2]) if v[0] == "tup" and len(v) == 3 else (None, None)
            if lit is None:
                continue
            if ("V", strip(norm(lit))) == t.key(w) and table_key(old, *T) == ("key", t.key(w)):
                mine.append(i)
        p = paired(g, w, mine, ex, after=False)
        r.check(p is None, "remember", "the temporary assignment at %s is remembered with the old value before it is made" % n.span(),
                "the temporary assignment at %s overwrites a value that is not remembered: %s" % (n.span(), describe(g, p)))
    for i in pushes:
        p = completes(g, loops, [i], ex)
        r.check(p is None, "undo", "assignments remembered at %s are restored before every return" % g.nodes[i].span(),
                "temporary assignments remembered at %s survive the check: %s" % (g.nodes[i].span(), describe(g, p)))
    for w in restores:
        q = g.search([w], sets)
        r.check(q is None, "undo-last", "no temporary assignment follows the restoration at %s" % g.nodes[w].span(), "temporary assignments are made after the restoration at %s" % g.nodes[w].span())
    for n in g.nodes:
        if n.kind == "call" and n.args() and is_field(n.args()[0], *L) and MUTVEC.match(n.call.arg_types()[0]):
            if nm(n) in ("push", "drain") + HARMLESS or nm(n) == "pop" and any(n.id in l.heads for l in loops):
                continue
            p = [i for i in pushes if completes(g, loops, [i], [n.id]) is not None] if nm(n) in ("clear", "take", "replace", "truncate") else [n.id]
            r.check(not p, "trail", "the undo trail is emptied at %s after restoring" % n.span(), "the undo trail is changed by `%s` at %s while assignments are to be restored" % (nm(n), n.span()))
    inside = {prog.bodies[i].path for i in g.inlined} | {b.path}
    for s in mut_sites(prog, *L):
        o = prog.owner_fn(s.body) if s.body.is_closure else s.body
        r.check(o.path in inside or s.body.path in inside, "trail-who", "the undo trail change at %s was analysed" % s.span(), "the undo trail is changed at %s outside of the propagation check" % s.span())
    r.rule("temporary reasons are stored by the propagation check only")
    k = 0
    for cx in all_ctx(prog, ("varisat_checker",)):
        for bi, blk in live_blocks(cx.body):
            for si, s in enumerate(blk["st"]):
                if s["k"] != "=":
                    continue
                e = cx.rvalue(s["r"])
                if e[0] == "agg" and last(e[1]) == "UnitId" and e[2] != "Global":
                    k += 1
                    o = prog.owner_fn(cx.body) if cx.body.is_closure else cx.body
                    r.check(o.path in inside or cx.body.derived, "temporary-who", "the temporary reason at %s belongs to the propagation check" % cx.body.span(bi, si),
                            "a temporary reason is made at %s outside of the propagation check" % cx.body.span(bi, si))
    r.floor("temporary reasons", k, 1)


BUFFERS = [("TmpData", "lits"), ("TmpData", "lits_2"), ("TmpData", "tmp"), ("AnalyzeConflict", "clause"), ("AnalyzeConflict", "involved"), ("AnalyzeConflict", "clause_hashes"),
           ("AnalyzeConflict", "unordered_clause_hashes"), ("AnalyzeConflict", "stack"), ("RupCheck", "trace"), ("RupCheck", "trace_edges"), ("RupCheck", "trace_ids"),
           ("Assumptions", "failed_core"), ("Assumptions", "user_failed_core"), ("Assumptions", "failed_propagation_hashes")]
GROWS = ("push", "extend", "extend_from_slice", "append", "insert")


def buffers(prog, r):
    r.rule("shared buffers are emptied by the operation that fills them before the first element is added")
    k = 0
    for o, f in BUFFERS:
        roots = {}
        for s in mut_sites(prog, o, f):
            if s.kind == "call" and (last(s.call.name) in GROWS or any(n.startswith("varisat") for n in s.call.names)):
                b = prog.owner_fn(s.body) if s.body.is_closure else s.body
                if b.crate in LIBS and not b.derived:
                    roots[b.id] = b

        touch, work = set(), [i for i in roots]
        while work:
            i = work.pop()
            if i not in touch:
                touch.add(i)
                work += list(prog.callers().get(i, ()))

        def test(b, o=o, f=f, touch=touch):
            takes = lambda c: c.crate in LIBS and (c.id in touch or c.is_closure and prog.owner_fn(c).id in touch) or c.crate in LIBS and any(re.match(r"&('\w+ )?mut alloc::vec::Vec<", c.loc_type(i)) for i in range(1, nargs(c) + 1))
            g = Graph(prog, b, Policy(prog, small=0, force=takes, max_depth=4))
            grow = [n.id for n in g.nodes if n.kind == "call" and nm(n) in GROWS and n.args() and is_field(n.args()[0], o, f)]
            reset = [n.id for n in g.nodes if n.kind == "call" and n.args() and is_field(n.args()[0], o, f) and (nm(n) in ("clear", "take") or nm(n) == "replace" or
                     nm(n) == "truncate" and const_val(n.args()[1]) == 0 or nm(n) == "drain" and n.args()[1][0] == "agg" and last(n.args()[1][1]) == "RangeFull")]
            reset += [n.id for n in g.nodes if n.kind == "write" and is_field(node_dest(n), o, f)]
            test.n = getattr(test, "n", 0) + len(grow)
            return avoid_path(g, [g.entry], grow, reset) if grow else None
        for b in roots.values():
            p = lifted(prog, b, test)
            k += 1
            r.check(p is None, "buffer/%s.%s" % (o, f), "`%s` is emptied before `%s` fills it" % (f, b.path), "`%s` is filled in `%s` without being emptied first: leftovers of an earlier operation stay in it" % (f, b.path))
    r.floor("operations filling shared buffers", k, 12)


def nargs(b):
    return b.raw["argc"]


def reach(g, starts, targets):
    return bool(set(starts) & set(targets)) or g.search(list(starts), list(targets)) is not None
