"""C14 — unsafe code cannot be reached with out-of-bounds or mistyped data."""
from vlib.common import *
from vlib.ir import Missing, last, Call, base_type, strip_generics, Ctx, split_top
from .c19 import covered

EXPLANATION = ("Inventory of every unsafe operation in the compiler's MIR (raw pointer accesses, calls of unsafe functions, reinterpreting casts) with one obligation each: casts only between types whose layouts are "
               "identical through transparent wrappers, or to types without invalid values; each raw access within the bounds of the collection its pointer comes from, implied by comparisons that lie on every path "
               "to it in the inlined control flow graph, with no change of the collection or of the operands in between; pointers that move in a loop only move by single steps and stay in front of their limit. "
               "Operations of any other kind are reported.")
V = "varisat::"
CLAUSE = V + "clause::Clause"
ADD = re.compile(r"^core::ptr::(const_ptr|mut_ptr)::.*::(add|offset)$")
PTR = re.compile(r"::as_(mut_)?ptr$")
RAW = ("core::slice::raw::from_raw_parts", "core::slice::raw::from_raw_parts_mut")
CRATES = ("varisat", "varisat_checker", "varisat_formula", "varisat_dimacs", "varisat_internal_proof", "varisat_lrat", "varisat_cli")


def run(prog, r):
    r.rule("every unsafe operation is covered by a layout or bounds obligation that holds on every path to it")
    for part in (layouts, accesses, invariants):
        try:
            part(prog, r)
        except Missing as e:
            r.fail("anchor", str(e))


# ---------------------------------------------------------------- layouts
def layout(prog, ty, depth=8):
    """A type with its transparent wrappers removed; arrays of integers keep their length."""
    ty = re.sub(r"'\\w+ ?", "", ty.strip())
    m = re.match(r"^\[(.*)\]$", ty)
    if m:
        parts = m.group(1).rsplit("; ", 1)
        inner = layout(prog, parts[0], depth - 1)
        return "[%s]" % inner if len(parts) == 1 else "[%s; %s]" % (inner, parts[1])
    a = prog.adts.get(base_type(ty))
    if a is not None and depth and a["kind"] == "struct" and a.get("transparent"):
        fs = [f for f in a["variants"][0]["fields"] if not f["ty"].startswith("core::marker::PhantomData")]
        if len(fs) == 1:
            return layout(prog, fs[0]["ty"], depth - 1)
    return ty


INT = re.compile(r"^([ui](8|16|32|64|128|size))$")


def plain(ty):
    """Every bit pattern is a value."""
    m = re.match(r"^\[(.*); [^;]*\]$", ty)
    return plain(m.group(1)) if m else INT.match(ty) is not None


def pointee(ty):
    m = re.match(r"^(&(?:'\w+ )?(?:mut )?|\*const |\*mut )(.*)$", ty)
    return (("mut" in m.group(1)), m.group(2)) if m else None


def same_layout(prog, a, b):
    """May memory of type a be used as b?  (number of elements of a in a b, or None)"""
    x, y = layout(prog, a), layout(prog, b)
    if x == y:
        return True
    m = re.match(r"^\[(.*); ([^;]*)\]$", y)
    return bool(m) and m.group(1) == x and plain(x)


def fieldless(prog, ty):
    a = prog.adts.get(base_type(ty))
    if a is None or a["kind"] != "enum" or any(v["fields"] for v in a["variants"]):
        return None
    return sorted(int(v["discr"]) for v in a["variants"])


def bodies(prog):
    for b in prog.local_fns():
        if b.crate in CRATES and not b.derived and not TESTGEN.search(b.path):
            yield b


def casts(prog, b):
    for bi, bl in live_blocks(b):
        for si, s in enumerate(bl["st"]):
            if s["k"] == "=" and s["r"]["k"] == "cast" and s["r"]["c"] in ("Transmute", "PtrToPtr", "PointerWithExposedProvenance"):
                a = s["r"]["a"]
                yield bi, si, s["r"]["c"], (a["p"]["t"] if a["k"] in ("copy", "move") else a["t"]), s["r"]["t"]


def generated(prog, b):
    """Code generated by the derive macro of partial_ref."""
    return re.match(r"^partial_ref::(IntoPartialRef(Mut)?|HasPart)\b", b.trait or "") is not None or "into_partial_ref" == b.name


def layouts(prog, r):
    ok = lambda b, text, detail="": r.check(b, "layout", text, detail)
    n = 0
    for b in bodies(prog):
        for bi, si, kind, src, dst in casts(prog, b):
            where = "%s at %s: %s -> %s" % (b.path, b.span(bi, si), src, dst)
            p, q = pointee(src), pointee(dst)
            n += 1
            r.saw(b)
            if p and q:
                if p[1] == q[1] or p[1].split("<")[0] == q[1].split("<")[0] and generated(prog, b):
                    ok(p[0] or not q[0] or generated(prog, b) or b.loc_type(1).startswith("&mut"), "shared data is not made mutable", where)
                    continue
                ok(same_layout(prog, p[1], q[1]), "the types of a reinterpreted reference have the same layout", where)
                ok(p[0] or not q[0] or not dst.startswith("&") and b.argc and b.loc_type(1).startswith("&mut"), "shared data is not made mutable", where)
            elif kind == "Transmute" and fieldless(prog, dst) is not None:
                pass    # bounds obligation, below
            elif kind == "Transmute" and plain(dst):
                ok(plain(src) or src == "core::option::Option<bool>" or fieldless(prog, src) is not None, "reinterpreted values have no padding", where)
            else:
                ok(False, "a reinterpreting cast is between types of the same layout", where)
    r.floor("reinterpreting casts", n, 10)
    for a, d in prog.adts.items():
        if d.get("crate") in CRATES:
            for v in d["variants"]:
                for f in v["fields"]:
                    ok(not re.search(r"\*(const|mut) ", f["ty"]), "no raw pointer is stored", "%s.%s" % (a, f["name"]))


# ---------------------------------------------------------------- bounds
def strip(e):
    while e[0] == "cast":
        e = e[1]
    return e


def lin(e, sign=1, out=None):
    """Linear form {atom: coefficient}, constants under None."""
    out = {} if out is None else out
    if e[0] == "c":
        try:
            out[None] = out.get(None, 0) + sign * int(e[1])
            return out
        except ValueError:
            pass
    if e[0] == "cast" and e[2] in ("usize", "u64", "isize", "u128"):
        return lin(e[1], sign, out)
    if e[0] == "bin" and e[1] in ("Add", "AddUnchecked"):
        lin(e[2], sign, out)
        return lin(e[3], sign, out)
    if e[0] == "bin" and e[1] == "Sub" and header_len(e[2]):
        k = const_val(e[3])
        if k is not None and 0 <= k <= 3:
            lin(e[2], sign, out)
            out[None] = out.get(None, 0) - sign * k
            return out
    out[e] = out.get(e, 0) + sign
    return out


def header_len(e):
    """The length of a stored clause, which includes its header."""
    return e[0] == "call" and last(e[1]) == "len" and len(e) > 2 and clause_data(e[2])


def clause_data(e):
    return e[0] == "f" and strip_generics(e[2]) == CLAUSE


def nonneg(f):
    return all(c >= 0 for c in f.values())


def minus(a, b):
    out = dict(a)
    for k, c in b.items():
        out[k] = out.get(k, 0) - c
    return {k: c for k, c in out.items() if c or k is None}


def pointer(e):
    """(base, offset form): base is a collection expression or a moving pointer."""
    off = {}
    while True:
        e = strip(e)
        if e[0] == "call" and ADD.match(e[1]):
            lin(e[3], 1, off)
            e = e[2]
            continue
        break
    if e[0] == "call" and PTR.search(e[1]):
        return ("of", e[2]), off
    if e[0] == "phi":
        return e, off
    return None, off


def phis(e):
    if isinstance(e, tuple):
        if e and e[0] == "phi":
            yield e
        else:
            for x in e:
                yield from phis(x)


class Root:
    """The obligations of one function, with everything it calls inlined."""

    def __init__(self, prog, r, body, quiet=False):
        self.prog, self.r, self.body, self.bad, self.n = prog, r, body, [], 0
        self.seen = set()
        pol = Policy(prog, force=lambda x: x.crate == body.crate and (x.raw.get("unsafe") or unsafe_inside(prog, x) or x.n_blocks() <= 12 or x.is_closure))
        self.g = Graph(prog, body, pol)
        self.defs = {}
        for n in self.g.nodes:
            if n.kind == "blk":
                for s in n.ctx.body.blocks[n.bi]["st"]:
                    if s["k"] == "=" and not s["d"]["p"]:
                        self.defs.setdefault((n.ctx.body.path, s["d"]["l"]), []).append((n, s))
            elif n.kind == "call":
                d = n.ctx.body.blocks[n.bi]["t"]["d"]
                if not d["p"]:
                    self.defs.setdefault((n.ctx.body.path, d["l"]), []).append((n, None))
        self.work()

    def fail(self, text, where):
        self.bad.append((text, where))

    # -- facts on edges
    def implied(self, need, coll):
        """Edge predicate: need <= len(coll)"""
        def test(at):
            if at[0] == "lt":
                hi, lo, add = (at[2], at[1], 1) if at[3] else (at[1], at[2], 0)
                if hi[0] == "call" and last(hi[1]) == "len" and hi[2] == coll:
                    low = lin(lo)
                    low[None] = low.get(None, 0) + add
                    d = minus(low, need)
                    return nonneg(d)
            return False
        return test

    def redefined(self, e):
        out = []
        for p in set(phis(e)):
            for n, s in self.defs.get((p[1][0], p[1][1]), ()):
                out.append(n.id)
        return out

    def mutators(self, coll, text="changed"):
        """Calls that may change the length of the collection or move it."""
        out = []
        for n in self.g.nodes:
            if n.kind != "call":
                continue
            ln = last(n.call.name)
            if ln in ("len", "as_ptr", "as_mut_ptr", "index", "index_mut", "deref", "deref_mut", "iter", "iter_mut", "get", "get_mut", "as_slice", "as_mut_slice", "borrow", "is_empty", "from_raw_parts", "from_raw_parts_mut"):
                continue
            for i, a in enumerate(n.args()):
                ty = n.call.arg_types()[i] if i < len(n.call.arg_types()) else ""
                if same_coll(a, coll) and ("&mut" in ty or not ty.startswith("&")):
                    out.append((n, a))
        return out

    def holds(self, at, need, coll, what):
        """On every path to the node the bound was tested, and nothing changed since."""
        self.n += 1
        where = "%s at %s: %s" % (self.body.path, at.span(), what)
        starts = [self.g.entry] + [n.id for n, a in self.mutators(coll) if not self.distinct(n, a, coll)] + [x for k in need if k is not None for x in self.redefined(k)]
        trivially = nonneg(minus({("call", "len", coll): 1}, {(("call", "len", k[2]) if k is not None and k[0] == "call" and last(k[1]) == "len" else k): c for k, c in need.items()}))
        if trivially:
            starts = [x for x in starts if x != self.g.entry and x not in [y for k in need if k is not None for y in self.redefined(k)]]
            starts = [x for x in starts if x != at.id]
        if clause_data(coll):
            d = minus({None: 3}, need)
            if nonneg(d):
                return
        starts = [x for x in starts if x != at.id]
        if not starts:
            return
        p = avoid_path(self.g, starts, [at.id], self.remade(coll) if trivially else (), self.implied(need, coll))
        if p is not None:
            self.fail("an unchecked access lies within the bounds of its collection", where)

    def remade(self, coll):
        return [n.id for n in self.g.nodes if n.kind == "call" and PTR.search(n.call.name) and n.args() and n.args()[0] == coll]

    def distinct(self, node, arg, coll):
        """The changed collection is another element of the same table: their indices were compared."""
        if not (arg[0] == "i" and coll[0] == "i" and arg[1] == coll[1] and arg[2] != coll[2]):
            return False

        def key(e):
            e = strip(e)
            return strip(e[2]) if e[0] == "call" and last(e[1]) in ("code", "index") and len(e) > 2 else e
        x, y = key(arg[2]), key(coll[2])
        ne = lambda at: at[0] == "eq" and not at[3] and {strip(at[1]), strip(at[2])} == {x, y}
        return avoid_path(self.g, [self.g.entry] + self.redefined(x), [node.id], (), ne) is None

    # -- obligations
    def access(self, node, e, ty, what):
        """A raw access of the pointer expression e with elements of type ty."""
        base, off = pointer(e)
        if base is None:
            return self.fail("the source of an accessed pointer is known", "%s at %s: %s %s" % (self.body.path, node.span(), what, str(e)[:200]))
        size = self.count(ty)
        need = dict(off)
        need[None] = need.get(None, 0) + size
        if base[0] == "of":
            return self.holds(node, need, base[1], what)
        self.moving(node, base, off, size, what)

    def count(self, ty):
        """Elements (of the underlying collection) a value of this type covers."""
        m = re.match(r"^\[.*; ([^;]*)\]$", layout(self.prog, ty))
        if not m:
            return 1
        return int(m.group(1)) if m.group(1).isdigit() else 3

    def moves(self, p):
        """(initial values, steps) of a moving pointer; None if it changes in another way"""
        init, steps = [], []
        ds = self.defs.get((p[1][0], p[1][1]), ())
        for n, s in ds:
            e = strip(n.ctx.rvalue(s["r"]) if s is not None else n.ctx._callexpr(n.bi) if hasattr(n.ctx, "_callexpr") else n.ctx.callexpr(n.bi))
            base, off = pointer(e)
            if base == p and off == {None: 1}:
                steps.append(n)
            elif base == p and not any(off.values()):
                continue
            elif base is not None and base != p:
                init.append((n, base, off))
            else:
                return None
        return init, steps

    def limit(self, p):
        """Edge predicates p != end, with the end they compare to."""
        ends = set()
        for n in self.g.nodes:
            for v, cs in self.g.succ[n.id]:
                for at in cs:
                    if at[0] == "eq" and not at[3] and p in (strip(at[1]), strip(at[2])):
                        ends.add(strip(at[2]) if strip(at[1]) == p else strip(at[1]))
        return ends

    def moving(self, node, p, off, size, what):
        self.n += 1
        where = "%s at %s: %s" % (self.body.path, node.span(), what)
        mv = self.moves(p)
        if mv is None or any(off.values()) or size != 1 or not mv[0]:
            return self.fail("a pointer that moves in a loop moves by single steps", where)
        init, steps = mv
        if any(b[0] == "phi" for n, b, o in init):
            leads = {b for n, b, o in init}
            if len(leads) != 1 or any(any(o.values()) for n, b, o in init):
                return self.fail("a pointer that moves in a loop has one start", where)
            lead = leads.pop()
            m2 = self.moves(lead)
            if m2 is None:
                return self.fail("a pointer that moves in a loop moves by single steps", where)
            return self.behind(node, p, steps, lead, m2, where, init)
        ends = self.limit(p)
        if len(ends) == 0 or len(init) != 1:
            # a pointer that follows another one
            for q in {x for n in self.g.nodes for v, cs in self.g.succ[n.id] for at in cs for x in phis(at)}:
                mq = self.moves(q) if q != p else None
                if mq and [(b, o) for n, b, o in mq[0]] == [(b, o) for n, b, o in init] and self.limit(q):
                    return self.behind(node, p, steps, q, mq, where, init)
            return self.fail("a pointer that moves in a loop is compared with its limit", where)
        self.ahead(node, p, mv, where)

    def ahead(self, node, p, mv, where):
        """The pointer was found different from its limit since it last moved, and the limit is in bounds."""
        init, steps = mv
        n0, base, off = init[0]
        good = []
        for end in self.limit(p):
            b2, off2 = pointer(end)
            if b2 == base and b2[0] == "of":
                good.append((end, off2))
        if not good:
            return self.fail("the limit of a moving pointer belongs to the same collection", where)
        ne = lambda at: at[0] == "eq" and not at[3] and p in (strip(at[1]), strip(at[2])) and any(strip(at[2]) == e or strip(at[1]) == e for e, o in good)
        starts = [self.g.entry, n0.id] + [s.id for s in steps if s.id != node.id]
        if avoid_path(self.g, starts, [node.id], (), ne) is not None:
            self.fail("a moving pointer is compared with its limit before each access", where)
        for end, o2 in good:
            self.holds(node, o2, base[1], where + " (limit)")
            d = minus(o2, off)
            d2 = {k: c for k, c in d.items() if k is not None}
            if not (nonneg(d) or nonneg(d2) and d2 and d.get(None, 0) >= -2 and any("clause" in str(k).lower() or "header" in str(k).lower() for k in d2)):
                self.fail("a moving pointer starts before its limit", where)

    def behind(self, node, p, steps, lead, mq, where, init):
        """p stays behind lead: the smallest distance between them over all paths."""
        delta = {}
        for x in steps:
            delta[x.id] = delta.get(x.id, 0) - 1
        for x in mq[1]:
            delta[x.id] = delta.get(x.id, 0) + 1
        ls = [x.id for x in mq[1]]
        dist = {self.g.entry: 0}
        work, rounds = [self.g.entry], 0
        while work:
            rounds += 1
            u = work.pop()
            d = dist[u] + delta.get(u, 0)
            if d < -8:
                return self.fail("a pointer that follows another one does not overtake it", where)
            for v, cs in self.g.succ[u]:
                if v not in dist or d < dist[v]:
                    dist[v] = d
                    work.append(v)
        d = dist.get(node.id, 0)
        if node.kind == "blk" and node.id in delta:
            at = [i for i, s in enumerate(node.ctx.body.blocks[node.bi]["st"]) if s["k"] == "=" and not s["d"]["p"] and any(s["d"]["l"] == q[1][1] for q in (p, lead))]
            if self.si is None or at and at[0] < self.si:
                d += delta[node.id]
        ne = lambda at: at[0] == "eq" and not at[3] and lead in (strip(at[1]), strip(at[2]))
        inside = avoid_path(self.g, [self.g.entry] + [x for x in ls if x != node.id], [node.id], (), ne) is None and node.id not in ls
        if not (d >= 1 or d >= 0 and inside):
            self.fail("a pointer that follows another one does not overtake it", where)
        # the pointer in front only moves from places in bounds
        for x in mq[1]:
            if avoid_path(self.g, [self.g.entry] + [y for z in ls for y, c in self.g.succ[z]], [x.id], (), ne) is not None:
                self.fail("a pointer in front of another one moves only before its limit", where)
        self.ahead_limit(lead, mq, node, where)

    def ahead_limit(self, lead, mq, node, where):
        n0, base, off = mq[0][0]
        good = [pointer(e) for e in self.limit(lead)]
        good = [o for b, o in good if b == base and b[0] == "of"]
        if not good:
            return self.fail("the limit of a moving pointer belongs to the same collection", where)
        for o in good:
            self.holds(node, o, base[1], where + " (limit)")

    def work(self):
        prog = self.prog
        for n in self.g.nodes:
            b = n.ctx.body
            if n.kind == "blk":
                for si, s in enumerate(b.blocks[n.bi]["st"]):
                    self.si = si
                    for pl in places(s):
                        self.place(n, b, pl, "%s:%s" % (b.span(n.bi, si), "access"))
                    if s["k"] == "=" and s["r"]["k"] == "cast" and s["r"]["c"] == "Transmute":
                        self.transmute(n, s["r"])
            elif n.kind == "call":
                self.si = None
                t = b.blocks[n.bi]["t"]
                for a in list(t["args"]) + [t["d"]]:
                    pl = a if "l" in a else a.get("p")
                    if pl is not None:
                        self.place(n, b, pl, "argument")
                self.call(n)

    def place(self, n, b, pl, what):
        if raw(b, pl):
            self.seen.add((b.id, n.bi))
            ty = re.sub(r"^\*(const|mut) ", "", b.loc_type(pl["l"]))
            self.access(n, n.ctx.local(pl["l"]), ty, what)

    def transmute(self, n, rv):
        vs = fieldless(self.prog, rv["t"])
        if vs is None:
            if CLAUSE in rv["t"]:
                # a stored clause includes its header
                e = strip(n.ctx.operand(rv["a"]))
                self.n += 1
                if not (e[0] == "call" and e[1] in RAW and nonneg(minus(lin(e[3]), {None: 3}))):
                    self.fail("a stored clause includes its header", "%s at %s" % (self.body.path, n.span()))
            return
        self.seen.add((n.ctx.body.id, n.bi))
        self.n += 1
        hi = upper(n.ctx.operand(rv["a"]))
        if hi is None or vs != list(range(len(vs))) or hi >= len(vs):
            test = lambda at: at[0] == "lt" and (lambda a, b, val: val and upper_eq(a, n.ctx.operand(rv["a"])) and const_val(b) is not None and const_val(b) <= len(vs))(at[1], at[2], at[3])
            if vs != list(range(len(vs))) or avoid_path(self.g, [self.g.entry], [n.id], (), test) is not None:
                self.fail("an enumeration is only made from the number of one of its variants", "%s at %s" % (self.body.path, n.span()))

    def call(self, n):
        c = n.call
        f = n.ctx.body.blocks[n.bi]["t"]["f"].get("fn") or {}
        if not f.get("unsafe") or safe_anyway(c):
            return
        self.seen.add((n.ctx.body.id, n.bi))
        name = c.names[0] if c.names else ""
        args = n.args()
        where = "%s at %s" % (self.body.path, n.span())
        if ADD.match(name) or re.match(r"^core::ptr::(const_ptr|mut_ptr)::.*::(add|offset)$", strip_generics(name)):
            return
        if name in RAW or strip_generics(name) in RAW:
            base, off = pointer(args[0])
            need = lin(args[1])
            for k, x in off.items():
                need[k] = need.get(k, 0) + x
            if base is None or base[0] != "of":
                return self.fail("the source of an accessed pointer is known", where)
            return self.holds(n, need, base[1], "slice")
        if last(name) in ("get_unchecked", "get_unchecked_mut"):
            need = lin(args[1])
            need[None] = need.get(None, 0) + 1
            return self.holds(n, need, args[0], "unchecked access")
        if c.target_id in self.prog.bodies and self.prog.bodies[c.target_id].crate in CRATES:
            return self.fail("unsafe functions are looked into", where + ": " + name)
        self.fail("unsafe operations are of a known kind", where + ": " + name)


def upper(e):
    """Largest value, if known."""
    if e[0] == "c":
        return const_val(e)
    if e[0] == "cast":
        return upper(e[1])
    if e[0] == "bin" and e[1] == "BitAnd":
        xs = [x for x in (upper(e[2]), upper(e[3])) if x is not None]
        return min(xs) if xs else None
    if e[0] == "bin" and e[1] == "Rem":
        k = upper(e[3])
        return k - 1 if k else None
    if e[0] == "bin" and e[1] == "Shr" and upper(e[2]) is not None and const_val(e[3]) is not None:
        return upper(e[2]) >> const_val(e[3])
    return None


def word(e):
    """Does the value fit into 32 bits?"""
    k = const_val(e)
    if k is not None and 0 <= k < 2 ** 32:
        return True
    if e[0] == "cast":
        return e[2] in ("u32", "u16", "u8") or word(e[1])
    return e[0] == "bin" and e[1] == "BitAnd" and (word(e[2]) or word(e[3])) or e[0] == "bin" and e[1] in ("Shr", "Div", "Rem", "Sub") and word(e[2])


def upper_eq(a, b):
    return strip(a) == strip(b)


def same_coll(a, coll):
    """May changing a change the collection?"""
    x = coll
    while True:
        if a == x:
            return True
        if x[0] in ("f", "i", "d"):
            x = x[1]
            continue
        break
    return a[0] == "i" and coll[0] == "i" and a[1] == coll[1]


def raw(b, pl):
    """Is this an access through a raw pointer (and not that of a box)?"""
    if "*" not in pl["p"] or not re.match(r"^\*(const|mut) ", b.loc_type(pl["l"])):
        return False
    ds = b.defs.get(pl["l"], [])
    if len(ds) == 1 and ds[0][0] == "s":
        x = b.blocks[ds[0][1]]["st"][ds[0][2]]["r"]
        if x["k"] == "cast" and x["c"] == "BoxDerefTransmute":
            return False
    return True


def places(s):
    if s["k"] != "=":
        return
    yield s["d"]
    r = s["r"]
    for k in ("a", "b"):
        if isinstance(r.get(k), dict) and r[k].get("k") in ("copy", "move"):
            yield r[k]["p"]
    if isinstance(r.get("p"), dict):
        yield r["p"]
    for x in r.get("f") or r.get("ops") or r.get("as") or ():
        if isinstance(x, dict) and x.get("k") in ("copy", "move"):
            yield x["p"]


def safe_anyway(c):
    n = c.names[0] if c.names else ""
    return n.startswith("core::fmt::") or n.startswith("alloc::fmt::") or "partial_ref::" in n and generated(None, c.body)


def unsafe_sites(prog, b):
    """Blocks of a body with unsafe operations."""
    out = set()
    for bi, bl in live_blocks(b):
        for s in bl["st"]:
            for pl in places(s):
                if raw(b, pl):
                    out.add(bi)
            if s["k"] == "=" and s["r"]["k"] == "cast" and s["r"]["c"] == "Transmute" and (fieldless(prog, s["r"]["t"]) is not None or CLAUSE in s["r"]["t"]):
                out.add(bi)
        t = bl["t"]
        if t["k"] == "call":
            if (t["f"].get("fn") or {}).get("unsafe") and not safe_anyway(Call(b, bi)):
                out.add(bi)
            for a in list(t["args"]) + [t["d"]]:
                pl = a if "l" in a else a.get("p")
                if pl is not None and raw(b, pl):
                    out.add(bi)
    return out


_memo = {}


def unsafe_inside(prog, b):
    k = (id(prog), b.id)
    if k not in _memo:
        _memo[k] = bool(unsafe_sites(prog, b))
    return _memo[k]


def accesses(prog, r):
    ok = lambda b, text, detail="": r.check(b, "bounds", text, detail)
    sites, roots = {}, {}
    for b in bodies(prog):
        if generated(prog, b):
            continue
        x = unsafe_sites(prog, b)
        if x:
            sites[b.id] = x
            o = prog.owner_fn(b) if b.is_closure else b
            if not o.raw.get("unsafe"):
                roots[o.id] = o
            else:
                for c in callers(prog, o):
                    if not c.raw.get("unsafe"):
                        roots[c.id] = c
    r.floor("functions with unsafe operations", len(sites), 8)
    seen, total = set(), 0
    done = set()

    def check(b, depth):
        nonlocal total
        if b.id in done:
            return []
        done.add(b.id)
        R = Root(prog, r, b)
        r.graph(R.g)
        r.saw(b)
        if R.bad and depth and not b.raw.get("public") and not b.raw.get("exported"):
            cs = [c for c in callers(prog, b) if c.id != b.id]
            if cs:
                return [w for c in cs for w in check(c, depth - 1)]
        seen.update(R.seen)
        total += R.n
        for i in range(R.n - len(R.bad)):
            ok(True, "")
        return R.bad
    for i in sorted(roots):
        for text, where in check(roots[i], 3):
            ok(False, text, where)
    r.floor("unchecked accesses", total, 15)
    for i, bs in sorted(sites.items()):
        b = prog.bodies[i]
        if b.raw.get("unsafe") and not callers(prog, b):
            continue
        for bi in sorted(bs):
            t = b.blocks[bi]["t"]
            inlined = t["k"] == "call" and Call(b, bi).target_id in prog.bodies
            ok((i, bi) in seen or inlined or any(s["k"] == "=" and s["r"]["k"] == "cast" for s in b.blocks[bi]["st"]), "every unsafe operation is looked at", "%s at %s" % (b.path, b.span(bi)))


def callers(prog, b):
    cs = {prog.owner_fn(c) if c.is_closure else c for c in (prog.bodies[i] for i in prog.callers().get(b.id, ()))}
    return sorted((c for c in cs if c.crate in CRATES), key=lambda c: c.id)


def invariants(prog, r):
    """What the unchecked accesses of stored clauses rely on."""
    ok = lambda b, text, detail="": r.check(b, "stored", text, detail)
    b = prog.fn(V + "clause::alloc::ClauseAlloc::add_clause")
    g = r.graph(Graph(prog, b, Policy(prog, interest=lambda c: last(c.name) in ("set_len", "extend_from_slice"))))
    r.saw(b)
    lits = next((("arg", i, b.locals[i + 1]["n"]) for i in range(b.argc) if "varisat_formula::lit::Lit]" in b.loc_type(i + 1)), None)
    grow = [n.id for n in g.nodes if n.kind == "call" and last(n.call.name) in ("extend_from_slice", "extend", "push", "append", "resize") and has_fld(n.args()[0], "ClauseAlloc", "buffer")]
    three = lambda at: at[0] == "lt" and (at[3] is False and has_call(at[1], "len$") and (const_val(at[2]) or 0) >= 3 or at[3] is True and has_call(at[2], "len$") and (const_val(at[1]) if const_val(at[1]) is not None else -1) >= 2)
    small = lambda at: at[0] == "lt" and (at[3] is False and has_fld(at[2], "ClauseAlloc", "buffer") and word(at[1]) or at[3] is True and has_fld(at[1], "ClauseAlloc", "buffer") and word(at[2]))
    r.floor("writes of clause storage", len(grow), 1)
    ok(lits is not None and avoid_path(g, [g.entry], grow, (), three) is None, "stored clauses have at least three literals")
    ok(avoid_path(g, [g.entry], grow, (), small) is None, "references to stored clauses do not overflow")
    lens = [n.id for n in g.nodes if n.kind == "call" and last(n.call.name) == "set_len" and n.args()[1:] and strip(n.args()[1]) == ("call", "len", lits)]
    for x in grow:
        ok(bool(lens) and avoid_path(g, [g.entry], [x], lens) is None, "the stored length is that of the clause", g.nodes[x].span())
    for x in rets(g):
        firsts = [n.id for n in g.nodes if n.id in grow and has_fld(n.args()[1], "ClauseHeader", "data")]
        ok(bool(firsts) and avoid_path(g, [g.entry], [x], firsts) is None, "the header is stored")
        rest = [n.id for n in g.nodes if n.id in grow and n.id not in firsts]
        ok(bool(rest) and avoid_path(g, [g.entry], [x], rest) is None, "the literals are stored")
        ok(avoid_path(g, rest, firsts) is None, "the header is stored in front")
