"""Interpretation of the solver's own functions on an arbitrary solver state.

Every context component is an object ('o', type) whose fields are arbitrary values of their types: booleans and integers are terms,
options and enums are split when looked at, vectors are named sequences ('sl', 'Type.field').  Vectors listed as tables consist of
cells that come into being when first accessed: ('o',('cell',table,index)) holds the current value, ('o',('cell0',table,index)) the
one it had before.  Functions listed as contracts are not entered; a call of one is recorded and returns an arbitrary value.
"""
import re
from .outputs import Out, events, struct, variant
from .terms import *
from .terms import forward, I, T, B, REF, NONE, SOME, OK, ERR, GH0, UNIT, user, emit, mentions
from .lits import parts, neg, LIT, VAR
from .absint import Stuck
from .ir import last, base_type, Call, Missing, split_top
from .checkersteps import pp, var_of, vindex, flat, main

MUTATORS = ("truncate", "resize", "clear", "push", "pop", "swap_remove", "remove", "insert", "drain", "append", "extend", "extend_from_slice", "retain", "dedup", "sort", "resize_with",
            "sort_unstable", "sort_unstable_by_key", "sort_by_key", "reverse", "swap", "split_off", "fill", "sort_unstable_by", "set_len", "rotate_left", "rotate_right", "copy_from_slice")
WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 62, "usize": 62}


def arg(ty):
    """Element type of a vector or slice type."""
    t = re.sub(r"^(&('\S+ )?(mut )?)+", "", ty)
    for pre in ("alloc::vec::Vec<", "smallvec::SmallVec<[", "["):
        if t.startswith(pre):
            return split_top(t[len(pre):-1].split("; ")[0])[0]
    return None


class Sol(Out):
    TERM = 120
    VISITS = 20000
    DEEP = 3

    def __init__(self, prog, contracts=(), tables=(), more=None, **kw):
        super().__init__(prog, hook=self.calls, **kw)
        self.contracts, self.tables, self.also = dict((x, None) if isinstance(x, str) else x for x in contracts), set(tables), more
        self.types, self.crashes, self.adts = {}, set(), {}

    # ------------------------------------------------------------ arbitrary values
    def typed(self, ty, term, depth=0):
        """Arbitrary value of a type, named by a term."""
        t = re.sub(r"^(&('\S+ )?(mut )?)", "", ty)
        if t != ty and not t.startswith("["):
            return REF(self.typed(t, term, depth))
        if t != ty or t.startswith("["):
            self.types[term] = arg(t)
            return REF(("sl", term)) if t != ty else ("sl", term)
        if t in ("bool",):
            return B(term)
        if t in WIDTH:
            return T(term, 0, 2 ** WIDTH[t] - 1)
        if t in (LIT, VAR):
            return term if t == LIT else ("var", term)
        if t.startswith(("alloc::vec::Vec<", "smallvec::SmallVec<")):
            self.types[term] = arg(t)
            return ("tab", term) if term in self.tables else ("sl", term)
        if t.startswith("(") and t.endswith(")"):
            return ("a", None, tuple(self.typed(x, (term, i), depth) for i, x in enumerate(split_top(t[1:-1]))))
        if t.startswith("core::option::Option<"):
            inner = split_top(t[len("core::option::Option<"):-1])[0]
            return ("u", ("opt", term), (("None", ()), ("Some", (self.typed(inner, ("some", term), depth),))))
        a = self.prog.adts.get(base_type(t))
        if a is not None and depth < self.DEEP and (base_type(t).startswith(("varisat", "core::result")) or base_type(t) in self.adts):
            if len(a["variants"]) > 1:
                return ("u", ("enum", term), tuple((v["name"], tuple(self.typed(f["ty"], (term, v["name"], f["name"]), depth + 1) for f in v["fields"])) for v in a["variants"]), base_type(t))
            if len(a["variants"]) == 1 and "<" not in t.replace("<'_>", ""):
                v = a["variants"][0]
                return ("a", v["name"], tuple(self.typed(f["ty"], (term, f["name"]), depth + 1) for f in v["fields"]))
        return ("opaque", term)

    def state(self, *adts, **over):
        """Memory with the given context components in arbitrary states."""
        mem = {}
        for adt in adts:
            a = self.prog.adt(adt)
            v = a["variants"][0]
            short = last(base_type(a["id"]) if "id" in a else adt)
            vals = []
            for f in v["fields"]:
                n = "%s.%s" % (short, f["name"])
                vals.append(over[n] if n in over else self.typed(f["ty"], n))
            mem[("o", self.full(adt))] = ("a", v["name"], tuple(vals))
        return mem

    def full(self, adt):
        return adt

    def field(self, mem, adt, name):
        i = [f["name"] for f in self.prog.adt(adt)["variants"][0]["fields"]].index(name)
        v = mem.get(("o", adt))
        return None if v is None or v[0] != "a" else self.close(mem, v[2][i])

    def name_of(self, ptr):
        """'Type.field' for a pointer into a context component."""
        if ptr is None or ptr[0] != "p" or ptr[1][0] != "o" or not isinstance(ptr[1][1], str):
            return None
        a = self.prog.adts.get(ptr[1][1])
        if a is None:
            return None
        out, names = last(ptr[1][1]), a
        for i in ptr[2]:
            if not isinstance(i, int) or names is None or len(names["variants"]) != 1:
                return None
            f = names["variants"][0]["fields"][i]
            out += "." + f["name"]
            names = self.prog.adts.get(base_type(f["ty"]))
        return out

    def element(self, term):
        if isinstance(term, tuple) and len(term) >= 2 and term[0] in ("e", "pe", "at"):
            n = forward(term[1])
            while isinstance(n, tuple) and n and n[0] == "from" and n not in self.types:
                n = n[1]
            ty = self.types.get(n)
            if ty is not None:
                return self.typed(ty, term)
        return term

    def length(self, v):
        if v is not None and v[0] == "tab":
            return T(("len", v[1]), 0, 2 ** 31)
        if v is not None and v[0] == "q":
            n, ls = 0, []
            for p in v[2]:
                if p[0] == "one":
                    n += 1
                elif p[0] == "each" and all(len(x) == 1 for x in p[2]):
                    ls.append(self.length(("sl", p[1])))
                else:
                    return super().length(v)
            if len(ls) == 1 and n:
                return self.arith("Add", ls[0], I(n), "usize")
        return super().length(v)

    # ------------------------------------------------------------ tables
    def cell(self, mem, table, index):
        key = ("o", ("cell", table, index))
        if key not in mem:
            mem = dict(mem)
            mem[key] = mem[("o", ("cell0", table, index))] = self.initial(table, index)
        return mem, ("p", key, ())

    def initial(self, table, index):
        return self.typed(self.types[table], (table, index))

    def changed(self, mem):
        """{(table, index): (before, after)} of the cells whose value differs."""
        out = {}
        for k, v in mem.items():
            if k[0] == "o" and isinstance(k[1], tuple) and k[1][0] == "cell":
                old = mem.get(("o", ("cell0",) + k[1][1:]))
                if v != old:
                    out[k[1][1:]] = (old, self.close(mem, v))
        return out

    def advance(self, mem, gh, name, done):
        fr = gh[0]
        k = next((i for i in range(len(fr) - 1, -1, -1) if fr[i][0] == name), None)
        if k is not None:
            gone = {y for f in fr[k:] if f[0] is not None for y in (f[0][0], forward(f[0][0]))}
            drop = [key for key in mem if key[0] == "o" and isinstance(key[1], tuple) and any(mentions(key[1], (w, n)) for n in gone for w in ("e", "ix"))]
            if drop:
                for (t, i), (old, new) in sorted(self.changed({x: mem[x] for x in drop}).items(), key=repr):
                    gh = emit(gh, ("set", t, i, old, self.close(mem, new)))
                mem = {x: v for x, v in mem.items() if x not in drop}
        return super().advance(mem, gh, name, done)

    # ------------------------------------------------------------ calls
    # truth values of options are compared in one form: equal or not
    def compare(self, mem, op, a, b):
        if op in ("Eq", "Ne"):
            for x, y in ((a, b), (b, a)):
                if x is not None and y is not None and x[0] == "t" and x[2:] == (0, 1) and exact(y) in (0, 1):
                    return self.known(mem, x if (op == "Eq") == bool(exact(y)) else self.negate(x))
                if y is not None and x is not None and y[0] == "t" and isinstance(y[1], tuple) and y[1][0] == "not" and y[1][1] != x[1]:
                    return self.negate(self.compare(mem, op, x, B(y[1][1])))
        return super().compare(mem, op, a, b)

    def arith(self, op, a, b, ty):
        if op == "BitXor" and ty == "bool" and a is not None and b is not None and exact(a) is None and exact(b) is None:
            return self.compare({}, "Ne", a, b)
        return super().arith(op, a, b, ty)

    def arbitrary(self, c, gh, term):
        return UNIT if c.ret_ty == "()" else self.typed(c.ret_ty, term) if not c.ret_ty.startswith("&mut") else None

    def calls(self, ip, c, args, mem, gh):
        if self.also is not None:
            r = self.also(self, c, args, mem, gh)
            if r is not None:
                return r
        if not c.names:
            return None
        n, ln = c.names[0], last(c.names[0])
        R = lambda v, g=gh, m=mem: [(v, m, g)]
        A = lambda i: self.close(mem, args[i]) if i < len(args) else None
        key = n if n in self.contracts else None
        if key is not None:
            f = self.contracts[key]
            ev = ("call", ln) + tuple(self.close(mem, a) for a in args if a is None or a != ("ctx",) and self.name_of(a) is None)
            if f is not None:
                return f(self, c, args, mem, gh, ev)
            return R(self.arbitrary(c, gh, ("result", ln) + ev[2:3]), emit(gh, ev))
        r = self.clauses_hashes(c, n, ln, args, mem, gh)
        if r is not None:
            return r
        if n.startswith("log::") or "log::__private_api" in n:
            return R(None if c.ret_ty == "bool" else T(("log",)))
        if not args:
            return None
        if ln in ("into", "from") and len(args) == 1 and c.ret_ty.startswith("core::option::Option<") and not c.arg_types()[0].startswith("core::option::Option<"):
            return R(SOME(args[0]))
        d = self.deref(mem, args[0])
        if d is not None and d[0] == "clause" and c.names[0].startswith(self.HEADER):
            if ln.startswith("set_"):
                if args[0] is not None and args[0][0] == "p" and args[0][1] != ("o", ("clause", d[1])):
                    mem = dict(mem)
                    mem[("o", ("copied header", args[0], d[1], ln[4:]))] = A(1)
                return R(UNIT, emit(gh, ("header", ln, d[1], A(1))), m=mem)
            if len(args) == 1:
                own = mem.get(("o", ("copied header", args[0], d[1], ln)))
                if own is not None:
                    return R(own)
                k = ("o", ("header", d[1], ln))
                if k not in mem:
                    mem = dict(mem)
                    mem[k] = self.typed(c.ret_ty, ("header", d[1], ln))
                return R(self.close(mem, ("p", k, ())), m=mem)
        if d is not None and d[0] == "tab":
            return self.table_call(c, n, ln, d, args, mem, gh)
        where = self.name_of(args[0])
        if where is not None and d is not None and d[0] in ("sl", "q", "cut"):
            if ln in MUTATORS:
                gh = emit(gh, ("vec", where, ln) + tuple(self.close(mem, a) for a in args[1:]))
                if ln == "truncate":
                    m = dict(mem)
                    self.write(m, args[0][1], args[0][2], ("cut", d, A(1)))
                    return R(UNIT, gh, m)
                if ln in ("push", "clear", "extend", "extend_from_slice", "append", "drain"):
                    return self.std(c, args, mem, gh)
                m = dict(mem)
                self.write(m, args[0][1], args[0][2], ("sl", ("after", ln, d[1])) if d[0] == "sl" and self.types.get(d[1]) is not None else None)
                if d[0] == "sl":
                    self.types[("after", ln, d[1])] = self.types.get(d[1])
                if ln in ("pop", "swap_remove", "remove"):
                    x = self.element(("at", d[1], ln if ln == "pop" else A(1))) if d[0] == "sl" else None
                    return R(x if ln != "pop" else ("u", ("opt", ("last", d[1])), (("None", ()), ("Some", (x,)))), gh, m)
                return R(UNIT if c.ret_ty == "()" else None, gh, m)
        if ln in ("index", "index_mut") and len(args) == 2 and d is not None and d[0] == "sl":
            ix = A(1)
            if ix is not None and ix[0] == "a" and ix[1] in ("RangeFrom", "RangeTo", "Range"):
                return R(REF(("sl", ("from", d[1], ix[1], ix[2]))))
        if ln in ("get", "first", "last", "get_mut", "split_first") and d is not None and d[0] == "sl" and n.startswith("core::slice::"):
            i = A(1) if ln.startswith("get") else None
            if ln in ("first", "last"):
                x = REF(self.element(("at", d[1], 0 if ln == "first" else "last")))
                return R(x) if False else [(SOME(x), m, g) if b else (NONE, m, g) for b, m, g in self.branch(self.compare(mem, "Gt", self.known(mem, self.length(d)), I(0)), mem, gh)]
            if ln.startswith("get") and i is not None and i[0] in "it":
                return [(SOME(REF(self.at(d, exact(i) if exact(i) is not None else i[1]))) if b else NONE, m, g) for b, m, g in self.branch(self.compare(mem, "Lt", i, self.known(mem, self.length(d))), mem, gh)]
        return None

    CLAUSE, ALLOC, HEADER = "varisat::clause::Clause", "varisat::clause::alloc::ClauseAlloc", "varisat::clause::header::ClauseHeader"
    HEADER_FIELDS = ("tier", "deleted", "mark", "redundant", "glue", "active", "len")

    def clauses_hashes(self, c, n, ln, args, mem, gh):
        """Clauses in the allocator and clause hashes."""
        R = lambda v, g=gh, m=mem: [(v, m, g)]
        A = lambda i: self.close(mem, args[i]) if i < len(args) else None
        if n in ("varisat_internal_proof::clause_hash", "varisat_internal_proof::lit_hash", "varisat_internal_proof::lit_code_hash"):
            return R(T((ln, A(0))))
        if n.startswith(self.ALLOC + "::") or n.startswith(self.CLAUSE + "::"):
            if ln in ("clause", "clause_mut", "header", "header_mut") and "alloc" in n.lower():
                k = ("o", ("clause", A(1)))
                if k not in mem:
                    mem = dict(mem)
                    mem[k] = ("clause", A(1))
                return R(("p", k, ()), m=mem)
            if ln in ("lits", "lits_mut"):
                v = self.deref(mem, args[0])
                if v is not None and v[0] == "clause":
                    self.types[("lits", v[1])] = LIT
                    if ln == "lits":
                        return R(REF(("sl", ("lits", v[1]))))
            if ln in ("header", "header_mut"):
                return R(args[0])
        return None

    def table_call(self, c, n, ln, d, args, mem, gh):
        R = lambda v, g=gh, m=mem: [(v, m, g)]
        A = lambda i: self.close(mem, args[i])
        if ln in ("deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "as_slice", "as_mut_slice"):
            return R(args[0])
        if ln == "len":
            return R(self.known(mem, self.length(d)))
        if ln == "is_empty":
            return R(self.compare(mem, "Eq", self.known(mem, self.length(d)), I(0)))
        if len(args) == 2 and (n.startswith("core::ops::index::") or ln in ("get", "get_mut", "get_unchecked", "get_unchecked_mut")):
            i = A(1)
            if i is None:
                return None
            if i[0] == "a":
                return R(None)
            m, ref = self.cell(mem, d[1], i)
            if n.startswith("core::ops::") or "unchecked" in ln:
                return R(ref, emit(gh, ("access", d[1], i)), m)
            return [(SOME(ref) if b else NONE, m2, g2) for b, m2, g2 in self.branch(self.compare(m, "Lt", i, self.length(d)) if i[0] in "it" else None, m, gh)]
        if ln in MUTATORS:
            return R(UNIT if c.ret_ty == "()" else None, emit(gh, ("vec", d[1], ln) + tuple(self.close(mem, a) for a in args[1:])))
        return None

    def close_iteration(self, v, depth, name, done):
        return super().close_iteration(v, depth, name, done)

    def opt_method(self, c, ln, a0, args, mem, gh):
        if ln in ("unwrap", "expect") and a0[1] in ("None", "Err"):
            self.crashes.add(c.span())
        return super().opt_method(c, ln, a0, args, mem, gh)

    def paths(self, name, args, mem, gh=GH0):
        """Run a function; [Path]"""
        fn = self.prog.fn(name) if isinstance(name, str) else name
        return [Path(self, o, mem) for o in self.run(fn, args, mem, gh)]


class Path:
    def __init__(self, ip, out, mem0):
        what, v, o, g = out
        self.ip, self.what, self.mem, self.gh = ip, what, dict(o), g[1]
        self.raw, self.value = v, ip.close(self.mem, v)
        self.evs = events(g)
        self.cells = {k: (a, ip.close(self.mem, b)) for k, (a, b) in ip.changed(self.mem).items()}
        self.fields = {}
        for k, old in mem0.items():
            if k[0] != "o" or not isinstance(k[1], str) or k[1] not in ip.prog.adts:
                continue
            new = self.mem.get(k)
            for i, f in enumerate(ip.prog.adts[k[1]]["variants"][0]["fields"]):
                x = new[2][i] if new is not None and new[0] == "a" else None
                if x != old[2][i]:
                    self.fields["%s.%s" % (last(k[1]), f["name"])] = ip.close(self.mem, x)

    def fact(self, b):
        x = self.ip.known(self.mem, b)
        if x is not None and x[0] == "t" and isinstance(x[1], tuple):
            t, flip = x[1], False
            while isinstance(t, tuple) and t[0] == "not":
                t, flip = t[1], not flip
            if isinstance(t, tuple) and len(t) == 3 and t[0] in ("Lt", "Eq") and all(isinstance(y, tuple) and y[0] in "it" for y in t[1:]):
                y = self.ip.compare(self.mem, t[0], t[1], t[2])
                if y is not None and exact(y) is not None:
                    return bool(exact(y)) != flip
        return bool(exact(x)) if x is not None and exact(x) is not None else None

    def is_(self, term):
        for e in self.evs:
            if e[0] == "is" and e[1] == term:
                return e[2]
        return None

    def all(self, *kinds):
        return [e for e in main(self.evs) if e[0] in kinds]

    def calls(self, name=None):
        return [e for e in flat(self.evs) if e[0] == "call" and (name is None or e[1] == name)]


def writers_ok(prog, r, owner, field, roots, unused=False):
    """Every function that writes owner.field is one of the roots, or only called by such functions."""
    from .common import mut_sites
    ok = {}

    def covered(b, depth):
        b = prog.owner_fn(b) if b.is_closure else b
        if b.id in roots:
            return True
        if depth == 0 or b.id in ok:
            return ok.get(b.id, False)
        ok[b.id] = False
        cs = {(prog.owner_fn(c) if c.is_closure else c).id for c in (prog.bodies[i] for i in prog.callers().get(b.id, ()))} - {b.id}
        ok[b.id] = bool(cs or unused) and all(covered(prog.bodies[c], depth - 1) for c in cs)
        return ok[b.id]
    sites = mut_sites(prog, owner, field)
    for s in sites:
        b = s.ctx.body
        if s.kind == "call" and re.search(r"\b(Iter|Chunks|Windows)<", Call(b, s.bi).arg_types()[s.ai]) and not "IterMut" in Call(b, s.bi).arg_types()[s.ai]:
            continue        # advances an iterator over shared elements
        r.check(covered(b, 5), "writers", "%s.%s is only written by the interpreted functions" % (owner, field), "%s writes %s.%s" % (b.id, owner, field))
        r.saw(b)
    return len(sites)
