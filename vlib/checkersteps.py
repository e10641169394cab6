"""Interpretation of the checker on one symbolic proof step.

The private helpers below are replaced by their contracts while whole steps are interpreted; the contracts themselves are
decided separately (rules c07, c08, c25), each from the helper's own code.  Entries of the checker's tables are cells that
come into being when first accessed: ('o',('cell',table,index)) holds the current value and ('o',('cell0',table,index)) the
one it had before the step.  All tables cover the same number of variables, so an access is in range iff its variable is.
"""
import re
from . import steps
from .outputs import Out, events, struct, variant
from .terms import *
from .terms import forward, I, T, B, REF, NONE, SOME, OK, ERR, GH0, UNIT, user, emit, mentions
from .lits import parts, neg, LIT, VAR
from .absint import Stuck
from .ir import last, base_type, Missing

CK = "varisat_checker::"
STATE, HASHER, CLAUSES, RUP, TMP, VARS, PROCESSING = (CK + x for x in (
    "state::CheckerState", "hash::ClauseHasher", "clauses::Clauses", "rup::RupCheck", "tmp::TmpData", "variables::Variables", "processing::Processing"))
VARDATA, LITDATA, UNITC, UNITID, MODE = (CK + x for x in (
    "variables::VarData", "variables::LitData", "clauses::UnitClause", "clauses::UnitId", "variables::SamplingMode"))
CHECKED = CK + "processing::CheckedProofStep"
NVARS = T("vars", 0, 2 ** 31)
TABLES = {VARDATA: "var", LITDATA: "lit", "core::option::Option<%s>" % UNITC: "unit"}
RESULTS = ("New", "Duplicate", "NewlyIrredundant")


def ident(term):
    """A clause identifier or counter (they count clauses, so they stay far below 2^62)."""
    return T(term, 0, 2 ** 62)


def copies(term):
    """A number of copies; fewer than 2^32 clauses fit into a proof that is checked in practice."""
    return T(term, 0, 2 ** 32 - 2)


def table_of(ty):
    t = ty.replace("&", "").replace("mut ", "").replace("'_ ", "").strip()
    for pre in ("alloc::vec::Vec<", "["):
        if t.startswith(pre):
            return TABLES.get(t[len(pre):-1].split("; ")[0])
    return None


def var_of(index):
    """Variable an index term stands for."""
    if index is not None and index[0] == "t" and isinstance(index[1], tuple):
        if index[1][0] == "vindex":
            return index[1][1]
        if index[1][0] == "code":
            return parts(index[1][1])[0]
    return None


def vindex(v):
    if v is not None and v[0] == "mk" and v[1] == "vindex":
        return v[2]
    return T(("vindex", v), 0, 2 ** 31 - 1)


class Check(Out):
    TERM = 400
    """contracts: names of the helpers replaced by their contract; ids: identifiers a unit clause may have."""
    ALL = ("sorted_lits::copy_canonical", "sorted_lits::is_subset", "rup::check_clause_with_hashes", "clauses::store_clause", "clauses::store_unit_clause", "clauses::delete_clause",
           "processing::process_step", "variables::ensure_var", "variables::ensure_sampling_var", "hash::rehash",
           "clauses::collect_garbage")

    def __init__(self, prog, contracts=ALL, ids=("Global",), more=None, **kw):
        super().__init__(prog, hook=self.checker, **kw)
        self.contracts, self.ids, self.also = {CK + x for x in contracts}, ids, more
        self.crashes = set()        # places where a path unwraps nothing

    def element(self, term):
        if isinstance(term, tuple) and len(term) == 2 and isinstance(term[1], tuple) and term[1][0] == "trace":
            return ident(term)
        return steps.element(self.prog, term)

    # ------------------------------------------------------------ tables
    def initial(self, table, index):
        v = var_of(index)
        if table == "var":
            return struct(self.prog, VARDATA, user_var=("u", ("name", v), (("None", ()), ("Some", (("user of", v),)))),
                          sampling_mode=("u", ("mode", v), tuple((x["name"], ()) for x in self.prog.adt(MODE)["variants"]), MODE))
        if table == "lit":
            return struct(self.prog, LITDATA, clause_count=ident(("count", index)))
        pay = {"Global": (ident(("unit id", v)),), "TracePos": (ident(("trace pos", v)),), "InClause": ()}
        i = ("a", "Global", pay["Global"]) if tuple(self.ids) == ("Global",) else ("u", ("unit kind", v), tuple((k, pay[k]) for k in self.ids), UNITID)
        return ("u", ("unit", v), (("None", ()), ("Some", (struct(self.prog, UNITC, id=i, value=B(("unit value", v))),))))

    def cell(self, mem, table, index):
        key = ("o", ("cell", table, index))
        if key not in mem:
            mem = dict(mem)
            mem[key] = mem[("o", ("cell0", table, index))] = self.initial(table, index)
        return mem, ("p", key, ())

    def in_range(self, mem, index):
        v = var_of(index)
        if v is None:
            return None
        if v[0] == "vr" and isinstance(v[1], tuple) and v[1][0] in ("e", "pe", "at"):
            n = v[1][1]
            if ("o", ("ensured", n)) in mem or isinstance(n, tuple) and n[0] == "lits":     # literals of stored clauses (see rule c25)
                return I(1)
            if n in ("trail", ("rev", "trail")):
                return I(1)
        if v[0] == "vr" and isinstance(v[1], tuple) and v[1][0] == "saved lit":             # only accessible literals get on the trail
            return I(1)
        return self.compare(mem, "Lt", vindex(v), NVARS)

    def ensure(self, mem, v):
        x = self.compare(mem, "Lt", vindex(v), NVARS)
        if exact(x) == 1:
            return mem
        return self.refine(mem, x, 1, 1)

    def changed(self, mem):
        """{(table, index): (before, after)} of the cells whose value differs."""
        return {k[1][1:]: (mem.get(("o", ("cell0",) + k[1][1:])), v) for k, v in mem.items()
                if k[0] == "o" and isinstance(k[1], tuple) and k[1][0] == "cell" and v != mem.get(("o", ("cell0",) + k[1][1:]))}

    def advance(self, mem, gh, name, done):
        fr = gh[0]
        k = next((i for i in range(len(fr) - 1, -1, -1) if fr[i][0] == name), None)
        if k is not None:
            gone = {y for f in fr[k:] if f[0] is not None for y in (f[0][0], forward(f[0][0]))}
            drop = [key for key in mem if key[0] == "o" and isinstance(key[1], tuple) and any(mentions(key[1], (w, n)) for n in gone for w in ("e", "ix"))]
            if drop:
                for (t, i), (old, new) in sorted(self.changed({x: mem[x] for x in drop}).items(), key=repr):
                    gh = emit(gh, ("set", t, i, old, self.close(mem, new)))
                mem = {x: v for x, v in mem.items() if x not in drop}
        mem, gh = super().advance(mem, gh, name, done)
        if done:
            its = gh[0][-1][2][-1][2] if gh[0][-1][2] else ()
            if all(any(e[0] in ("ensure", "sampling") and e[1] == ("vr", ("e", name[0])) for e in it) for it in its):
                mem = dict(mem)
                mem[("o", ("ensured", name[0]))] = I(1)
        return mem, gh

    def truth_of(self, mem, unit, x):
        """'none', 'true', 'false' or None: value of literal x under the unit cell value."""
        if unit is None or unit[0] != "a":
            return None
        if unit[1] == "None":
            return "none"
        v, p = parts(x)
        val = self.known(mem, unit[2][0][2][self.iv])
        p = self.known(mem, p)
        if val == p:
            return "true"
        r = self.known(mem, self.arith("BitXor", val, self.negate(p), "bool"))
        return {1: "true", 0: "false"}.get(exact(r)) if r is not None else None

    @property
    def iv(self):
        return [f["name"] for f in self.prog.adt(UNITC)["variants"][0]["fields"]].index("value")

    @property
    def ii(self):
        return 1 - self.iv

    def put_field(self, m, adt, name, v):
        i = [f["name"] for f in self.prog.adt(adt)["variants"][0]["fields"]].index(name)
        if m.get(("o", adt)) is not None:
            self.write(m, ("o", adt), (i,), v)

    # ------------------------------------------------------------ calls
    def checker(self, ip, c, args, mem, gh):
        if self.also is not None:
            r = self.also(self, c, args, mem, gh)
            if r is not None:
                return r
        if not c.names:
            return None
        n, ln = c.names[0], last(c.names[0])
        R = lambda v, g=gh, m=mem: [(v, m, g)]
        fail = lambda what: (("a", "Err", (("failed", what),)), mem, user(emit(gh, ("fail", what)), "failed"))
        A = lambda i: self.close(mem, args[i])
        if n in self.contracts:
            h = n[len(CK):].split("::")[1]
            if h == "copy_canonical":
                m = dict(mem)
                src = self.deref(mem, args[1])
                self.write(m, args[0][1], args[0][2], ("sl", ("canon", src)))
                return R(B(("taut", src)), m=m)
            if h == "is_subset":
                return R(B(("subset", A(0), A(1), A(2))))
            if h == "check_clause_with_hashes":
                i = c.arg_types().index("&[u64]") if "&[u64]" in c.arg_types() else 2
                m = dict(mem)
                self.put_field(m, RUP, "trace_ids", ("sl", ("trace of", A(1), A(i))))
                return [(OK(), m, emit(gh, ("rup", A(1), A(i)))), fail("rup")]
            if h in ("store_clause", "store_unit_clause"):
                red = A(2) if h == "store_clause" else I(0)
                g = emit(gh, ("store" if h == "store_clause" else "store unit", A(1), red))
                if h == "store_unit_clause":        # the caller makes sure that the variable is covered
                    ok = None if A(1) is None else self.in_range(mem, vindex(parts(A(1))[0]))
                    if ok is None or exact(ok) != 1:
                        g = emit(g, ("unsafe access", "unit", A(1)))
                rs = [k for k in RESULTS if not (k == "NewlyIrredundant" and (h == "store_unit_clause" or exact(red) == 1))]
                out = []
                for k in rs:
                    m = self.refine(mem, red, 0, 0) if k == "NewlyIrredundant" and red is not None and red[0] == "t" else dict(mem)
                    if k == "New":          # a new clause takes the next identifier and may make the formula unsatisfiable
                        self.put_field(m, CLAUSES, "next_clause_id", ident("next after store"))
                        self.put_field(m, STATE, "unsat", B("unsat after store"))
                    out.append((("a", None, (ident("stored"), ("a", k, ()))), m, emit(g, ("stored", k))))
                return out
            if h == "delete_clause":
                g = emit(gh, ("delete", A(1), A(2)))
                red = self.known(mem, self.deref(mem, args[2]))
                out = [fail("delete")]
                for k in ("Unchanged", "NewlyRedundant", "Removed"):
                    m = mem
                    if k == "NewlyRedundant":       # only when an irredundant copy went away
                        if red is None or red[0] not in "it":
                            m = mem
                        elif exact(red) == 1:
                            continue
                        else:
                            m = mem if exact(red) == 0 else self.refine(mem, red, 0, 0)
                    out.append((OK(("a", None, (ident("deleted"), ("a", k, ())))), m, emit(g, ("deleted", k))))
                return out
            if h == "process_step":
                v = self.close(mem, args[1])
                ev = ("report", v, self.current_name(mem, v))
                return [(OK(), mem, emit(gh, ev)), (("a", "Err", (("failed", "processor"),)), mem, user(emit(gh, ("fail", "processor") + ev[1:]), "failed"))]
            if h == "ensure_var":
                v = A(1)
                return R(UNIT, emit(gh, ("ensure", v)), self.ensure(mem, v))
            if h == "ensure_sampling_var":
                v = A(1)
                return [(OK(), self.ensure(mem, v), emit(gh, ("sampling", v))), fail("sampling")]
            if h in ("rehash", "collect_garbage"):
                return R(UNIT, emit(gh, (h,)))
        if n == CK + "CheckerError::check_failed":
            return R(("error", "check failed"))
        if n.endswith("CheckerData::user_from_proof_var"):
            v = A(1)
            return R(("u", ("visible", v), (("None", ()), ("Some", (("user", v),)))))
        if ln == "checked_add" and n.startswith("core::num::") and len(args) == 2:
            D = [self.deref(mem, x) for x in args]
            return R(SOME(self.arith("Add", D[0], D[1], "u64"))) + R(NONE)
        t = table_of(c.arg_types()[0]) if args else None
        if t is not None:
            if ln == "len" and len(args) == 1:
                return R(NVARS if t != "lit" else self.arith("Mul", NVARS, I(2), "usize"))
            if len(args) == 2 and (n.startswith("core::ops::index::") or ln in ("get", "get_mut", "get_unchecked", "get_unchecked_mut")):
                i = A(1)
                ok = self.in_range(mem, i)
                m, ref = self.cell(mem, t, i)
                if n.startswith("core::ops::") or "unchecked" in ln:
                    return R(ref, gh if ok is not None and exact(ok) == 1 else emit(gh, ("unsafe access", t, i)), m)
                out = []
                for b, m2, g2 in self.branch(ok, m, gh):
                    out.append((SOME(ref) if b else NONE, m2, g2))
                return out
            if ln in ("resize", "truncate", "clear", "push", "pop", "extend", "resize_with", "drain", "insert", "remove", "swap_remove", "append", "retain"):
                return R(UNIT if c.ret_ty == "()" else None, emit(gh, ("resize", t, ln, self.close(mem, args[1]) if len(args) > 1 else None)))
        if ln in ("contains", "insert", "remove") and len(args) == 2 and re.search("(Hash|BTree)Set<", c.arg_types()[0]):
            x = A(1)
            o = self.close(mem, self.nearest(mem, args[0])) if args[0] is not None else None
            s = self.set_name(mem, args[0])
            if ln == "contains":
                return R(self.known(mem, B(("has", s, x))))
            return R(B(("changed", s, x)), emit(gh, (ln, s, x)))
        if ln == "is_empty" and len(args) == 1 and re.search("(Hash|BTree)Set<", c.arg_types()[0]):
            s = self.set_name(mem, args[0])
            return [(I(v), mem, emit(gh, ("is", ("empty", s), v))) for v in (0, 1)]
        if re.search("(Hash|BTree)Set<", c.ret_ty) and ln in ("default", "new", "with_capacity", "with_capacity_and_hasher", "with_hasher"):
            return R(("set", "local"))
        return None

    def current_name(self, mem, step):
        """The user name the variable table holds when a variable's new name is reported."""
        if step is None or step[0] != "a" or step[1] != "UserVar":
            return None
        i = [f["name"] for v in self.prog.adt(CHECKED)["variants"] if v["name"] == "UserVar" for f in v["fields"]].index("var")
        m, ref = self.cell(mem, "var", vindex(step[2][i]))
        v = self.close(m, self.deref(m, ref))
        return v[2][[f["name"] for f in self.prog.adt(VARDATA)["variants"][0]["fields"]].index("user_var")] if v is not None and v[0] == "a" else None

    def opt_method(self, c, ln, a0, args, mem, gh):
        if ln in ("unwrap", "expect") and a0[1] in ("None", "Err"):
            self.crashes.add(c.span())
        return super().opt_method(c, ln, a0, args, mem, gh)

    def set_name(self, mem, ref):
        v = self.deref(mem, ref)
        return v[1] if v is not None and v[0] == "set" else None


def memory(prog, ip=None, **over):
    """Arbitrary checker state; overrides are given as adt_field=value."""
    mem = {}
    for a in (STATE, HASHER, CLAUSES, RUP, TMP, VARS):
        fs = {}
        for f in prog.adt(a)["variants"][0]["fields"]:
            t, n = f["ty"], f["name"]
            if "HashSet<" in t:
                v = ("set", n)
            elif table_of(t):
                v = ("table", table_of(t))
            elif t.startswith("alloc::vec::Vec<"):
                v = ("sl", n)
            elif t == "bool":
                v = B(n)
            elif t in ("u32", "u64", "usize"):
                v = ident(n)
            elif t.startswith("core::option::Option<"):
                v = ("u", ("opt", n), (("None", ()), ("Some", (ident((n,)) if t == "core::option::Option<u64>" else (n, "some"),))))
            else:
                v = (n, "?")
            fs[n] = over.get(n, v)
        mem[("o", a)] = struct(prog, a, **fs)
    vals = {}
    for f in prog.adt(PROCESSING)["variants"][0]["fields"]:
        t = f["ty"]
        vals[f["name"]] = ("sl", "transcript processors") if "ProofTranscriptProcessor" in t else ("sl", "proof processors") if "ProofProcessor" in t else (f["name"], "?")
    mem[("o", PROCESSING)] = struct(prog, PROCESSING, **vals)
    return mem


class Path:
    def __init__(self, prog, ip, kind, out, mem0):
        what, v, o, g = out
        self.mem = dict(o)
        self.kind, self.what, self.ip = kind, what, ip
        self.value = ip.close(self.mem, v)
        self.failed, self.gh = g[1] == "failed", g[1]
        self.ok = what == "ret" and self.value is not None and self.value[0] == "a" and self.value[1] == "Ok"
        self.err = what == "ret" and self.value is not None and self.value[0] == "a" and self.value[1] == "Err"
        self.evs = events(g)
        self.cells = {k: (a, ip.close(self.mem, b)) for k, (a, b) in ip.changed(self.mem).items()}
        self.fields = {}
        for a in (STATE, HASHER, CLAUSES, RUP, TMP, VARS):
            for i, f in enumerate(prog.adt(a)["variants"][0]["fields"]):
                x = self.mem.get(("o", a))
                x = x[2][i] if x is not None and x[0] == "a" else None
                if x != mem0[("o", a)][2][i]:
                    self.fields[f["name"]] = ip.close(self.mem, x)

    def fact(self, b):
        """What the path knows about a condition: True, False or None."""
        x = self.ip.known(self.mem, b)
        return bool(exact(x)) if x is not None and exact(x) is not None else None

    def variant(self, term):
        """Variant a lazily known value was found to have."""
        for e in self.evs:
            if e[0] == "is" and e[1] == term:
                return e[2]
        return None

    def is_(self, term):
        for e in self.evs:
            if e[0] == "is" and e[1] == term:
                return e[2]
        return None

    def all(self, *kinds):
        """Events of the path outside of loop iterations; what happens in an iteration that leaves its loop early counts."""
        return [e for e in main(self.evs) if e[0] in kinds]


def main(evs):
    for e in evs:
        yield e
        if e[0] == "brk":
            yield from main(e[3])


def step_paths(prog, kind, cls=None, over=None, **kw):
    fn = prog.fn(CK + "state::check_step")
    ip = (cls or Check)(prog, **kw)
    mem = memory(prog, **(over or {}))
    st = steps.build(prog, kind)
    args = [st if "ProofStep" in fn.loc_type(i) else ("ctx",) for i in range(1, fn.argc + 1)]
    return ip, [Path(prog, ip, kind, o, mem) for o in ip.run(fn, args, mem, GH0)]


def helper_state():
    """Overrides for `memory` used when the helpers themselves are interpreted."""
    return {"clauses": ("clause map",), "trail": ("sl", "old trail"), "trace": ("sl", "trace")}


class Helper(Check):
    """Adds models of the clause map, its buckets and the literal storage."""

    CLAUSE = CK + "clauses::Clause"

    def element(self, term):
        if isinstance(term, tuple) and len(term) == 2 and term[0] in ("e", "pe"):
            n = term[1]
            if isinstance(n, tuple) and n[0] == "bucket":
                return struct(self.prog, self.CLAUSE, id=ident(("clause id", term)), ref_count=("a", "array", (copies(("irredundant copies", term)), copies(("redundant copies", term)))),
                              lits=("stored lits", term))
            if n in ("lits", "hashes"):
                return T(term) if n == "hashes" else term
        return super().element(term)

    def checker(self, ip, c, args, mem, gh):
        r = self.buckets(c, args, mem, gh)
        return r if r is not None else super().checker(ip, c, args, mem, gh)

    def buckets(self, c, args, mem, gh):
        if not c.names:
            return None
        n, ln = c.names[0], last(c.names[0])
        R = lambda v, g=gh, m=mem: [(v, m, g)]
        ty = c.arg_types()[0] if args else ""
        if n == CK + "hash::ClauseHasher::clause_hash":
            return R(T(("hash", self.close(mem, args[1]))))
        if n.endswith("ClauseLits::slice"):
            x = self.close(mem, args[0])
            return R(REF(("sl", ("lits", x[1]))) if x is not None and x[0] == "stored lits" else None)
        if n.endswith("ClauseLits::new"):
            return R(("stored lits", self.close(mem, args[0])))
        if n.endswith("ClauseLits::buffer_used"):
            return R(ident(("buffer used", self.close(mem, args[0]))))
        m0 = self.deref(mem, args[0]) if args else None
        if m0 == ("clause map",):
            h = self.close(mem, args[1]) if len(args) > 1 else None
            if ln in ("get", "get_mut"):
                return R(NONE, emit(gh, ("bucket", h, "none"))) + R(SOME(self.bucket(h)), emit(gh, ("bucket", h, "some")), self.with_bucket(mem, h))
            if ln == "entry":
                return R(("entry", h))
            if ln == "remove":
                return R(None, emit(gh, ("remove bucket", h)))
        if m0 is not None and m0[0] == "entry" and ln in ("or_default", "or_insert_with", "or_insert"):
            return R(self.bucket(m0[1]), gh, self.with_bucket(mem, m0[1]))
        if ln == "retain" and m0 is not None and m0[0] == "sl" and "Clause" in ty:
            name = m0[1]
            key = ("o", ("candidate", name))

            def each(x, m, g):
                m = dict(m)
                m[key] = x
                out = []
                for v, m2, g2 in self.invoke(args[1], [("p", key, ())], m, g):
                    for b, m3, g3 in self.branch(v, m2, g2):
                        new = self.close(m3, m3.get(key))
                        m3 = {k: y for k, y in m3.items() if k != key}
                        out.append((UNIT, m3, emit(g3, ("kept" if b else "dropped", x, new))))
                return out

            def end(m, g):
                m = dict(m)
                self.write(m, args[0][1], args[0][2], ("sl", ("retained", name)))
                return UNIT, m, g
            return self.drive(mem, gh, self.iterator(mem, m0, "val"), self.site, each, end)
        return None

    def bucket(self, h):
        return ("p", ("o", ("bucket", h)), ())

    def with_bucket(self, mem, h):
        k = ("o", ("bucket", h))
        if k in mem:
            return mem
        mem = dict(mem)
        mem[k] = ("sl", ("bucket", h))
        return mem


class Moving(Helper):
    """Models of going through the whole clause map, for the helpers that rebuild it."""

    def element(self, term):
        if term in (("e", "buckets"), ("pe", "buckets")):
            return ("a", None, (T(("key", term)), ("sl", ("bucket", term))))
        if term in (("e", "buffered_solver_var_names"), ("pe", "buffered_solver_var_names")):
            return ("a", None, (("global", term), ("u", ("new name", term), (("None", ()), ("Some", (("solver name", term),))))))
        return super().element(term)

    def clause_of(self, lits):
        """The clause that `lits` are the stored literals of."""
        return lits[1][1] if lits is not None and lits[0] == "sl" and isinstance(lits[1], tuple) and lits[1][0] == "lits" else None

    def checker(self, ip, c, args, mem, gh):
        if not c.names or not args:
            return super().checker(ip, c, args, mem, gh)
        n, ln = c.names[0], last(c.names[0])
        R = lambda v, g=gh, m=mem: [(v, m, g)]
        d = self.deref(mem, args[0])
        if ln in ("reserve", "reserve_exact", "shrink_to_fit") and n.startswith("alloc::vec::"):
            return R(UNIT)
        if n.endswith("ClauseLits::slice"):
            x, buf = self.close(mem, args[0]), self.deref(mem, args[1])
            good = x is not None and x[0] == "stored lits" and buf == ("sl", "literal_buffer")
            return R(REF(("sl", ("lits", x[1]))) if good else None)
        if n.endswith("ClauseLits::new"):
            lits = self.close(mem, args[0])
            buf = self.deref(mem, args[1])
            m = dict(mem)
            fresh = buf is not None and (buf == ("sl", "new buffer") or buf[0] == "q" and buf[2] == ())
            if args[1] is not None and args[1][0] == "p":
                self.write(m, args[1][1], args[1][2], ("sl", "new buffer") if fresh else None)
            return R(("copied lits", lits, "new buffer") if fresh else None, m=m)
        if d == ("clause map",):
            tup = c.ret_ty
            if ln in ("iter_mut", "values_mut", "iter", "values"):
                def entry(e=("e", "buckets")):
                    return ("p", ("o", ("bucket", e)), ())
                m = self.bucket_cell(mem)
                return R(("it", (("each", "buckets", frozenset({(("one", entry() if ln.startswith("values") else ("a", None, (REF(T(("key", ("e", "buckets")))), entry()))),)})),), "val", None, ()), m=m)
            if ln in ("drain", "into_iter", "into_values"):
                m = dict(mem)
                if ln == "drain" and args[0][0] == "p":
                    self.write(m, args[0][1], args[0][2], ("empty map",))
                bk = ("sl", ("bucket", ("e", "buckets")))
                return R(("it", (("each", "buckets", frozenset({(("one", bk if ln == "into_values" else ("a", None, (T(("key", ("e", "buckets"))), bk))),)})),), "val", None, ()), m=m)
        if n in ("core::mem::take", "core::mem::replace") and d == ("clause map",) and args[0][0] == "p":
            m = dict(mem)
            self.write(m, args[0][1], args[0][2], ("empty map",))
            return R(d, m=m)
        if d == ("empty map",) and ln == "entry":
            return R(("new entry", self.close(mem, args[1])))
        if d is not None and d[0] == "new entry" and ln in ("or_default", "or_insert_with", "or_insert"):
            m = dict(mem)
            m[("o", ("new bucket", d[1]))] = ("new bucket", d[1])
            return R(("p", ("o", ("new bucket", d[1])), ()), m=m)
        if d is not None and d[0] == "new bucket" and ln == "push":
            return R(UNIT, emit(gh, ("moved", d[1], self.close(mem, args[1]))))
        if d is not None and d[0] == "solver_var_names" and ln in ("insert", "remove"):
            return R(None, emit(gh, ("name", ln) + tuple(self.close(mem, a) for a in args[1:])))
        return super().checker(ip, c, args, mem, gh)

    def bucket_cell(self, mem):
        m = dict(mem)
        m[("o", ("bucket", ("e", "buckets")))] = ("sl", ("bucket", ("e", "buckets")))
        return m

    def advance(self, mem, gh, name, done):
        if name[0] == "buckets" and gh[0][-1][0] == name:
            v = mem.get(("o", ("bucket", ("e", "buckets"))))
            if v is not None:
                gh = emit(gh, ("bucket", self.close(mem, v)))
        had = ("o", ("bucket", ("e", "buckets"))) in mem
        mem, gh = super().advance(mem, gh, name, done)
        if name[0] == "buckets" and not done and had:
            mem = self.bucket_cell(mem)
        return mem, gh


CANON = lambda k: ("sl", ("canon", ("sl", k)))


class ModelCheck(Moving):
    """Model steps: every finished iteration is reduced to the facts it established, every finished loop to the facts established by all iterations.

    ("fact", "units"): the literal does not contradict a unit clause; ("fact", "collected", S): it was added to the set S;
    ("fact", "consistent", S): its negation was not in S; ("fact", "in", S): it is in S;
    ("fact", "sat", S): some literal of the clause is in S; ("fact", "clauses", S): every clause of the bucket is."""
    M = "Model.assignment"
    KEEP = ("set", "report", "store", "store unit", "unsafe access", "resize", "ensure", "sampling", "rup", "delete", "fail", "name", "moved", "fact")

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.other = {}

    def settle(self, mem, name, items, sat):
        x, out = ("e", name), {e for e in items if e[0] in self.KEEP and e[0] != "fact"}
        for e in items:
            if e[0] in ("insert", "remove") and e[1:] != ("local", ("e", self.M)) and (e[0] != "insert" or e[2] != ("e", self.M)):
                self.other.setdefault(e[1], set()).add(e[2])
            if e[0] in ("loop", "brk"):
                for it in e[2] | ({e[3]} if e[0] == "brk" else set()):
                    out |= {y for y in it if y[0] in self.KEEP and y[0] != "fact"}
        if name == self.M:
            out |= {("fact", "collected", e[1]) for e in items if e[0] == "insert" and e[2] == x}
            out |= {("fact", "consistent", e[1][1]) for e in items if e[0] == "is" and e[1][0] == "has" and e[1][2] == neg(x) and e[2] == 0}
            out |= {("fact", "consistent", e[1][1]) for e in items if e[0] == "is" and e[1][0] == "empty" and e[2] == 1}
            v = ("vr", x)
            cell = next((c for k, c in mem.items() if k[0] == "o" and isinstance(k[1], tuple) and k[1][0] == "cell0" and k[1][1] == "unit" and var_of(k[1][2]) == v), None)
            known = self.in_range(mem, vindex(v))
            if known is not None and exact(known) == 0 or cell is not None and self.truth_of(mem, cell, x) in ("none", "true"):
                out.add(("fact", "units"))
        if name == "assumptions" or isinstance(name, tuple) and name[0] == "lits":
            out |= {("fact", "in", e[1][1]) for e in items if e[0] == "is" and e[1] == ("has", e[1][1], x) and e[2] == 1}
        if isinstance(name, tuple) and name[0] == "bucket":
            out |= {("fact", "sat", S) for S in sat}
        if name == "buckets":
            ls = [e for e in items if e[0] == "loop" and e[1] == ("bucket", x)]
            for e in ls:
                common = set.intersection(*map(set, e[2])) if e[2] else None
                out |= {("fact", "clauses", S) for S in (self.sets if common is None else {f[2] for f in common if f[:2] == ("fact", "sat")})}
        return out

    sets = ("local",)

    def advance(self, mem, gh, name, done):
        fr, sat = gh
        k = next((i for i in range(len(fr) - 1, -1, -1) if fr[i][0] == name), None)
        if sat == "failed":
            return super().advance(mem, gh, name, done)
        if k is not None:
            while True:
                n, s, items = fr[-1]
                facts = self.settle(mem, n[0], items, sat or ())
                if isinstance(n[0], tuple) and n[0][0] == "lits":
                    sat = tuple(sorted(set(sat or ()) | {f[2] for f in facts if f[:2] == ("fact", "in")}))
                if len(fr) - 1 == k:
                    break
                pn, ps, pi = fr[-2]
                kept = tuple(e for e in sorted(facts, key=repr) if e[0] != "fact" and e not in pi)
                fr = fr[:-2] + ((pn, ps, pi + kept),)
                mem = self.leave(mem, len(fr), n[0], None)
            for old in s:
                both = set(old) & facts
                facts = {f for f in both if f[0] == "fact"} | {f for f in set(old) | facts if f[0] != "fact"}
            items = tuple(sorted(facts, key=repr))
            fr = fr[:k] + ((n, frozenset({items}), items),)
            if isinstance(n[0], tuple) and n[0][0] == "bucket":
                sat = ()
        elif isinstance(name[0], tuple) and name[0][0] == "lits":
            sat = ()
        return super().advance(mem, (fr, sat), name, done)


def pp(v):
    """Short form of a value or event, for messages."""
    if v is None:
        return "?"
    if isinstance(v, frozenset):
        return "{" + " | ".join(sorted(pp(x) for x in v)) + "}"
    if not isinstance(v, tuple):
        return str(v)
    if not v:
        return "()"
    k = v[0]
    if k == "t" and len(v) == 4:
        return pp(v[1])
    if k == "i" and len(v) == 3:
        return str(v[1]) if v[1] == v[2] else "%s..%s" % (v[1], v[2])
    if k == "sl" and len(v) == 2:
        return pp(v[1])
    if k in ("e", "pe", "ix") and len(v) == 2:
        return {"e": "%s[*]", "pe": "%s[<*]", "ix": "#%s"}[k] % pp(v[1])
    if k == "a" and len(v) == 3 and isinstance(v[2], tuple):
        return (v[1] or "") + ("(" + ",".join(pp(x) for x in v[2]) + ")" if v[2] else "")
    if k == "u":
        return "?" + pp(v[1])
    if k in ("vr", "vindex", "code", "pos", "bucket", "hash", "lits", "unit", "canon") and len(v) == 2:
        return {"vr": "v", "vindex": "#", "code": "##", "pos": "+", "bucket": "B", "hash": "h", "lits": "L", "unit": "U", "canon": "C"}[k] + "'" + pp(v[1])
    return "<" + " ".join(pp(x) for x in v) + ">"


class Rup(Helper):
    """Monitors the unit propagation check while it is interpreted: which literals of a candidate are falsified, what is
    assigned and whether assignments can be undone.  Loop iterations are judged when they end and then forgotten.
    ghost: (complete, unassigned literals (0, 1, 2=more), a literal not false, conflict found, changed, undone)."""
    VARIANT_EVENTS = False
    TERM = 400
    G0 = (0, 0, 0, 0, 0, 0)

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.bad, self.seen = {}, {"assign": 0, "conflict": 0, "refute": 0, "negate": 0, "undo": 0}

    def element(self, term):
        if isinstance(term, tuple) and len(term) == 2 and term[1] in ("used", ("rev", "used")):
            return struct(self.prog, CK + "rup::TraceItem", id=ident(("trace id", term)))
        if isinstance(term, tuple) and len(term) == 2 and term[1] in ("trail", ("rev", "trail")):
            return ("a", None, (("saved lit", term), ("saved value", term)))
        return super().element(term)

    def learned(self, mem, gh, term, x):
        return gh

    def checker(self, ip, c, args, mem, gh):
        if c.names and last(c.names[0]) == "push" and len(args) == 2 and args[0] is not None and args[0][0] == "p":
            t = c.arg_types()[0]
            what = "trail" if "UnitClause" in t else "trace" if "TraceItem" in t else "edge" if t.replace("&mut ", "").replace("&'_ mut ", "").startswith("alloc::vec::Vec<u32") else None
            if what is not None:
                m = dict(mem)
                if what == "trail":
                    self.write(m, args[0][1], args[0][2], ("sl", "trail"))
                if what == "trace":         # what was used so far; an old trace that was not cleared stays unknown
                    old = self.deref(mem, args[0])
                    fresh = old is not None and (old == ("sl", "used") or old[0] == "q" and old[2] == ())
                    self.write(m, args[0][1], args[0][2], ("sl", "used") if fresh else None)
                    m = dict(self.refine(m, ("t", ("len", "used"), 0, 2 ** 62), 1, 2 ** 62) or m)
                return [(UNIT, m, emit(gh, (what, self.close(mem, args[1]))))]
        if c.names and last(c.names[0]) in ("index", "index_mut") and len(args) == 2 and c.names[0].startswith("core::ops::") and self.deref(mem, args[0]) == ("sl", "used"):
            key = ("o", ("trace item",))        # some entry
            m = dict(mem)
            if "usize" in c.arg_types()[1]:
                m.setdefault(key, struct(self.prog, CK + "rup::TraceItem", id=ident("some trace id")))
                return [(("p", key, ()), m, gh)]
        if c.names and last(c.names[0]) == "pop" and len(args) == 1 and "UnitClause" in c.arg_types()[0] and args[0] is not None and args[0][0] == "p":
            # `while let Some(..) = trail.pop()` goes through the trail backwards
            v = self.deref(mem, args[0])
            if v == ("sl", "trail"):
                it = ("it", (("each", ("rev", "trail"), frozenset({(("one", self.element(("e", "trail"))),)})),), "val", None, ())
                out = []
                for x, it2, m, g in self.next(mem, gh, it, self.site):
                    if x == "END":
                        m = dict(m)
                        self.write(m, args[0][1], args[0][2], ("q", 0, ()))
                    out.append((NONE if x == "END" else SOME(x), m, g))
                return out
            if v is not None and (v[0] == "q" and v[2] == () or v[0] == "sl" and self.interval(mem, self.length(v)) == (0, 0)):
                return [(NONE, mem, gh)]
        return super().checker(ip, c, args, mem, gh)

    def complain(self, key, msg):
        self.bad.setdefault(key, msg)

    def before(self, mem, x):
        """Value of the unit cell of literal x's variable before this iteration."""
        for k, v in mem.items():
            if k[0] == "o" and isinstance(k[1], tuple) and k[1][0] == "cell0" and k[1][1] == "unit" and var_of(k[1][2]) == parts(x)[0]:
                return v
        return None

    def advance(self, mem, gh, name, done):
        fr, u = gh
        k = next((i for i in range(len(fr) - 1, -1, -1) if fr[i][0] == name), None)
        if k is not None:
            u = self.judge(mem, fr, k, name[0], u)
            # the iteration is settled: forget its events and cells
            gone = {y for f in fr[k:] if f[0] is not None for y in (f[0][0], forward(f[0][0]))}
            mem = {x: v for x, v in mem.items() if not (x[0] == "o" and isinstance(x[1], tuple) and x[1][0] in ("cell", "cell0", "bucket") and any(mentions(x[1], (w, n)) for n in gone for w in ("e", "ix")))}
            fr = fr[:k] + ((fr[k][0], fr[k][1], tuple(e for e in fr[k][2] if e[0] in ("ensure", "unsafe access"))),)
            if isinstance(name[0], tuple) and name[0][0] == "lits" and done:
                n, t = u[1:3]
                u = (1, n, t, 1 if n == 0 and not t else u[3]) + u[4:]
                if n == 0 and not t:
                    self.seen["conflict"] += 1
            if isinstance(name[0], tuple) and name[0][0] == "bucket":
                u = (0, 0, 0) + u[3:]
            if name[0] in ("trail", ("rev", "trail")) and done:
                u = u[:5] + (1,)
                self.seen["undo"] += 1
        elif isinstance(name[0], tuple) and name[0][0] in ("lits", "bucket"):
            u = (1, 0, 0, 1) + u[4:] if done and name[0][0] == "lits" else (0, 0, 0) + u[3:]
        elif name[0] in ("trail", ("rev", "trail")) and done:
            u = u[:5] + (1,)
        return super().advance(mem, (fr, u), name, done)

    def judge(self, mem, fr, k, name, u):
        evs = [e for f in fr[k:] for e in f[2]]
        gone = {y for f in fr[k:] if f[0] is not None for y in (f[0][0], forward(f[0][0]))}
        cells = {key[1:]: v for key, v in ((x[1], mem[x]) for x in mem if x[0] == "o" and isinstance(x[1], tuple) and x[1][0] == "cell") if any(mentions(key, (w, n)) for n in gone for w in ("e", "pe"))}
        changed = {i: (mem.get(("o", ("cell0", "unit", i))), self.close(mem, v)) for (t, i), v in cells.items() if t == "unit" and v != mem.get(("o", ("cell0", "unit", i)))}
        trail = [e[1] for e in evs if e[0] == "trail"]
        trace = [e[1] for e in evs if e[0] == "trace"]
        undo = name in ("trail", ("rev", "trail"))
        u = list(u)
        for i, (old, new) in changed.items():
            x = var_of(i)[1] if var_of(i) is not None and var_of(i)[0] == "vr" else None
            if undo:
                if x != ("saved lit", ("e", forward(name))) or new != ("saved value", ("e", forward(name))):
                    self.complain("undo", "a temporary assignment is undone by storing %s for %s" % (pp(new), pp(i)))
                continue
            if x is None or new is None or new[0] != "a" or new[1] != "Some":
                self.complain("assign " + pp(i), "%s is set to %s" % (pp(i), pp(new)))
                continue
            u[4] = 1
            saved = [t for t in trail if t is not None and t[0] == "a" and t[2][0] == x]
            if len(saved) != 1 or saved[0][2][1] != old:
                self.complain("saved", "%s is assigned without saving its previous value on the trail" % pp(i))
            val, old_truth = new[2][0][2][self.iv], self.truth_of(mem, old, x)
            val = self.known(mem, val)
            pos = self.known(mem, parts(x)[1])
            if x[1] == "lits":
                self.seen["negate"] += 1
                if val != self.negate(pos):
                    self.complain("negate", "a literal of the checked clause is not set to false but to %s" % pp(val))
                if old_truth == "true":
                    self.complain("negate true", "a true literal of the checked clause is overwritten")
            elif x[0] == "e":
                self.seen["refute"] += 1
                if old_truth != "false" or val != self.negate(pos):
                    self.complain("refute", "a literal of a candidate clause that is %s becomes %s" % (old_truth, pp(val)))
            elif x[0] == "pe":
                self.seen["assign"] += 1
                if u[:3] != [1, 1, 0]:
                    self.complain("assign", "a literal is propagated although the candidate clause %s" % (
                        "was not inspected completely" if not u[0] else "is satisfied" if u[2] else "has %s unassigned literals" % ("no" if u[1] == 0 else "several")))
                if val != pos:
                    self.complain("assign value", "the propagated literal is not made true: %s" % pp(val))
            else:
                self.complain("assign?", "%s is assigned" % pp(i))
        if not undo and [t for t in trail if not any(var_of(i) == parts(t[2][0])[0] for i in changed if t is not None)]:
            u[4] = 1
        if isinstance(name, tuple) and name[0] == "lits":
            x = ("e", name)
            s = self.truth_of(mem, self.before(mem, x), x)
            if s == "none":
                u[1] = min(2, u[1] + 1)
            elif s != "false":
                u[2] = 1
        if undo and not changed and u[4]:
            self.complain("undo", "an entry of the trail is not restored")
        # clauses used must be named by the trace
        if isinstance(name, tuple) and name[0] == "bucket" or any(x is not None and isinstance(x, tuple) and x[0] == "bucket" for x in gone):
            pass
        if not undo:
            for i, (old, new) in changed.items():
                x = var_of(i)[1] if var_of(i) is not None and var_of(i)[0] == "vr" else (None, None)
                if x[0] == "pe" and not any(t is not None and t[2] and t[2][0] == ident(("clause id", x[1][1])) for t in trace):
                    self.complain("trace", "a propagating clause is missing from the trace")
        return tuple(u)


def rup_paths(prog):
    return helper_paths(prog, "rup::check_clause_with_hashes", ids=("Global", "TracePos", "InClause"), cls=Rup, ghost=(GH0[0], Rup.G0))


def seqs(evs):
    """All event sequences of a path: its own and, recursively, those of single loop iterations."""
    yield evs
    for e in evs:
        if e[0] in ("loop", "brk"):
            for it in e[2]:
                yield from seqs(it)
        if e[0] == "brk":
            yield from seqs(e[3])


def flat(evs):
    return [e for s in seqs(evs) for e in s]


STEPS = {}
VISITED = set()     # bodies interpreted for the steps


def model_paths(prog):
    return step_paths(prog, "Model", cls=ModelCheck, over={"clauses": ("clause map",), "literal_buffer": ("sl", "literal_buffer")})


def all_steps(prog, r=None):
    """{kind: paths of check_step for an arbitrary step of that kind}"""
    if not STEPS:
        for k in steps.shape(prog):
            ip, ps = model_paths(prog) if k == "Model" else step_paths(prog, k)
            STEPS[k] = ps
            VISITED.update(ip.bodies)
    if r is not None:
        for b in VISITED:
            r.saw(prog.bodies[b])
    return STEPS


def helper_paths(prog, name, lits=("sl", "lits"), ids=("Global",), cls=None, flag=None, ghost=GH0, **over):
    """Paths of one helper, interpreted from its own code (the other helpers by contract)."""
    fn = prog.fn(CK + name)
    ip = (cls or Helper)(prog, contracts=tuple(x for x in Check.ALL if x != name), ids=ids)
    mem = memory(prog, **dict(helper_state(), **over))
    args = []
    for i in range(1, fn.argc + 1):
        t = fn.loc_type(i)
        args.append(I(flag) if t == "bool" else ("lit0", "lit") if t == LIT else ("var", "v") if t == VAR else REF(lits) if t == "&[%s]" % LIT else REF(("sl", "hashes")) if t == "&[u64]" else ("ctx",))
    if ("lit0", "lit") in args:         # precondition: the variable is covered
        mem = ip.ensure(mem, ("vr", ("lit0", "lit")))
    return ip, [Path(prog, ip, name, o, mem) for o in ip.run(fn, args, mem, ghost)]
