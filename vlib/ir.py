"""Program model over the facts: bodies, call graph, symbolic operand resolution and the exploded,
inlined control-flow graph that the path rules are decided on.

Expressions are nested tuples:
  ('arg',i,name) ('c',value,type) ('s',string) ('S',Component) ('f',base,Owner,name) ('v',base,Variant)
  ('i',base,idx) ('elem',iter) ('call',name,args...) ('bin',op,a,b) ('un',op,a) ('discr',x)
  ('agg',adt,variant,((field,expr)..)) ('tup',exprs..) ('closure',id,((name,expr)..)) ('phi',key)
References, derefs, borrows of the partial_ref context, `as_ref`-like adapters are transparent.
"""
import re
from collections import defaultdict, deque
from functools import lru_cache


# ------------------------------------------------------------------ names
@lru_cache(None)
def strip_generics(p):
    if p.startswith("<"):
        d = 0
        for i, c in enumerate(p):
            if c == "<":
                d += 1
            elif c == ">" and p[i - 1] != "-":
                d -= 1
                if d == 0:
                    break
        inner, rest = p[1:i], p[i + 1:]
        k = split_as(inner)
        if k:
            return "<" + strip_generics(k[0]) + " as " + strip_generics(k[1]) + ">" + strip_generics(rest)
        return "<" + strip_generics(inner) + ">" + strip_generics(rest)
    out, i = "", 0
    while i < len(p):
        if p[i] == "<":
            d, j = 0, i
            while j < len(p):
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            seg = p[i + 1:j]
            if seg.startswith("impl ") and out.endswith("::"):
                out += "impl"
            elif out.endswith("::"):
                out = out[:-2]
            i = j + 1
        else:
            out += p[i]
            i += 1
    return out.strip()


def split_as(s):
    d = 0
    for i, c in enumerate(s):
        if c in "<([":
            d += 1
        elif c in ">)]" and s[i - 1] != "-":
            d -= 1
        elif d == 0 and s.startswith(" as ", i):
            return s[:i], s[i + 4:]
    return None


@lru_cache(None)
def base_type(t):
    """Type string without references, generics and lifetimes."""
    t = t.strip()
    while True:
        m = re.match(r"^(&('\w+ )?(mut )?|\*const |\*mut )", t)
        if not m:
            break
        t = t[m.end():].strip()
    m = re.match(r"^alloc::boxed::Box<(.*)>$", t)
    if m:
        inner = split_top(m.group(1))[0]
        return base_type(inner)
    return strip_generics(t) if not t.startswith(("(", "[", "{")) else t


def split_top(s):
    out, d, cur = [], 0, ""
    for i, c in enumerate(s):
        if c in "<([{":
            d += 1
        elif c in ")]}" or (c == ">" and s[i - 1] != "-"):
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def last(p):
    return p.rsplit("::", 1)[-1]


# ------------------------------------------------------------------ bodies
class Body:
    def __init__(self, prog, crate, raw):
        self.prog, self.crate, self.raw = prog, crate, raw
        self.id = raw["id"]
        self.path = strip_generics(raw["path"])
        self.kind = raw["kind"]
        self.is_promoted = "::promoted" in self.id
        self.is_closure = "closure_of" in raw
        self.is_fn = raw["kind"] in ("Fn", "AssocFn") and not self.is_promoted
        self.argc = raw["argc"]
        self.locals = raw["locals"]
        self.blocks = raw["blocks"]
        self.trait = raw.get("trait")
        self.self_ty = raw.get("self_ty")
        self.derived = raw.get("derived", False)
        self.file = raw["span"]["f"]
        self._defs = None
        self._live = self._borrowed = self._scc = self._counters = None

    def __repr__(self):
        return "<%s>" % self.path

    @property
    def name(self):
        return self.raw.get("name", "")

    def n_blocks(self):
        return sum(1 for b in self.blocks if not b["cu"])

    def succ(self, i):
        t = self.blocks[i]["t"]
        k = t["k"]
        if k == "switch":
            return [b for _, b in t["ts"]] + [t["ow"]]
        if k in ("goto", "drop", "assert"):
            return [t["to"]]
        if k == "call":
            return [t["to"]] if t["to"] is not None else []
        return []

    def _compute_defs(self):
        defs = defaultdict(list)
        partial = set()
        mutref = set()
        for bi, b in enumerate(self.blocks):
            if b["cu"]:
                continue
            for si, s in enumerate(b["st"]):
                if s["k"] == "=":
                    d = s["d"]
                    if not d["p"]:
                        defs[d["l"]].append(("s", bi, si))
                    elif d["p"][0] != "*":
                        partial.add(d["l"])
                    r = s["r"]
                    if r["k"] in ("ref", "rawptr") and r["m"] not in (False, "Const", "FakeForPtrMetadata"):
                        if not r["p"]["p"] or r["p"]["p"][0] != "*":
                            mutref.add(r["p"]["l"])
                elif s["k"] == "sd":
                    partial.add(s["d"]["l"])
            t = b["t"]
            if t["k"] == "call":
                d = t["d"]
                if not d["p"]:
                    defs[d["l"]].append(("t", bi))
                elif d["p"][0] != "*":
                    partial.add(d["l"])
        self._defs, self._partial, self._mutref = defs, partial, mutref

    @property
    def defs(self):
        if self._defs is None:
            self._compute_defs()
        return self._defs

    @property
    def mutref(self):
        self.defs
        return self._mutref

    @property
    def partial(self):
        self.defs
        return self._partial

    def sccs(self):
        """Block -> number of its strongly connected component (loop), or None outside loops."""
        if self._scc is None:
            n = len(self.blocks)
            index, low, on, st, comp, cnt = {}, {}, set(), [], [None] * n, [0, 0]

            def push(v):
                index[v] = low[v] = cnt[0]
                cnt[0] += 1
                st.append(v)
                on.add(v)
            for root in range(n):
                if root in index:
                    continue
                push(root)
                work = [(root, iter(self.succ(root)))]
                while work:
                    v, it = work[-1]
                    for w in it:
                        if w not in index:
                            push(w)
                            work.append((w, iter(self.succ(w))))
                            break
                        if w in on:
                            low[v] = min(low[v], index[w])
                    else:
                        work.pop()
                        if work:
                            low[work[-1][0]] = min(low[work[-1][0]], low[v])
                        if low[v] == index[v]:
                            c = []
                            while not c or c[-1] != v:
                                c.append(st.pop())
                                on.discard(c[-1])
                            if len(c) > 1 or v in self.succ(v):
                                for w in c:
                                    comp[w] = cnt[1]
                                cnt[1] += 1
            self._scc = comp
        return self._scc

    def loop_locals(self, bi):
        """Locals assigned inside the loop around block bi."""
        sc = self.sccs()
        out = set()
        for j, b in enumerate(self.blocks):
            if sc[j] is not None and sc[j] == sc[bi]:
                out |= {s["d"]["l"] for s in b["st"] if s["k"] == "="}
                if b["t"]["k"] == "call":
                    out.add(b["t"]["d"]["l"])
        return out

    def counters(self):
        """Comparisons that control counting loops: {id of the comparison rvalue: (counter local, operator with the counter on the left, block)}.
        The counter is a local that the loop changes only by adding one."""
        if self._counters is not None:
            return self._counters
        sc, out, defs = self.sccs(), {}, {}
        for j, b in enumerate(self.blocks):
            for s in b["st"]:
                if s["k"] == "=":
                    defs.setdefault(s["d"]["l"], []).append((j, s["d"], s["r"]))
            if b["t"]["k"] == "call":
                defs.setdefault(b["t"]["d"]["l"], []).append((j, b["t"]["d"], None))
        muts = {s["r"]["p"]["l"] for b in self.blocks for s in b["st"] if s["k"] == "=" and (s["r"]["k"] == "rawptr" or s["r"]["k"] == "ref" and s["r"]["m"] not in (False, "Const", "FakeForPtrMetadata"))}

        def source(o, depth=0):
            """Local that an operand copies."""
            if o["k"] not in ("copy", "move") or o["p"]["p"]:
                return None
            l = o["p"]["l"]
            ds = defs.get(l, [])
            if depth < 4 and len(ds) == 1 and ds[0][2] is not None and ds[0][2]["k"] == "use" and self.locals[l].get("n") is None:
                x = source(ds[0][2]["a"], depth + 1)
                return l if x is None else x
            return l

        def increments(l, comp):
            ds = [x for x in defs.get(l, []) if sc[x[0]] == comp]
            for j, d, rv in ds:
                if d["p"] or rv is None:
                    return False
                if rv["k"] == "use" and rv["a"]["k"] in ("copy", "move") and len(rv["a"]["p"]["p"]) == 1 and rv["a"]["p"]["p"][0] != "*" and rv["a"]["p"]["p"][0].get("i") == 0:
                    t = defs.get(rv["a"]["p"]["l"], [])
                    if len(t) != 1 or t[0][2] is None:
                        return False
                    rv = t[0][2]
                if rv["k"] != "bin" or not rv["op"].startswith("Add") or source(rv["a"]) != l or rv["b"]["k"] != "const" or str(rv["b"].get("v")) != "1":
                    return False
            return len(ds) >= 1
        swap = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
        for j, b in enumerate(self.blocks):
            if sc[j] is None or b["t"]["k"] != "switch":
                continue
            sw = source(b["t"]["a"])
            for s in b["st"]:
                r = s.get("r")
                if s["k"] != "=" or r["k"] != "bin" or r["op"] not in swap or s["d"]["p"] or s["d"]["l"] != sw:
                    continue
                for op, o in ((r["op"], r["a"]), (swap[r["op"]], r["b"])):
                    l = source(o)
                    if l is not None and l not in muts and op in ("Lt", "Ge", "Ne", "Eq") and increments(l, sc[j]):
                        out[id(r)] = (l, op, j, o is r["a"])
        self._counters = out
        return out

    def borrowed(self):
        """Locals whose address is taken."""
        if self._borrowed is None:
            self._borrowed = {s["r"]["p"]["l"] for b in self.blocks for s in b["st"] if s["k"] == "=" and s["r"]["k"] in ("ref", "rawptr")}
        return self._borrowed

    def live_in(self):
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        kill = [set() for _ in range(n)]

        def u_place(i, p, write=False):
            l = p["l"]
            if not (write and not p["p"]):
                if l not in kill[i]:
                    use[i].add(l)
            for e in p["p"]:
                if e != "*" and e["k"] == "i" and e["l"] not in kill[i]:
                    use[i].add(e["l"])

        def u_op(i, o):
            if o["k"] in ("copy", "move"):
                u_place(i, o["p"])
        for i, b in enumerate(self.blocks):
            for s in b["st"]:
                if s["k"] != "=":
                    continue
                r = s["r"]
                for key in ("a", "b"):
                    if key in r and isinstance(r[key], dict):
                        u_op(i, r[key])
                for o in r.get("ops", []):
                    u_op(i, o)
                if "p" in r:
                    u_place(i, r["p"])
                u_place(i, s["d"], True)
                if not s["d"]["p"]:
                    kill[i].add(s["d"]["l"])
            t = b["t"]
            if t["k"] == "switch" or t["k"] == "assert":
                u_op(i, t["a"])
            elif t["k"] == "call":
                u_op(i, t["f"])
                for a in t["args"]:
                    u_op(i, a)
                u_place(i, t["d"], True)
            elif t["k"] == "return":
                if 0 not in kill[i]:
                    use[i].add(0)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in self.succ(i):
                    out |= live[s]
                t = self.blocks[i]["t"]
                if t["k"] == "call" and not t["d"]["p"]:
                    out.discard(t["d"]["l"])
                new = use[i] | (out - kill[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        # reference targets: a live reference keeps the referent tracked
        refs = {}
        for b in self.blocks:
            for s in b["st"]:
                if s["k"] == "=" and s["r"]["k"] == "ref" and not s["d"]["p"]:
                    refs.setdefault(s["d"]["l"], set()).add(s["r"]["p"]["l"])
        for i in range(n):
            work = list(live[i])
            while work:
                l = work.pop()
                for m in refs.get(l, ()):
                    if m not in live[i]:
                        live[i].add(m)
                        work.append(m)
        self._live = live
        return live

    def calls(self):
        for bi, b in enumerate(self.blocks):
            if not b["cu"] and b["t"]["k"] == "call":
                yield Call(self, bi)

    def span(self, bi, si=None):
        s = self.blocks[bi]["t"]["s"] if si is None else self.blocks[bi]["st"][si]["s"]
        return "%s:%d" % (s["f"], s["l"])

    def loc_type(self, l):
        return self.locals[l]["t"]


class Call:
    __slots__ = ("body", "bi", "t", "fn")

    def __init__(self, body, bi):
        self.body, self.bi = body, bi
        self.t = body.blocks[bi]["t"]
        f = self.t["f"]
        self.fn = f.get("fn") if f["k"] == "const" else None

    @property
    def names(self):
        """All names the callee goes by (trait method, resolved implementation)."""
        if not self.fn:
            return ()
        r = [strip_generics(self.fn["path"])]
        if "rpath" in self.fn:
            r.append(strip_generics(self.fn["rpath"]))
        return r

    @property
    def name(self):
        n = self.names
        return n[-1] if n else "?"

    @property
    def target_id(self):
        if not self.fn:
            return None
        return self.fn.get("rid") or self.fn["id"]

    @property
    def diverges(self):
        return self.t["to"] is None

    @property
    def ret_ty(self):
        return self.t["d"]["t"]

    def arg_types(self):
        out = []
        for a in self.t["args"]:
            out.append(a["p"]["t"] if a["k"] in ("copy", "move") else a.get("t", "?"))
        return out

    def span(self):
        return self.body.span(self.bi)

    def __repr__(self):
        return "<call %s at %s>" % (self.name, self.span())


BUILTIN_DISCR = {
    "core::option::Option": {"None": 0, "Some": 1},
    "core::result::Result": {"Ok": 0, "Err": 1},
    "core::ops::control_flow::ControlFlow": {"Continue": 0, "Break": 1},
    "core::cmp::Ordering": {"Less": 255, "Equal": 0, "Greater": 1},
    "alloc::borrow::Cow": {"Borrowed": 0, "Owned": 1},
    "std::collections::hash::map::Entry": {"Occupied": 0, "Vacant": 1},
}


class Program:
    def __init__(self, docs):
        self.docs = docs
        self.bodies = {}
        self.adts = {}
        self.impls = []
        self.statics = []
        for crate, d in docs.items():
            for r in d["bodies"]:
                b = Body(self, crate, r)
                self.bodies[b.id] = b
            for a in d["adts"]:
                a["crate"] = crate
                self.adts[strip_generics(a["path"])] = a
            for i in d["impls"]:
                i["crate"] = crate
                self.impls.append(i)
            for s in d["statics"]:
                s["crate"] = crate
                self.statics.append(s)
        self.by_path = defaultdict(list)
        for b in self.bodies.values():
            if not b.is_promoted:
                self.by_path[b.path].append(b)
        self.trait_impls = defaultdict(list)
        for i in self.impls:
            for it, tr in zip(i["items"], i["trait_items"]):
                if tr:
                    self.trait_impls[tr].append(it)
        self.singletons = {}
        for ctx in ("varisat::context::Context", "varisat_checker::context::Context"):
            a = self.adts.get(ctx)
            if a:
                for f in a["variants"][0]["fields"]:
                    self.singletons[base_type(f["ty"])] = last(base_type(f["ty"]))
        self.closures_of = defaultdict(list)
        for b in self.bodies.values():
            if b.is_closure and not b.is_promoted:
                self.closures_of[b.raw["closure_of"]].append(b)

    # -------------------------------------------------------------- lookup
    def fn(self, suffix):
        """The unique function whose path ends with `suffix` (segment aligned)."""
        r = self.fns(suffix)
        if len(r) != 1:
            raise Missing("function `%s`: %d candidates" % (suffix, len(r)))
        return r[0]

    def fns(self, suffix):
        out = []
        for p, bs in self.by_path.items():
            if p == suffix or p.endswith("::" + suffix) or p.endswith(suffix) and suffix.startswith("<"):
                out += [b for b in bs if b.is_fn]
        return out

    def adt(self, suffix):
        r = [a for p, a in self.adts.items() if p == suffix or p.endswith("::" + suffix)]
        if len(r) != 1:
            raise Missing("type `%s`: %d candidates" % (suffix, len(r)))
        return r[0]

    def local_fns(self, crates=None):
        for b in self.bodies.values():
            if (b.is_fn or (b.is_closure and not b.is_promoted)) and (crates is None or b.crate in crates):
                yield b

    def discr(self, adt):
        if adt in BUILTIN_DISCR:
            return BUILTIN_DISCR[adt]
        a = self.adts.get(adt)
        if a and a["kind"] == "enum":
            return {v["name"]: int(v["discr"]) for v in a["variants"]}
        return None

    # -------------------------------------------------------------- call graph
    def callees(self, body):
        """Ids of workspace bodies possibly invoked by `body` (closures it creates included)."""
        if not hasattr(self, "_cg"):
            self._cg = {}
        if body.id in self._cg:
            return self._cg[body.id]
        out = set()
        for b in body.blocks:
            if b["cu"]:
                continue
            for s in b["st"]:
                if s["k"] == "=":
                    r = s["r"]
                    if r["k"] == "agg" and "closure" in r:
                        out.add(r["closure"])
                    for o in [r.get("a"), r.get("b")] + r.get("ops", []):
                        if isinstance(o, dict) and "fn" in o:
                            out |= self._targets(o["fn"])
            t = b["t"]
            if t["k"] == "call":
                if t["f"]["k"] == "const" and "fn" in t["f"]:
                    out |= self._targets(t["f"]["fn"])
                for a in t["args"]:
                    if "fn" in a:
                        out |= self._targets(a["fn"])
            elif t["k"] == "drop":
                for tr in self.drop_impls(t["p"]["t"]):
                    out.add(tr)
        out = {o for o in out if o in self.bodies}
        self._cg[body.id] = out
        return out

    def drop_impls(self, ty):
        bt = base_type(ty)
        return [it for it in self.trait_impls.get("core::ops::drop::Drop::drop", ())
                if base_type(self.bodies[it].self_ty or "") == bt] if bt else []

    def _targets(self, fn):
        t = fn.get("rid") or fn["id"]
        if t in self.bodies and not ("trait_decl" in self.bodies[t].raw and "rid" not in fn):
            return {t}
        # unresolved trait method: every workspace implementation
        out = set(self.trait_impls.get(fn["id"], ()))
        if t in self.bodies:
            out.add(t)
        return out

    def reach(self, roots):
        seen, work = set(), [r.id if isinstance(r, Body) else r for r in roots]
        while work:
            i = work.pop()
            if i in seen or i not in self.bodies:
                continue
            seen.add(i)
            work += self.callees(self.bodies[i])
        return seen

    def callers(self):
        if not hasattr(self, "_callers"):
            self._callers = defaultdict(set)
            for b in self.local_fns():
                for c in self.callees(b):
                    self._callers[c].add(b.id)
        return self._callers

    def owner_fn(self, body):
        """The named function a closure belongs to."""
        return self.bodies[body.raw["closure_of"]] if body.is_closure else body


class Missing(Exception):
    """An anchor of a rule is gone: rules fail closed."""


# ------------------------------------------------------------------ transparent calls
TRANSPARENT = {
    "core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut",
    "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut", "core::borrow::Borrow::borrow",
    "core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned",
    "core::convert::From::from", "core::convert::Into::into",
    "core::option::Option::as_ref", "core::option::Option::as_mut", "core::option::Option::as_deref",
    "core::option::Option::as_deref_mut", "core::option::Option::cloned", "core::option::Option::copied",
    "core::result::Result::as_ref", "core::result::Result::as_mut",
    "alloc::vec::Vec::as_slice", "alloc::vec::Vec::as_mut_slice",
    "partial_ref::PartialRef::borrow", "partial_ref::IntoPartialRef::into_partial_ref",
    "partial_ref::IntoPartialRefMut::into_partial_ref_mut",
    "core::ops::try_trait::FromResidual::from_residual",
    "core::iter::traits::collect::IntoIterator::into_iter",
    "core::slice::impl::iter", "core::slice::impl::iter_mut",
    "core::iter::traits::iterator::Iterator::copied", "core::iter::traits::iterator::Iterator::cloned",
    "core::iter::traits::iterator::Iterator::by_ref", "core::mem::drop",
    "core::slice::impl::into_vec", "alloc::slice::impl::into_vec", "alloc::slice::impl::to_vec",
    "core::hint::must_use", "core::convert::identity",
}
PART = {"partial_ref::PartialRef::part", "partial_ref::PartialRef::part_mut"}
SPLIT = {"partial_ref::PartialRef::split_part", "partial_ref::PartialRef::split_part_mut"}
SPLITB = {"partial_ref::PartialRef::split_borrow"}
FIELD_TRANSPARENT = ("alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull")
INDEX = {"core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut"}


class Ctx:
    """One inlined instance of a body."""
    __slots__ = ("prog", "body", "parent", "site", "args", "depth", "key", "cap", "kids", "memo", "policy", "stack")

    def __init__(self, prog, body, policy, parent=None, site=None, args=None):
        self.prog, self.body, self.policy = prog, body, policy
        self.parent, self.site, self.args = parent, site, args
        self.depth = parent.depth + 1 if parent else 0
        self.key = (parent.key if parent else ()) + ((site, body.id),)
        self.stack = (parent.stack if parent else ()) + (body.id,)
        self.kids, self.memo = {}, {}

    def chain(self):
        c, out = self, []
        while c:
            out.append(c.body.path)
            c = c.parent
        return list(reversed(out))

    # ---------------------------------------------------------- expressions
    def local(self, l):
        if l in self.memo:
            return self.memo[l]
        self.memo[l] = ("phi", (self.body.path, l, self.body.locals[l]["n"]))
        r = self._local(l)
        self.memo[l] = r
        return r

    def _local(self, l):
        b = self.body
        bt = base_type(b.loc_type(l))
        if bt in self.prog.singletons:
            return ("S", self.prog.singletons[bt])
        defs = b.defs.get(l, [])
        if 1 <= l <= b.argc and not defs:
            if self.args is not None:
                return self.args[l - 1] if l - 1 < len(self.args) else ("phi", (b.path, l, "?"))
            return ("arg", l - 1, b.locals[l]["n"])
        if len(defs) != 1:
            return ("phi", (b.path, l, b.locals[l]["n"]))
        d = defs[0]
        if d[0] == "s":
            return self.rvalue(b.blocks[d[1]]["st"][d[2]]["r"])
        return self.callexpr(d[1])

    def place(self, p):
        e = self.local(p["l"])
        pr = p["p"]
        for x in pr:
            if x == "*":
                continue
            k = x["k"]
            if k == "f":
                o = strip_generics(x["o"])
                if o in FIELD_TRANSPARENT:
                    continue
                if o in self.prog.singletons:
                    e = ("S", self.prog.singletons[o])
                e = mkfield(e, o, x["n"])
            elif k == "d":
                e = mkvariant(e, x["v"])
            elif k == "i":
                e = ("i", e, self.local(x["l"]))
            elif k == "ci":
                e = ("i", e, ("c", ("-" if x["e"] else "") + str(x["o"]), "usize"))
            elif k == "ss":
                e = ("sub", e, x["a"], x["b"], x["e"])
        bt = base_type(p["t"])
        if bt in self.prog.singletons:
            return ("S", self.prog.singletons[bt])
        return e

    def operand(self, o):
        k = o["k"]
        if k in ("copy", "move"):
            return self.place(o["p"])
        if k == "const":
            if "fn" in o:
                f = o["fn"]
                return ("fn", f.get("rid") or f["id"], strip_generics(f.get("rpath") or f["path"]))
            if "cpath" in o:
                if "v" in o:
                    return ("c", o["v"], o["t"], strip_generics(o["cpath"]))
                return ("k", strip_generics(o["cpath"]))
            if "v" in o:
                return ("c", o["v"], o["t"])
            if "s" in o:
                return ("s", o["s"])
            if "promoted" in o:
                pb = self.prog.bodies.get(o["promoted"])
                if pb is not None:
                    return Ctx(self.prog, pb, self.policy).local(0)
            return ("k", o.get("dbg", "?"))
        return ("other",)

    def rvalue(self, r):
        k = r["k"]
        if k == "use":
            return self.operand(r["a"])
        if k in ("ref", "rawptr"):
            return self.place(r["p"])
        if k == "cast":
            e = self.operand(r["a"])
            if r["c"].startswith(("IntToInt", "FloatToInt", "IntToFloat")):
                return ("cast", e, r["t"])
            return e
        if k == "bin":
            return ("bin", r["op"], self.operand(r["a"]), self.operand(r["b"]))
        if k == "un":
            if r["op"] == "PtrMetadata":
                return ("call", "len", self.operand(r["a"]))
            return ("un", r["op"], self.operand(r["a"]))
        if k == "discr":
            return ("discr", self.place(r["p"]), base_type(r["p"]["t"]))
        if k == "agg":
            ops = [self.operand(o) for o in r["ops"]]
            if "adt" in r:
                adt = strip_generics(r["adt"])
                return ("agg", adt, r["variant"], tuple(zip(r["fields"], ops)))
            if "closure" in r:
                return ("closure", r["closure"], tuple(zip(r["fields"], ops)))
            return ("tup",) + tuple(ops)
        if k == "repeat":
            return ("repeat", self.operand(r["a"]), r["n"])
        return ("other",)

    def callexpr(self, bi):
        key = ("call", bi)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = ("phi", (self.body.path, "bb%d" % bi))
        r = self._callexpr(bi)
        self.memo[key] = r
        return r

    def call_args(self, bi):
        return [self.operand(a) for a in self.body.blocks[bi]["t"]["args"]]

    def _callexpr(self, bi):
        c = Call(self.body, bi)
        if c.fn is None:
            return ("call", "?") + tuple(self.call_args(bi))
        names = c.names
        tn = names[0]
        bt = base_type(c.ret_ty)
        if bt in self.prog.singletons:
            return ("S", self.prog.singletons[bt])
        args = self.call_args(bi)
        if tn in SPLIT:
            ga = c.fn["ga"]
            t = base_type(split_top(c.ret_ty[1:-1])[0]) if c.ret_ty.startswith("(") else "?"
            p = ("S", self.prog.singletons[t]) if t in self.prog.singletons else ("part", t)
            return ("tup", p, ("ctx",))
        if tn in SPLITB:
            return ("tup", ("ctx",), ("ctx",))
        if tn in PART:
            t = base_type(c.ret_ty)
            return ("S", self.prog.singletons[t]) if t in self.prog.singletons else ("part", t)
        if tn.startswith("partial_ref::"):
            return ("ctx",)
        if tn in TRANSPARENT or last(tn) in ("as_slice", "as_mut_slice") and args:
            return args[0] if args else ("other",)
        if tn in INDEX and len(args) == 2:
            if args[1][0] == "agg" and args[1][1].endswith("RangeFull"):
                return args[0]
            return ("i", args[0], args[1])
        if tn == "core::ops::try_trait::Try::branch":
            return ("try", args[0])
        if tn == "core::iter::traits::iterator::Iterator::next":
            return ("next", args[0])
        kid = self.child(bi)
        if kid is not None:
            ds = kid.body.defs.get(0, [])
            if len(ds) == 1 and 0 not in kid.body.partial:
                return kid.local(0)
        else:
            kid = self.echild(bi)
            if kid is not None:
                return kid.local(0)
        if tn in ("alloc::vec::Vec::len", "core::slice::impl::len", "core::str::impl::len", "smallvec::SmallVec::len") or tn.endswith("::ExactSizeIterator::len"):
            return ("call", "len", args[0])
        if last(tn) == "is_empty" and len(args) == 1 and not (c.target_id in self.prog.bodies):
            return ("bin", "Eq", ("call", "len", args[0]), ("c", "0", "usize"))
        return ("call", c.name) + tuple(args)

    # ---------------------------------------------------------- inlining
    def child(self, bi):
        """Context of the callee at block `bi`, if the policy inlines it."""
        if bi in self.kids:
            return self.kids[bi]
        self.kids[bi] = None
        c = Call(self.body, bi)
        k = None
        if c.fn is not None:
            tid = c.target_id
            args = None
            body = self.prog.bodies.get(tid)
            if last(c.names[0]) in ("call", "call_mut", "call_once") and c.names[0].startswith("core::ops::function::"):
                args = self.call_args(bi)
                f = args[0]
                body = None
                rest = list(args[1][1:]) if len(args) > 1 and args[1][0] == "tup" else list(args[1:])
                if f[0] == "closure":
                    body = self.prog.bodies.get(f[1])
                    args = [f] + rest
                elif f[0] == "fn":
                    body = self.prog.bodies.get(f[1])
                    args = rest
            elif body is not None and "trait_decl" in body.raw and "rid" not in c.fn and c.fn.get("trait"):
                # unresolved call that only has a default body
                impls = self.prog._targets(c.fn) - {tid}
                body = None if impls else body
            elif body is None and c.fn.get("trait") and not c.fn.get("virtual"):
                impls = [i for i in self.prog._targets(c.fn) if i in self.prog.bodies]
                if len(impls) == 1 and self.policy.devirtualize:
                    body = self.prog.bodies[impls[0]]
            if body is not None and body.id not in self.stack and self.depth < self.policy.max_depth \
                    and self.policy.inline(self, c, body):
                if args is None:
                    args = self.call_args(bi)
                k = Ctx(self.prog, body, self.policy, self, bi, args)
        self.kids[bi] = k
        return k

    def echild(self, bi):
        """Expression-only context of a small accessor: its value is looked through in expressions."""
        key = ("e", bi)
        if key in self.kids:
            return self.kids[key]
        self.kids[key] = None
        c = Call(self.body, bi)
        k = None
        body = self.prog.bodies.get(c.target_id) if c.fn is not None else None
        if body is not None and body.is_fn and body.id not in self.stack and self.depth < self.policy.max_depth + 6 \
                and "trait_decl" not in body.raw and self.policy.see_through(c, body):
            ds = body.defs.get(0, [])
            if len(ds) == 1 and 0 not in body.partial:
                k = Ctx(self.prog, body, self.policy, self, ("e", bi), self.call_args(bi))
        self.kids[key] = k
        return k

    def closure_child(self, bi, cl, ai):
        key = ("cl", bi, ai)
        if key in self.kids:
            return self.kids[key]
        self.kids[key] = None
        body = self.prog.bodies.get(cl[1])
        if body is not None and body.id not in self.stack and self.depth < self.policy.max_depth:
            args = self.call_args(bi)
            # element arguments of combinators: an element of the receiver
            recv = args[0] if args else ("other",)
            extra = [("elem", recv)] * 4
            k = Ctx(self.prog, body, self.policy, self, ("cl", bi, ai),
                    ([cl] if cl[0] == "closure" else []) + extra)
            self.kids[key] = k
        return self.kids[key]


def mkfield(e, owner, name):
    if e[0] == "tup" and name.isdigit() and int(name) + 1 < len(e):
        return e[int(name) + 1]
    if e[0] == "closure":
        for n, v in e[2]:
            if n == name:
                return v
    if e[0] == "agg":
        for n, v in e[3]:
            if n == name:
                return v
    if e[0] == "v" and e[1][0] == "next" and e[2] == "Some":
        return ("elem", e[1][1])
    if e[0] == "v" and e[1][0] == "try" and e[2] == "Continue":
        return ("ok", e[1][1])
    if e[0] == "v" and e[2] in ("Ok", "Some") and name == "0":
        return ("ok", e[1])
    if e[0] == "v" and e[2] in ("Err",) and name == "0":
        return ("err", e[1])
    if e[0] == "v" and e[1][0] == "try":
        return ("err", e[1][1])
    return ("f", e, owner, name)


def mkvariant(e, v):
    if e[0] == "agg" and e[2] == v:
        return e
    return ("v", e, v)


# ------------------------------------------------------------------ conditions
def norm_cond(e, val):
    """Atoms implied by bool expression `e` having truth value `val`: list of (kind, ..., polarity)."""
    if e[0] == "un" and e[1] == "Not":
        return norm_cond(e[2], not val)
    if e[0] == "bin":
        op, a, b = e[1], e[2], e[3]
        if op == "Eq":
            return [("eq", a, b, val)]
        if op == "Ne":
            return [("eq", a, b, not val)]
        if op == "Lt":
            return [("lt", a, b, val)]
        if op == "Ge":
            return [("lt", a, b, not val)]
        if op == "Gt":
            return [("lt", b, a, val)]
        if op == "Le":
            return [("lt", b, a, not val)]
        if op == "BitAnd" and val:
            return norm_cond(a, True) + norm_cond(b, True)
        if op == "BitOr" and not val:
            return norm_cond(a, False) + norm_cond(b, False)
    if e[0] == "call":
        n = last(e[1])
        a = e[2:]
        if n == "eq" and len(a) == 2:
            return eq_atoms(a[0], a[1], val)
        if n == "ne" and len(a) == 2:
            return eq_atoms(a[0], a[1], not val)
        if n in ("lt", "gt", "le", "ge") and len(a) == 2 and "cmp" in e[1]:
            return norm_cond(("bin", {"lt": "Lt", "gt": "Gt", "le": "Le", "ge": "Ge"}[n], a[0], a[1]), val)
        if n in ("is_some", "is_none", "is_ok", "is_err") and len(a) == 1 and e[1].startswith("core::"):
            v, p = {"is_some": ("Some", True), "is_none": ("Some", False), "is_ok": ("Ok", True), "is_err": ("Ok", False)}[n]
            return [("is", a[0], v, p == val)]
    return [("true", e, val)]


def eq_atoms(a, b, val):
    for x, y in ((a, b), (b, a)):
        if y[0] == "agg" and not y[3]:
            return [("is", x, y[2], val)]
        if y[0] == "agg" and y[2] == "Some":
            return [("eq", a, b, val)]
    return [("eq", a, b, val)]


OTHER = {"Some": "None", "None": "Some", "Ok": "Err", "Err": "Ok"}


def atom_is(at, variant):
    """+1 if the atom implies `x is variant`, -1 if it implies it is not, else 0."""
    if at[0] != "is":
        return 0
    if at[2] == variant:
        return 1 if at[3] else -1
    if OTHER.get(at[2]) == variant:
        return -1 if at[3] else 1
    return -1 if at[3] else 0


# ------------------------------------------------------------------ policy
class Policy:
    """Which callees are inlined.  A callee is inlined if it (transitively) contains an event the
    rule cares about, or if it is a small function computing a condition."""
    devirtualize = False

    def __init__(self, prog, interest=lambda call: False, writes=lambda owner, field: False,
                 opaque=lambda body: False, force=lambda body: False, max_depth=12, small=14, stmt=None,
                 opaque_crates=("varisat_formula",)):
        self.prog, self.interest, self.writes = prog, interest, writes
        self.opaque, self.force, self.max_depth, self.small = opaque, force, max_depth, small
        self.stmt = stmt
        self.opaque_crates = opaque_crates
        self._rel = {}
        self._pure = {}
        self._direct = {}

    def direct(self, body):
        if body.id in self._direct:
            return self._direct[body.id]
        r = any(self.interest(c) for c in body.calls())
        if not r:
            for b in body.blocks:
                if b["cu"]:
                    continue
                for s in b["st"]:
                    if s["k"] != "=":
                        continue
                    if self.stmt and self.stmt(s):
                        r = True
                        break
                    for x in reversed(s["d"]["p"]):
                        if x != "*" and x["k"] == "f" and self.writes(strip_generics(x["o"]), x["n"]):
                            r = True
                            break
                if r:
                    break
        self._direct[body.id] = r
        return r

    def relevant(self, body):
        if body.id not in self._rel:
            self._rel[body.id] = any(self.direct(self.prog.bodies[i]) for i in self._reach(body))
        return self._rel[body.id]

    def _reach(self, body):
        # transitive closure not crossing opaque functions
        seen, work = set(), [body.id]
        while work:
            i = work.pop()
            if i in seen:
                continue
            seen.add(i)
            for c in self.prog.callees(self.prog.bodies[i]):
                cb = self.prog.bodies[c]
                if self.interest_body(cb) or self.opaque(cb):
                    continue
                work.append(c)
        return seen

    def interest_body(self, b):
        return False

    def see_through(self, call, body):
        return not (self.interest(call) or self.opaque(body) or body.derived or body.crate in self.opaque_crates
                    or body.n_blocks() > 6) and self.pure(body)

    def pure(self, body):
        """No stores through references: the value is all the call is about."""
        if body.id not in self._pure:
            self._pure[body.id] = not any(
                s["k"] == "=" and "*" in s["d"]["p"] for b in body.blocks if not b["cu"] for s in b["st"]) and \
                not any(b["t"]["k"] == "switch" for b in body.blocks if not b["cu"])
        return self._pure[body.id]

    def inline(self, ctx, call, body):
        if self.interest(call) or self.opaque(body):
            return False
        if self.force(body):
            return True
        if body.crate in self.opaque_crates:
            return False
        if self.relevant(body):
            return True
        if self.small and not body.derived and body.n_blocks() <= self.small:
            rt = body.loc_type(0)
            bt = base_type(rt)
            if rt == "bool" or bt in ("core::option::Option", "core::result::Result") or \
                    (self.prog.adts.get(bt) or {}).get("kind") == "enum":
                return True
        return False


# ------------------------------------------------------------------ exploded graph
class Node:
    __slots__ = ("id", "kind", "ctx", "bi", "si", "info", "val")

    def __init__(self, id, kind, ctx, bi, si=None, info=None):
        self.val = None     # abstract value stored by a write node on this path
        self.id, self.kind, self.ctx, self.bi, self.si, self.info = id, kind, ctx, bi, si, info

    # kinds: entry, blk, call, write, ret (of the root), panic
    @property
    def call(self):
        return Call(self.ctx.body, self.bi)

    def args(self):
        return self.ctx.call_args(self.bi)

    def span(self):
        return self.ctx.body.span(self.bi, self.si) if self.kind != "entry" else self.ctx.body.file

    def where(self):
        return "%s (in %s)" % (self.span(), " > ".join(last(p) if "::" in p else p for p in self.ctx.chain()))


class Graph:
    LIMIT = 400000

    def __init__(self, prog, root, policy, root_args=None):
        self.prog, self.root, self.policy = prog, root, policy
        self.nodes, self.succ = [], []
        self.rootctx = Ctx(prog, root, policy, args=root_args)
        self.blk = {}
        self.work = deque()
        self.ctxs = {self.rootctx.key: self.rootctx}
        self.inlined = set()
        e = self.new("entry", self.rootctx, 0)
        self.entry = e
        b = self.block(self.rootctx, 0, {})
        self.edge(e, b)
        while self.work:
            self.process(*self.work.popleft())
            if len(self.nodes) > self.LIMIT:
                raise Missing("exploded graph of %s exceeds %d nodes" % (root.path, self.LIMIT))

    def new(self, kind, ctx, bi, si=None, info=None):
        n = Node(len(self.nodes), kind, ctx, bi, si, info)
        self.nodes.append(n)
        self.succ.append([])
        return n.id

    def edge(self, a, b, conds=()):
        self.succ[a].append((b, tuple(conds)))

    def block(self, ctx, bi, env):
        live = ctx.body.live_in()[bi]
        env = {k: v for k, v in env.items() if k[0] != ctx.key or k[1] in live}
        fe = frozenset(env.items())
        key = (ctx.key, bi, fe)
        if key not in self.blk:
            n = self.new("blk", ctx, bi)
            self.blk[key] = n
            self.ctxs[ctx.key] = ctx
            self.inlined.add(ctx.body.id)
            self.work.append((n, ctx, bi, dict(env)))
        return self.blk[key]

    # ---------------------------------------------------------- abstract values
    def trackable(self, ctx, l):
        return l not in ctx.body.mutref and l not in ctx.body.partial

    def aval_place(self, ctx, p, env):
        v = env.get((ctx.key, p["l"]))
        for x in p["p"]:
            if v is None:
                return None
            if x == "*":
                if v[0] == "r":
                    v = env.get((v[1], v[2]))
                continue
            if x["k"] == "d":
                if v[0] != "v" or v[1] != x["v"]:
                    return None
                continue
            if x["k"] == "f":
                if v[0] == "v" and x["i"] < len(v[2]):
                    v = v[2][x["i"]]
                    continue
                if v[0] == "t" and x["i"] < len(v[1]):
                    v = v[1][x["i"]]
                    continue
            return None
        return v

    def aval(self, ctx, o, env):
        if o["k"] in ("copy", "move"):
            return self.aval_place(ctx, o["p"], env)
        if o["k"] == "const" and "v" in o:
            return ("c", int(o["v"]))
        if o["k"] == "const" and "promoted" in o:
            e = ctx.operand(o)
            if e[0] == "agg" and not e[3]:
                return ("v", e[2], ())
            if e[0] == "c" and re.match(r"-?\d+$", e[1]):
                return ("c", int(e[1]))
        return None

    def aval_rvalue(self, ctx, r, env):
        k = r["k"]
        if k == "use":
            return self.aval(ctx, r["a"], env)
        if k == "ref" and not r["m"]:
            p = r["p"]
            if not p["p"]:
                if self.trackable(ctx, p["l"]):
                    return ("r", ctx.key, p["l"])
            elif p["p"] == ["*"]:
                v = env.get((ctx.key, p["l"]))
                if v and v[0] == "r":
                    return v
            return None
        if k == "un" and r["op"] == "Not":
            v = self.aval(ctx, r["a"], env)
            if v and v[0] == "c" and v[1] in (0, 1):
                t = r["a"]["p"]["t"] if "p" in r["a"] else r["a"].get("t")
                if t == "bool":
                    return ("c", 1 - v[1])
            return None
        if k == "bin":
            a, b = self.aval(ctx, r["a"], env), self.aval(ctx, r["b"], env)
            op = r["op"]
            if a and b and a[0] == b[0] == "c":
                x, y = a[1], b[1]
                f = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}
                if op in f:
                    return ("c", int(f[op]))
                if op in ("BitAnd", "BitOr", "BitXor") and x in (0, 1) and y in (0, 1):
                    return ("c", {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op])
            for v in (a, b):
                if v and v[0] == "c":
                    if op == "BitAnd" and v[1] == 0:
                        return ("c", 0)
            return None
        if k == "discr":
            v = self.aval_place(ctx, r["p"], env)
            if v and v[0] == "v":
                d = self.prog.discr(base_type(r["p"]["t"]))
                if d and v[1] in d:
                    return ("c", d[v[1]])
            return None
        if k == "agg":
            ops = tuple(self.aval(ctx, o, env) for o in r["ops"])
            if "adt" in r:
                a = strip_generics(r["adt"])
                if self.prog.discr(a):
                    return ("v", r["variant"], ops)
                return None
            if r.get("tuple"):
                if any(o is not None for o in ops):
                    return ("t", ops)
            return None
        return None

    def set(self, ctx, env, place, v):
        if place["p"]:
            if place["p"][0] != "*":
                env.pop((ctx.key, place["l"]), None)
            return
        key = (ctx.key, place["l"])
        if v is None or not self.trackable(ctx, place["l"]):
            env.pop(key, None)
        else:
            env[key] = cap(v, 3)

    # ---------------------------------------------------------- exploration
    def process(self, n, ctx, bi, env):
        body = ctx.body
        blk = body.blocks[bi]
        cur = n
        for si, s in enumerate(blk["st"]):
            if s["k"] == "=":
                if s["d"]["p"]:
                    w = self.new("write", ctx, bi, si)
                    self.nodes[w].val = self.aval_rvalue(ctx, s["r"], env)
                    self.edge(cur, w)
                    cur = w
                elif self.policy.stmt is not None and self.policy.stmt(s):
                    w = self.new("stmt", ctx, bi, si)
                    self.edge(cur, w)
                    cur = w
                self.set(ctx, env, s["d"], self.aval_rvalue(ctx, s["r"], env))
            elif s["k"] == "sd":
                env.pop((ctx.key, s["d"]["l"]), None)
        t = blk["t"]
        k = t["k"]
        if k in ("goto", "drop"):
            if k == "drop":
                w = self.new("drop", ctx, bi)
                self.edge(cur, w)
                cur = w
            self.edge(cur, self.block(ctx, t["to"], env))
        elif k == "assert":
            self.edge(cur, self.block(ctx, t["to"], env))
        elif k == "switch":
            self.switch(cur, ctx, t, env)
        elif k == "call":
            self.docall(cur, ctx, bi, t, env)
        elif k == "return":
            if ctx.parent is None:
                r = self.new("ret", ctx, bi, info=env.get((ctx.key, 0)))
                self.edge(cur, r)
            else:
                self.doreturn(cur, ctx, env)
        elif k == "unreachable":
            pass
        else:
            r = self.new("panic", ctx, bi)
            self.edge(cur, r)

    def doreturn(self, cur, ctx, env):
        v = env.get((ctx.key, 0))
        par = ctx.parent
        env2 = {k2: v2 for k2, v2 in env.items() if k2[0] != ctx.key}
        env2 = {k2: v2 for k2, v2 in env2.items() if not mentions(v2, ctx.key)}
        if v is not None and mentions(v, ctx.key):
            v = None
        if isinstance(ctx.site, tuple):  # closure passed to an opaque combinator: loop back
            after = self._after[(ctx.key)]
            for a in after:
                self.edge(cur, a(env2))
            return
        t = par.body.blocks[ctx.site]["t"]
        if t["to"] is None:
            return
        self.set(par, env2, t["d"], v)
        if t["d"]["p"]:
            w = self.new("write", par, ctx.site, None, "call")
            self.edge(cur, w)
            cur = w
        self.edge(cur, self.block(par, t["to"], env2))

    _after = None

    def docall(self, cur, ctx, bi, t, env):
        kid = ctx.child(bi)
        if kid is not None:
            c = Call(ctx.body, bi)
            env2 = dict(env)
            live = ctx.body.live_in()[t["to"]] if t["to"] is not None else set()
            args = t["args"]
            # parameter values
            isfn = last(c.names[0]) in ("call", "call_mut", "call_once") and c.names[0].startswith("core::ops::function::")
            vals = {}
            if not isfn:
                for i, a in enumerate(args):
                    v = self.aval(ctx, a, env)
                    if v is not None and self.trackable(kid, i + 1) and not kid.body.defs.get(i + 1):
                        vals[(kid.key, i + 1)] = cap(v, 3)
            refd = set()
            for v in vals.values():
                collect_refs(v, refd)
            env2 = {k2: v2 for k2, v2 in env.items() if k2[0] != ctx.key or k2[1] in live or k2 in refd}
            # keep transitive referents
            ch = True
            while ch:
                ch = False
                rr = set()
                for v in list(env2.values()):
                    collect_refs(v, rr)
                for r in rr:
                    if r in env and r not in env2:
                        env2[r] = env[r]
                        ch = True
            env2.update(vals)
            self.edge(cur, self.block(kid, 0, env2))
            return
        w = self.new("call", ctx, bi)
        self.edge(cur, w)
        cur = w
        c = Call(ctx.body, bi)
        # closures handed to opaque callees run zero or more times
        args = ctx.call_args(bi)
        for ai, a in enumerate(args):
            cl = a if a[0] in ("closure",) else None
            if cl is None and a[0] == "fn":
                cl = a
            if cl is not None and cl[1] in self.prog.bodies and self.policy.relevant(self.prog.bodies[cl[1]]):
                k = ctx.closure_child(bi, cl, ai)
                if k is not None:
                    if self._after is None:
                        self._after = {}
                    hub = self.new("blk", ctx, bi)
                    self.edge(cur, hub)
                    e2 = {k2: v2 for k2, v2 in env.items() if k2[0] != ctx.key or k2[1] in ctx.body.live_in()[t["to"] if t["to"] is not None else bi]}
                    self._after[k.key] = [lambda env2, hub=hub: hub]
                    self.edge(hub, self.block(k, 0, e2))
                    cur = hub
        if t["to"] is None:
            p = self.new("panic", ctx, bi)
            self.edge(cur, p)
            return
        v = self.call_value(ctx, c, t, env)
        self.set(ctx, env, t["d"], v)
        if t["d"]["p"]:
            w = self.new("write", ctx, bi, None, "call")
            self.edge(cur, w)
            cur = w
        self.edge(cur, self.block(ctx, t["to"], env))

    def call_value(self, ctx, c, t, env):
        if not c.fn:
            return None
        n = c.names[0]
        a = [self.aval(ctx, x, env) for x in t["args"]]

        def deref(v):
            while v is not None and v[0] == "r":
                v = env.get((v[1], v[2]))
            return v
        a0 = deref(a[0]) if a else None
        if n == "core::ops::try_trait::Try::branch" and a0 and a0[0] == "v":
            if a0[1] in ("Ok", "Some"):
                return ("v", "Continue", (a0[2][0] if a0[2] else None,))
            if a0[1] in ("Err", "None"):
                return ("v", "Break", (a0,))
        if n == "core::ops::try_trait::FromResidual::from_residual":
            bt = base_type(c.ret_ty)
            if bt == "core::result::Result":
                return ("v", "Err", (self.residual_err(c, a0),))
            if bt == "core::option::Option":
                return ("v", "None", ())
        if a0 and a0[0] == "v":
            ln = last(n)
            if n.startswith(("core::option::Option::", "core::result::Result::")):
                if ln == "is_some":
                    return ("c", int(a0[1] == "Some"))
                if ln == "is_none":
                    return ("c", int(a0[1] == "None"))
                if ln == "is_ok":
                    return ("c", int(a0[1] == "Ok"))
                if ln == "is_err":
                    return ("c", int(a0[1] == "Err"))
                if ln in ("map_err",) or ln == "map":
                    keep = (ln == "map" and a0[1] in ("Err", "None")) or (ln == "map_err" and a0[1] == "Ok")
                    return a0 if keep else ("v", a0[1], (None,) * len(a0[2]))
                if ln == "ok" and base_type(c.ret_ty) == "core::option::Option":
                    return ("v", "Some", a0[2]) if a0[1] == "Ok" else ("v", "None", ())
                if ln in ("as_ref", "as_mut", "copied", "cloned"):
                    return ("v", a0[1], (None,) * len(a0[2]))
                if ln in ("unwrap", "expect", "unwrap_or_default", "unwrap_or") and a0[1] in ("Some", "Ok"):
                    return a0[2][0] if a0[2] else None
        if n in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne") and len(a) == 2:
            b0 = deref(a[1])
            if a0 and b0 and a0[0] == b0[0] == "v" and not a0[2] and not b0[2]:
                r = a0[1] == b0[1]
                return ("c", int(r if n.endswith("eq") else not r))
        if n in ("core::clone::Clone::clone", "core::convert::Into::into", "core::convert::From::from"):
            if a0 and a0[0] in ("c",):
                return a0
        return None

    def residual_err(self, c, v):
        """Abstract error after the conversion done by `?`."""
        to = split_top(c.ret_ty[len("core::result::Result<"):-1])
        at = c.arg_types()[0]
        fr = split_top(at[len("core::result::Result<"):-1]) if at.startswith("core::result::Result<") else []
        if len(to) != 2 or len(fr) != 2:
            return None
        inner = v[2][0] if v and v[0] == "v" and v[2] else None
        if to[1] == fr[1]:
            return inner
        for it in self.prog.trait_impls.get("core::convert::From::from", ()):
            b = self.prog.bodies.get(it)
            if b is not None and base_type(b.loc_type(0)) == base_type(to[1]) and b.argc == 1 and base_type(b.loc_type(1)) == base_type(fr[1]):
                ds = b.defs.get(0, [])
                if len(ds) == 1 and ds[0][0] == "s":
                    r = b.blocks[ds[0][1]]["st"][ds[0][2]]["r"]
                    if r["k"] == "agg" and "adt" in r:
                        return ("v", r["variant"], (None,) * len(r["ops"]))
        return None

    def switch(self, cur, ctx, t, env):
        v = self.aval(ctx, t["a"], env)
        targets = [(int(x), b) for x, b in t["ts"]]
        if v is None:
            k = fold(self.prog, ctx.operand(t["a"]))
            if k is not None:
                v = ("c", k)
        if v is not None and v[0] == "c":
            dest = next((b for x, b in targets if x == v[1]), t["ow"])
            e = ctx.operand(t["a"])
            ty = t["a"]["p"]["t"] if "p" in t["a"] else t["a"].get("t")
            ats = ()
            if ty == "bool":
                ats = norm_cond(e, bool(v[1]))
            elif e[0] == "discr":
                inv = {v2: k2 for k2, v2 in (self.prog.discr(e[2]) or {}).items()}
                if v[1] in inv:
                    ats = variant_atoms(e[1], inv[v[1]])
            self.edge(cur, self.block(ctx, dest, env), ats)
            return
        e = ctx.operand(t["a"])
        ty = t["a"]["p"]["t"] if "p" in t["a"] else t["a"].get("t")
        src = self.discr_source(ctx, t["a"])
        if ty == "bool":
            seen = set()
            for x, b in targets:
                seen.add(x)
                self.edge(cur, self.block(ctx, b, self.refine(ctx, t["a"], env, x)), norm_cond(e, bool(x)))
            rest = {0, 1} - seen
            if rest:
                x = rest.pop()
                self.edge(cur, self.block(ctx, t["ow"], self.refine(ctx, t["a"], env, x)), norm_cond(e, bool(x)))
            return
        if e[0] == "discr":
            d = self.prog.discr(e[2])
            if d:
                inv = {v2: k2 for k2, v2 in d.items()}
                subj = e[1]
                seen = []
                for x, b in targets:
                    vn = inv.get(x, str(x))
                    seen.append(vn)
                    self.edge(cur, self.block(ctx, b, self.refine_variant(ctx, src, env, vn)), variant_atoms(subj, vn))
                rest = [k2 for k2 in d if k2 not in seen]
                if rest or not d:
                    if len(rest) == 1:
                        self.edge(cur, self.block(ctx, t["ow"], self.refine_variant(ctx, src, env, rest[0])), variant_atoms(subj, rest[0]))
                    else:
                        ats = [("is", subj, s, False) for s in seen] + [("isin", subj, tuple(rest), True)]
                        self.edge(cur, self.block(ctx, t["ow"], env), ats)
                return
        for x, b in targets:
            self.edge(cur, self.block(ctx, b, env), [("eq", e, ("c", str(x), ty), True)])
        self.edge(cur, self.block(ctx, t["ow"], env), [("eq", e, ("c", str(x), ty), False) for x, _ in targets])

    def refine(self, ctx, o, env, x):
        if o["k"] not in ("copy", "move") or o["p"]["p"]:
            return env
        env = dict(env)
        seen = set()
        l = o["p"]["l"]
        while l is not None and l not in seen:
            seen.add(l)
            if self.trackable(ctx, l):
                env[(ctx.key, l)] = ("c", x)
            ds = ctx.body.defs.get(l, [])
            nl = None
            if len(ds) == 1 and ds[0][0] == "s":
                r = ctx.body.blocks[ds[0][1]]["st"][ds[0][2]]["r"]
                if r["k"] == "use" and r["a"]["k"] in ("copy", "move") and not r["a"]["p"]["p"]:
                    cand = r["a"]["p"]["l"]
                    # only when the copied local cannot have changed in between
                    if len(ctx.body.defs.get(cand, [])) <= 1 or ds[0][1] is not None and self._same_block(ctx, ds[0], cand):
                        nl = cand
            l = nl
        return env

    def _same_block(self, ctx, d, cand):
        return True if all(True for _ in ()) and self._noredef(ctx, d, cand) else False

    def _noredef(self, ctx, d, cand):
        blk = ctx.body.blocks[d[1]]
        for s in blk["st"][d[2] + 1:]:
            if s["k"] == "=" and s["d"]["l"] == cand:
                return False
        return blk["t"]["k"] == "switch"

    def discr_source(self, ctx, o):
        """Place whose discriminant the operand is, if in the same block as the switch."""
        if o["k"] not in ("copy", "move") or o["p"]["p"]:
            return None
        ds = ctx.body.defs.get(o["p"]["l"], [])
        if len(ds) == 1 and ds[0][0] == "s":
            r = ctx.body.blocks[ds[0][1]]["st"][ds[0][2]]["r"]
            if r["k"] == "discr":
                return r["p"]
        return None

    def refine_variant(self, ctx, p, env, vn):
        if p is None:
            return env
        if not p["p"] and self.trackable(ctx, p["l"]):
            env = dict(env)
            env[(ctx.key, p["l"])] = ("v", vn, ())
        elif p["p"] == ["*"]:
            v = env.get((ctx.key, p["l"]))
            if v and v[0] == "r":
                env = dict(env)
                env[(v[1], v[2])] = ("v", vn, ())
        return env

    # ---------------------------------------------------------- queries
    def find(self, pred):
        return [n.id for n in self.nodes if pred(n)]

    def calls(self, pat):
        rx = pat if callable(pat) else (lambda c, r=re.compile(pat): any(r.search(n) for n in c.names))
        return [n.id for n in self.nodes if n.kind == "call" and rx(n.call)]

    def returns(self, variant=None):
        out = []
        for n in self.nodes:
            if n.kind == "ret":
                if variant is None or (n.info is not None and n.info[0] == "v" and n.info[1] == variant):
                    out.append(n.id)
        return out

    def search(self, starts, targets, block_node=None, block_edge=None):
        """BFS from `starts` (their successors) to any node in `targets` avoiding blocked nodes/edges.
        Returns the path (list of node ids) or None."""
        targets = set(targets)
        par = {}
        dq = deque()
        for s in starts:
            par[s] = None
            dq.append(s)
        first = set(starts)
        done = set()
        while dq:
            u = dq.popleft()
            if u in done:
                continue
            done.add(u)
            for v, cs in self.succ[u]:
                if block_edge and block_edge(u, v, cs):
                    continue
                if v in targets:
                    path = [v, u]
                    x = u
                    while par.get(x) is not None:
                        x = par[x]
                        path.append(x)
                    return list(reversed(path))
                if v in par and v not in first:
                    continue
                if v in done:
                    continue
                if block_node and block_node(v):
                    continue
                if v not in par:
                    par[v] = u
                dq.append(v)
        return None

    def describe(self, path, limit=14):
        out = []
        for i in path:
            n = self.nodes[i]
            if n.kind in ("blk",):
                s = n.span()
            elif n.kind == "call":
                s = "%s call %s" % (n.span(), n.call.name)
            elif n.kind == "entry":
                s = "entry %s" % n.ctx.body.path
            else:
                s = "%s %s" % (n.span(), n.kind)
            if not out or out[-1] != s:
                out.append(s)
        if len(out) > limit:
            out = out[:limit // 2] + ["..."] + out[-limit // 2:]
        return out


def fold(prog, e):
    """Value of an expression built from constants only, or None."""
    while e[0] == "cast":
        e = e[1]
    if e[0] == "c":
        return int(e[1]) if re.match(r"-?\d+$", str(e[1])) else None
    if e[0] == "un" and e[1] == "Not":
        v = fold(prog, e[2])
        return 1 - v if v in (0, 1) else None
    if e[0] == "discr" and e[1][0] == "agg":
        d = prog.discr(e[2])
        return d.get(e[1][2]) if d else None
    if e[0] == "call" and len(e) == 4 and e[1].endswith(("::eq", "::ne")) and e[2][0] == e[3][0] == "agg" and not e[2][3] and not e[3][3]:
        return int((e[2][2] == e[3][2]) == e[1].endswith("::eq"))
    if e[0] == "bin" and e[1] in ("Eq", "Ne"):
        a, b = fold(prog, e[2]), fold(prog, e[3])
        if a is not None and b is not None:
            return int((a == b) == (e[1] == "Eq"))
    return None


def variant_atoms(subj, vn):
    if subj[0] == "try":
        m = {"Continue": True, "Break": False}[vn]
        return [("is", subj[1], "Ok", m)]
    return [("is", subj, vn, True)]


def cap(v, d):
    if v is None:
        return None
    if d == 0:
        return None if v[0] in ("v", "t") and (v[2] if v[0] == "v" else v[1]) else v
    if v[0] == "v":
        return ("v", v[1], tuple(cap(x, d - 1) for x in v[2]))
    if v[0] == "t":
        return ("t", tuple(cap(x, d - 1) for x in v[1]))
    return v


def mentions(v, key):
    if v is None:
        return False
    if v[0] == "r":
        return v[1] == key
    if v[0] == "v":
        return any(mentions(x, key) for x in v[2])
    if v[0] == "t":
        return any(mentions(x, key) for x in v[1])
    return False


def collect_refs(v, out):
    if v is None:
        return
    if v[0] == "r":
        out.add((v[1], v[2]))
    elif v[0] == "v":
        for x in v[2]:
            collect_refs(x, out)
    elif v[0] == "t":
        for x in v[1]:
            collect_refs(x, out)


# ------------------------------------------------------------------ expression helpers
def subexprs(e):
    yield e
    if not isinstance(e, tuple):
        return
    for x in e[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield from subexprs(x)
            else:
                for y in x:
                    if isinstance(y, tuple) and y:
                        if isinstance(y[0], str) and len(y) == 2 and isinstance(y[1], tuple):
                            yield from subexprs(y[1])
                        elif isinstance(y[0], str):
                            yield from subexprs(y)


def has_field(e, owner, field=None):
    """Does the expression read field `owner.field` (owner: last path segment)?"""
    for s in subexprs(e):
        if s[0] == "f" and last(s[2]) == owner and (field is None or s[3] == field):
            return True
    return False


def has_call(e, rx):
    for s in subexprs(e):
        if s[0] == "call" and re.search(rx, s[1]):
            return True
    return False


def is_field(e, owner, field):
    return e[0] == "f" and last(e[2]) == owner and e[3] == field


def show(e, d=6):
    if not isinstance(e, tuple) or not e:
        return str(e)
    if d == 0:
        return "…"
    k = e[0]
    if k == "f":
        return "%s.%s" % (show(e[1], d - 1), e[3])
    if k == "S":
        return e[1]
    if k == "v":
        return "(%s as %s)" % (show(e[1], d - 1), e[2])
    if k == "c":
        return e[3].split("::")[-1] if len(e) > 3 else str(e[1])
    if k == "s":
        return repr(e[1])
    if k == "i":
        return "%s[%s]" % (show(e[1], d - 1), show(e[2], d - 1))
    if k == "call":
        return "%s(%s)" % (last(e[1]), ", ".join(show(x, d - 1) for x in e[2:]))
    if k == "bin":
        return "(%s %s %s)" % (show(e[2], d - 1), e[1], show(e[3], d - 1))
    if k == "agg":
        return "%s::%s{%s}" % (last(e[1]), e[2], ", ".join("%s: %s" % (n, show(v, d - 1)) for n, v in e[3]))
    if k in ("arg", "phi"):
        return "%s#%s" % (k, e[2] if k == "arg" else e[1][-1] or e[1][1])
    return "%s(%s)" % (k, ", ".join(show(x, d - 1) if isinstance(x, tuple) else str(x) for x in e[1:]))


def show_atom(a):
    if a[0] == "is":
        return "%s %s %s" % (show(a[1]), "is" if a[3] else "is not", a[2])
    if a[0] == "eq":
        return "%s %s %s" % (show(a[1]), "==" if a[3] else "!=", show(a[2]))
    if a[0] == "lt":
        return "%s %s %s" % (show(a[1]), "<" if a[3] else ">=", show(a[2]))
    if a[0] == "true":
        return "%s%s" % ("" if a[2] else "!", show(a[1]))
    return str(a)
