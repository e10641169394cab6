"""Helpers shared by the rules."""
import re
from .ir import *

LIBS = ("varisat", "varisat_checker", "varisat_dimacs", "varisat_formula", "varisat_internal_proof", "varisat_lrat")
ALL = LIBS + ("varisat-bin",)


def cname(prog):
    return sorted({b.crate for b in prog.bodies.values()})


def spine(e):
    """e and the chain of places it is a part of."""
    while isinstance(e, tuple) and e:
        yield e
        if e[0] in ("f", "v", "i", "sub", "elem", "ok", "err", "next", "try", "cast", "discr"):
            e = e[1]
        elif e[0] == "call" and len(e) > 2:
            e = e[2]
        else:
            return


def fld(owner, field):
    return lambda x: x[0] == "f" and last(x[2]) == owner and x[3] == field


def on_spine(e, owner, field):
    f = fld(owner, field)
    return any(f(x) for x in spine(e))


def node_dest(n):
    """Place expression written by a write node."""
    if n.info == "call":
        return n.ctx.place(n.ctx.body.blocks[n.bi]["t"]["d"])
    return n.ctx.place(n.ctx.body.blocks[n.bi]["st"][n.si]["d"])


def node_val(n):
    if n.info == "call":
        return n.ctx.callexpr(n.bi)
    return n.ctx.rvalue(n.ctx.body.blocks[n.bi]["st"][n.si]["r"])


def writes(g, owner, field):
    """Nodes that store to owner.field (or into it)."""
    return [n.id for n in g.nodes if n.kind == "write" and on_spine(node_dest(n), owner, field)]


def mut_args(n):
    """(index, expr) of arguments passed as &mut at a call node."""
    c = n.call
    tys = c.arg_types()
    return [(i, e) for i, (t, e) in enumerate(zip(tys, n.args())) if t.startswith("&mut ") or re.match(r"&'\w+ mut ", t)]


def touches(g, owner, field, calls=True):
    """Write nodes and calls taking &mut access to owner.field."""
    out = writes(g, owner, field)
    if calls:
        for n in g.nodes:
            if n.kind == "call" and any(on_spine(e, owner, field) for _, e in mut_args(n)):
                out.append(n.id)
    return out


READS = re.compile(r"^(core::iter::|core::slice::|core::option::|core::result::|core::ops::(deref|index|function)|core::fmt)|::(into_iter|iter|iter_mut|len|deref|deref_mut|as_\w+)$")
SLICEMUT = re.compile(r"::(swap|reverse|sort\w*|rotate\w*|fill\w*|copy_from_slice|clone_from_slice|copy_within)$")


def changes(g, owner, field):
    """Stores to owner.field and calls that can change the collection itself (not just run over it)."""
    out = writes(g, owner, field)
    for n in g.nodes:
        if n.kind == "call" and n.call.names and (not READS.search(n.call.names[0]) or SLICEMUT.search(n.call.names[0])):
            if any(on_spine(e, owner, field) for _, e in mut_args(n)):
                out.append(n.id)
    return out


def root_ctx(prog, body, policy=None):
    """Context of a body on its own; a closure sees its captures as expressions of its owner."""
    policy = policy or Policy(prog, small=0)
    if not body.is_closure:
        return Ctx(prog, body, policy)
    own = prog.bodies.get(body.raw["closure_of"])
    if own is None:
        return Ctx(prog, body, policy)
    oc = root_ctx(prog, own, policy)
    for b in own.blocks:
        for s in b["st"]:
            if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("closure") == body.id:
                args = [oc.rvalue(s["r"])] + [("elem", ("other",))] * 6
                return Ctx(prog, body, policy, args=args)
    return Ctx(prog, body, policy)


class Site:
    """A program point outside an exploded graph."""
    def __init__(self, ctx, bi, si, kind, dest=None, val=None, ai=None):
        self.ctx, self.bi, self.si, self.kind, self.dest, self.val, self.ai = ctx, bi, si, kind, dest, val, ai

    @property
    def body(self):
        return self.ctx.body

    def span(self):
        return self.ctx.body.span(self.bi, self.si)

    @property
    def call(self):
        return Call(self.ctx.body, self.bi)


def all_ctx(prog, crates=None, policy=None):
    cache = prog.__dict__.setdefault("_allctx", {})
    k = (crates, policy is None)
    if policy is None and k in cache:
        return cache[k]
    out = [root_ctx(prog, b, policy) for b in prog.local_fns(crates)]
    if policy is None:
        cache[k] = out
    return out


def live_blocks(body):
    for bi, b in enumerate(body.blocks):
        if not b["cu"]:
            yield bi, b


def whole_sites(prog, owner):
    """Replacement of a whole context component: `*ctx.part_mut(P) = ..`, mem::replace/take/swap on it."""
    out = []
    S = ("S", owner)
    for cx in all_ctx(prog):
        body = cx.body
        for bi, b in live_blocks(body):
            for si, s in enumerate(b["st"]):
                if s["k"] == "=" and s["d"]["p"] and s["d"]["p"][-1] == "*" or \
                        s["k"] == "=" and s["d"]["p"] and s["d"]["p"][-1] != "*" and s["d"]["p"][-1]["k"] == "f":
                    d = cx.place(s["d"])
                    if d == S:
                        out.append(Site(cx, bi, si, "write", d, cx.rvalue(s["r"])))
            t = b["t"]
            if t["k"] == "call":
                if t["d"]["p"] and cx.place(t["d"]) == S:
                    out.append(Site(cx, bi, None, "write", S, cx.callexpr(bi)))
                c = Call(body, bi)
                if c.names and c.names[0].startswith("core::mem::"):
                    for i, e in enumerate(cx.call_args(bi)):
                        if e == S:
                            out.append(Site(cx, bi, None, "call", e, None, i))
    return out


def mut_sites(prog, owner, field, crates=None):
    """Every store to owner.field and every &mut borrow of it handed to a call, program-wide."""
    out = []
    for cx in all_ctx(prog, crates):
        body = cx.body
        for bi, b in live_blocks(body):
            for si, s in enumerate(b["st"]):
                if s["k"] == "=" and s["d"]["p"]:
                    d = cx.place(s["d"])
                    if on_spine(d, owner, field):
                        out.append(Site(cx, bi, si, "write", d, cx.rvalue(s["r"])))
            t = b["t"]
            if t["k"] == "call":
                if t["d"]["p"]:
                    d = cx.place(t["d"])
                    if on_spine(d, owner, field):
                        out.append(Site(cx, bi, None, "write", d, cx.callexpr(bi)))
                c = Call(body, bi)
                for i, (ty, e) in enumerate(zip(c.arg_types(), cx.call_args(bi))):
                    if (ty.startswith("&mut ") or re.match(r"&'\w+ mut ", ty)) and on_spine(e, owner, field):
                        out.append(Site(cx, bi, None, "call", e, None, i))
    return out


def const_val(e):
    """Integer/bool constant value of an expression or None."""
    while e[0] == "cast":
        e = e[1]
    if e[0] == "c":
        try:
            return int(e[1])
        except ValueError:
            return None
    return None


def is_variant(e, variant):
    """Is the expression a construction of the given enum variant?"""
    return e[0] == "agg" and e[2] == variant


def pub_methods(prog, self_ty, crate=None):
    """Public functions of a type: inherent pub fns and trait impl methods."""
    out = []
    for b in prog.local_fns():
        if b.is_closure or b.is_promoted:
            continue
        if base_type(b.self_ty or "") == self_ty and (b.raw.get("public") or b.trait):
            out.append(b)
    return out


def edge_is(pred_subj, variant):
    """Edge predicate: some atom says subject (satisfying pred) IS `variant`."""
    return lambda at: atom_is(at, variant) == 1 and pred_subj(at[1])


def edge_true(pred, val=True):
    """Edge predicate: boolean expression satisfying pred has the value val."""
    return lambda at: at[0] == "true" and at[2] == val and pred(at[1])


# ------------------------------------------------------------------ path helpers
def avoid_path(g, starts, targets, nodes=(), edge=None):
    """A path from starts to targets that avoids the given nodes and edges, or None."""
    nodes = set(nodes)
    be = None
    if edge is not None:
        def be(u, v, cs):
            return any(edge(c) for c in cs)
    return g.search(list(starts), list(targets), block_node=lambda v: v in nodes, block_edge=be)


def unpaired(g, sink, partners, exits, edge=None):
    """A path entry -> sink -> exit that meets none of `partners` (before or after), or None."""
    p1 = avoid_path(g, [g.entry], [sink], partners, edge)
    if p1 is None:
        return None
    p2 = avoid_path(g, [sink], exits, partners, edge)
    if p2 is None:
        return None
    return p1 + p2[1:]


def rets(g):
    return [n.id for n in g.nodes if n.kind == "ret"]


def solver_api(prog):
    out = {}
    for b in pub_methods(prog, "varisat::solver::Solver"):
        out[b.name] = b
    if len(out) < 15:
        raise Missing("public methods of Solver: only %d found" % len(out))
    return out


def field_by_type(prog, adt, rx):
    """Name of the unique field of a struct whose type matches."""
    a = prog.adt(adt)
    r = [f["name"] for f in a["variants"][0]["fields"] if re.search(rx, strip_generics(f["ty"]) if False else f["ty"])]
    if len(r) != 1:
        raise Missing("field of %s with type /%s/: %s" % (adt, rx, r))
    return r[0]


def has_fld(e, owner, field):
    return has_field(e, owner, field)


def lifted(prog, body, test, depth=3, is_root=lambda b: False):
    """Decide an obligation of a helper in its callers if it cannot be decided in the helper itself:
    `test(body)` returns None (holds) or a witness."""
    w = test(body)
    if w is None or depth == 0:
        return w
    cs = [prog.bodies[i] for i in prog.callers().get(body.id, ())]
    cs = [prog.owner_fn(c) if c.is_closure else c for c in cs]
    cs = [c for c in {c.id: c for c in cs}.values() if c.id != body.id]
    if not cs or body.raw.get("public") and is_root(body):
        return w
    for c in cs:
        x = lifted(prog, c, test, depth - 1, is_root)
        if x is not None:
            return w
    return None


# ------------------------------------------------------------------ effect classification of resolved callees
TESTGEN = re.compile(r"^varisat_formula::(test|cnf::strategy|lit::strategy|.*::strategy)\b|proptest")


def lib_bodies(prog, crates=LIBS):
    """Bodies of the library crates, proptest strategies for downstream tests excepted."""
    for b in prog.bodies.values():
        if b.crate in crates and not TESTGEN.search(b.path):
            yield b


def callee_names(b):
    """(block, names, span) of every function mentioned by a body: called or passed as a value."""
    for bi, blk in enumerate(b.blocks):
        for s in blk["st"]:
            if s["k"] == "=":
                for o in [s["r"].get("a"), s["r"].get("b")] + list(s["r"].get("ops", [])):
                    if isinstance(o, dict) and "fn" in o:
                        yield bi, fn_names(o["fn"]), "%s:%d" % (s["s"]["f"], s["s"]["l"])
        t = blk["t"]
        if t["k"] == "call":
            if t["f"]["k"] == "const" and "fn" in t["f"]:
                yield bi, fn_names(t["f"]["fn"]), b.span(bi)
            for a in t["args"]:
                if "fn" in a:
                    yield bi, fn_names(a["fn"]), b.span(bi)


def fn_names(fn):
    r = [strip_generics(fn["path"])]
    if "rpath" in fn:
        r.append(strip_generics(fn["rpath"]))
    return r


def paths_in(name):
    return re.findall(r"[A-Za-z_]\w*(?:::[A-Za-z_]\w*)+", name)


# ------------------------------------------------------------------ loops over collections
PARTIAL_ITER = re.compile(r"::(skip|take|step_by|skip_while|take_while|filter|filter_map|nth|rposition|split_first|split_last|first|last|chunks\w*|windows|get|peek\w*|map_while)$")


def iter_sources(e):
    """Collections an iterator expression runs over completely (adapters that drop elements excluded)."""
    if e[0] == "call":
        n = e[1]
        if PARTIAL_ITER.search(n):
            return []
        if last(n) == "chain":
            return iter_sources(e[2]) + iter_sources(e[3])
        if len(e) > 2:
            return iter_sources(e[2])
        return []
    if e[0] == "cast":
        return iter_sources(e[1])
    if e[0] in ("sub", "i"):
        return []
    return [e]


class Loop:
    """A loop over all elements of a collection: `starts` begin the body, `heads` the next iteration,
    `done` recognises the edge or node after the last element."""
    def __init__(self, g, it, starts, heads, done_edges, done_nodes):
        self.g, self.it, self.starts, self.heads = g, it, starts, heads
        self.done_edges, self.done_nodes = done_edges, done_nodes


def loops_over(g, pred):
    """Loops whose iterator covers a collection satisfying pred."""
    out = []
    heads = {}
    for n in g.nodes:
        if n.kind != "call" or not n.call.names:
            continue
        nm = n.call.names[0]
        if nm == "core::iter::traits::iterator::Iterator::next":
            it = n.args()[0]
            if any(pred(s) for s in iter_sources(it)):
                heads.setdefault(it, []).append(n.id)
        elif last(nm) in ("for_each", "try_for_each"):
            it = n.args()[0]
            if any(pred(s) for s in iter_sources(it)):
                hubs = [v for v, _ in g.succ[n.id]]
                st = [v for h in hubs for v, _ in g.succ[h] if g.nodes[v].ctx is not n.ctx]
                out.append(Loop(g, it, st, hubs, set(), set(hubs)))
    for it, hs in heads.items():
        starts, done = [], set()
        for u in range(len(g.nodes)):
            for v, cs in g.succ[u]:
                for c in cs:
                    if c[0] == "is" and c[1] == ("next", it):
                        k = atom_is(c, "Some")
                        if k == 1:
                            starts.append(v)
                        elif k == -1:
                            done.add((u, v))
        out.append(Loop(g, it, starts, hs, done, set()))
    return out


def each_elem(g, loop, events, exits):
    """A path through one iteration that performs none of the events, or None."""
    ev = set(events)
    starts = [s for s in loop.starts if s not in ev]
    return g.search(starts, list(loop.heads) + list(exits), block_node=lambda v: v in ev)


def search_edges(g, starts, targets, block_node=None, edges=(), edge=None):
    """Path search avoiding specific edges (u, v)."""
    es = set(edges)
    return g.search(list(starts), list(targets), block_node=block_node,
                    block_edge=lambda u, v, cs: (u, v) in es or (edge is not None and any(edge(c) for c in cs)))


def completes(g, loops, starts, targets, edge=None):
    """A path from starts to targets that does not run one of the loops to its end, or None."""
    es, ns = set(), set()
    for l in loops:
        es |= l.done_edges
        ns |= l.done_nodes
    return search_edges(g, starts, targets, lambda v: v in ns, es, edge)


# ------------------------------------------------------------------ integer widths
NARROW = ("u8", "u16", "i8", "i16")


def narrow_sites(prog, bodies):
    """Counters kept in 8 or 16 bit integers and wider integers cut down to them: (body, block, statement, text)."""
    out = []
    for b in bodies:
        if b.derived:
            continue
        for bi, blk in live_blocks(b):
            for si, s in enumerate(blk["st"]):
                if s["k"] != "=":
                    continue
                rv = s["r"]
                if rv["k"] == "bin" and rv["op"][:3] in ("Add", "Sub", "Mul"):
                    for x in (rv["a"], rv["b"]):
                        if x["k"] in ("copy", "move") and x["p"]["t"] in NARROW and same_slot(b, s["d"], x["p"]):
                            out.append((b, bi, si, "a counter of type %s" % x["p"]["t"]))
                elif rv["k"] == "cast" and rv["c"] == "IntToInt" and rv["t"] in NARROW and rv["a"]["k"] in ("copy", "move") and rv["a"]["p"]["t"] in ("usize", "u64", "u32", "isize", "i64", "i32", "u128"):
                    out.append((b, bi, si, "a conversion from %s to %s" % (rv["a"]["p"]["t"], rv["t"])))
    return out


def same_slot(b, d, p):
    if d["l"] == p["l"] and d["p"] == p["p"]:
        return True
    # through a temporary: t = Add(copy slot, 1); slot = t
    if not d["p"]:
        for blk in b.blocks:
            for s in blk["st"]:
                if s["k"] == "=" and s["r"]["k"] == "use" and s["r"].get("a", {}).get("k") in ("copy", "move") and s["r"]["a"]["p"]["l"] == d["l"] and not s["r"]["a"]["p"]["p"] \
                        and s["d"]["l"] == p["l"] and s["d"]["p"] == p["p"]:
                    return True
    return False


def narrow(prog, r, bodies, key, what, casts=True):
    n = 0
    for b, bi, si, text in narrow_sites(prog, bodies):
        if not casts and text.startswith("a conversion"):
            continue
        n += 1
        r.fail("%s/%s" % (key, b.path), "%s uses %s at %s: %s" % (b.name, text, b.span(bi, si), what))
    if not n:
        r.ok(key, "no counter is kept in less than 32 bits")


def widths(prog, r, *prefixes):
    """Counters of these modules are at least 32 bits wide."""
    r.rule("counters do not wrap around at 8 or 16 bits")
    narrow(prog, r, [b for b in prog.bodies.values() if b.path.startswith(prefixes)], "width", "a large input makes it wrap around", casts=False)
