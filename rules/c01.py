"""C01 — proof output and processor failures always reach the caller."""
from vlib.common import *

EXPLANATION = ("Result-flow over the MIR of every function: an error returned by a fallible call (or received as a parameter) must be returned, stored, "
               "converted or (in the tool only) logged on every path. Exploded graphs of solve/close_proof/the CLI show that success returns cross "
               "the flush and, after the last fallible event, the test that no error is pending.")
ERR = r"io::error::Error|anyhow::|failure::|CheckerError|SolverError|ParserError|ConfigUpdateError|dyn .*Error"
SWALLOW = {"ok", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "or", "or_else", "is_ok", "is_err", "is_ok_and", "is_err_and", "map_or",
           "map_or_else", "iter", "into_iter", "flatten", "err", "drop", "forget"}
FMT = re.compile(r"^(core::fmt|alloc::fmt|log::|std::io::stdio|core::mem::(drop|forget)|<core::fmt)")


def err_result(ty):
    bt = base_type(ty)
    if bt != "core::result::Result" or not ty.startswith("core::result::Result<"):
        return False
    a = split_top(ty[len("core::result::Result<"):-1])
    return len(a) == 2 and bool(re.search(ERR, a[1]))


def carriers(cx, bi, param=None):
    """Expressions and locals that hold the error produced by a call (or received as a parameter)."""
    body = cx.body
    if param is None:
        out = {cx.callexpr(bi)}
        d = body.blocks[bi]["t"]["d"]
        if d["p"]:
            return out, None
    else:
        out, d = {cx.local(param)}, {"l": param}
    ls, work = {d["l"]}, [d["l"]]

    def from_l(o, l):
        return o["k"] in ("move", "copy") and o["p"]["l"] == l and not any(
            x != "*" and x["k"] == "d" and x["v"] in ("Ok", "Continue", "Some") for x in o["p"]["p"])
    while work:
        l = work.pop()
        out.add(cx.local(l))
        for _, b in live_blocks(body):
            for s in b["st"]:
                if s["k"] != "=" or s["d"]["p"] or s["d"]["l"] in ls:
                    continue
                q = s["r"]
                if q["k"] == "use" and from_l(q["a"], l) or q["k"] == "agg" and q.get("variant") == "Err" and any(from_l(o, l) for o in q["ops"]):
                    ls.add(s["d"]["l"])
                    work.append(s["d"]["l"])
    return out, ls


def result_flow(prog, r):
    n = 0
    for b in prog.local_fns():
        if b.trait and b.trait.endswith("Drop") or b.name == "drop" or b.derived:
            continue
        sites = [c for c in b.calls() if err_result(c.ret_ty) and not c.names[0:1] == ("core::ops::try_trait::FromResidual::from_residual",)
                 and not b.blocks[c.bi]["cu"]]
        params = [i for i in range(b.argc) if err_result(b.loc_type(i + 1))]
        if not sites and not params:
            continue
        r.saw(b)
        pol = Policy(prog, small=0, max_depth=0, stmt=lambda s: s["d"]["l"] == 0 and not s["d"]["p"])
        pol.see_through = lambda *a: False
        g = Graph(prog, b, pol, root_args=root_ctx(prog, b, pol).args)
        for c in sites + params:
            n += 1
            if isinstance(c, int):
                key = "consumed/%s/parameter" % b.path
                starts = [g.entry]
                what = "parameter %s of %s" % (b.locals[c + 1]["n"], b.path)
                car, ls = carriers(g.rootctx, None, c + 1)
            else:
                if c.t["to"] is None:
                    continue
                key = "consumed/%s/%s" % (b.path, last(c.name))
                starts = [x.id for x in g.nodes if x.kind == "call" and x.ctx.parent is None and x.bi == c.bi]
                what = "%s at %s" % (c.name, c.span())
                car, ls = carriers(g.rootctx, c.bi)
            if ls is None or 0 in ls and len(b.defs.get(0, [])) == 1:
                r.ok(key, "the error of %s is returned" % what)
                continue

            def ment(e):
                return any(s in car for s in subexprs(e))

            cli = b.crate == "varisat-bin"
            logged = cli and any(x.kind == "call" and x.call.names and FMT.match(x.call.names[0]) and not x.call.names[0].startswith("core::mem")
                                 and any(ment(a) for a in x.args()) for x in g.nodes)

            def consumed(v):
                x = g.nodes[v]
                if x.id in starts:
                    return False
                if x.kind == "call":
                    nm = x.call.names[0] if x.call.names else "?"
                    if logged and "log::Level" in x.call.name:
                        return True     # the tool reports the error through its log (enabled at run time)
                    if not any(ment(a) for a in x.args()):
                        return False
                    if FMT.match(nm) or last(nm) in SWALLOW or nm.startswith("core::ops::try_trait::Try::branch"):
                        return False
                    return True
                if x.kind == "write":
                    return ment(node_val(x))
                if x.kind == "stmt":
                    rv = x.ctx.rvalue(x.ctx.body.blocks[x.bi]["st"][x.si]["r"])
                    return ment(rv) or is_variant(rv, "Err")
                if x.kind == "ret":
                    return 0 in ls or x.info is not None and x.info[0] == "v" and x.info[1] in ("Err", "Break")
                return False

            def okedge(u, v, cs):
                return any(atom_is(a, "Ok") == 1 and a[1] in car for a in cs)
            ts = [t for t in rets(g) if not consumed(t)]
            p = g.search(starts, ts, block_node=consumed, block_edge=okedge) if starts else None
            r.check(p is None, key, "the error of %s has a consumer on every path" % what,
                    "the error of %s is dropped: %s" % (what, " -> ".join(g.describe(p)) if p else ""))
    r.floor("fallible calls followed to a consumer", n, 100)


def calling(b, rx):
    return [c for c in b.calls() if re.search(rx, c.name)]


def run(prog, r):
    r.rule("no error value is dropped")
    result_flow(prog, r)

    api = solver_api(prog)
    SEARCH = r"^varisat::(cdcl|prop|clause|analyze_conflict|unit_simplify|decision)\b"

    def mod(p):
        return p.split("::")[1] if "::" in p else p
    pol = Policy(prog, interest=lambda c: bool(re.match(SEARCH, c.name)) and mod(c.name) != mod(c.body.path) or bool(re.search(r"::flush$", c.name)),
                 writes=lambda o, f: last(o) == "SolverState" and f in ("state_is_invalid", "solver_error", "sat_state") or last(o) == "Proof")

    r.rule("solve and close_proof report success only after flushing and testing for a pending error")
    noerr = edge_is(lambda e: on_spine(e, "SolverState", "solver_error"), "None")
    for name in ("solve", "close_proof"):
        g = r.graph(Graph(prog, api[name], pol))
        oks = [t for t in rets(g) if not (g.nodes[t].info and g.nodes[t].info[0] == "v" and g.nodes[t].info[1] == "Err")]
        flush = [x.id for x in g.nodes if x.kind == "call" and re.search(r"::flush$", x.call.name) and
                 any(on_spine(e, "Proof", "target") for e in x.args())]
        r.floor("flush calls of the proof target in %s" % name, len(flush), 1)
        r.must_cross(g, "flush/%s" % name, oks, "success of `%s` is reported only after flushing the proof" % name, node=lambda x: x.id in flush)
        outs = [x.id for x in g.nodes if x.kind == "call" and (re.match(SEARCH, x.call.name) or last(x.call.name) != "flush" and
                any(on_spine(e, "Proof", "target") for _, e in mut_args(x)))]
        r.floor("points where %s can write proof steps" % name, len(outs), 1)
        p = avoid_path(g, outs, oks, flush)
        r.check(p is None, "flush-after/%s" % name, "whatever is written to the proof at %d points is flushed before `%s` reports success" % (len(outs), name),
                "what %s writes to the proof can still be in the buffer when `%s` reports success: %s" % (p and g.nodes[p[0]].where(), name, " -> ".join(g.describe(p)) if p else ""))
        events = [w for w in writes(g, "SolverState", "solver_error") if not is_variant(node_val(g.nodes[w]), "None")]
        events += [x.id for x in g.nodes if x.kind == "call" and re.match(SEARCH, x.call.name)]
        r.floor("points where %s can store an error" % name, len(events), 2)
        for e in events + flush:
            p = avoid_path(g, [e], oks, (), noerr)
            r.check(p is None, "asked/%s" % name, "an error stored at %s is noticed before `%s` reports success" % (g.nodes[e].where(), name),
                    "`%s` reports success without asking for an error stored at %s: %s" % (name, g.nodes[e].where(), " -> ".join(g.describe(p)) if p else ""))
        # whoever takes the error returns it
        for x in g.nodes:
            if x.kind in ("call", "write") and (x.kind == "call" and any(on_spine(e, "SolverState", "solver_error") for _, e in mut_args(x))
                                                or x.kind == "write" and on_spine(node_dest(x), "SolverState", "solver_error")
                                                and not is_variant(node_val(x), "Some")):
                none = lambda at: atom_is(at, "None") == 1 and (on_spine(at[1], "SolverState", "solver_error") or has_field(at[1], "SolverState", "solver_error"))
                p = avoid_path(g, [x.id], oks, (), none)
                r.check(p is None, "returned/%s" % name, "the pending error taken at %s is returned" % x.where(),
                        "the pending error taken at %s is forgotten: %s" % (x.where(), " -> ".join(g.describe(p)) if p else ""))

    r.rule("the buffered proof is discarded only after a flush, before the first clause, or after storing an error")
    empty = edge_true(lambda e: is_field(e, "SolverState", "formula_is_empty"))
    n = 0
    for name, b in sorted(api.items()):
        if name == "solve":
            pass
        g = r.graph(Graph(prog, b, pol))
        flush = {x.id for x in g.nodes if x.kind == "call" and re.search(r"::flush$", x.call.name)}
        err = set(w for w in writes(g, "SolverState", "solver_error"))
        outs = [y.id for y in g.nodes if y.kind == "call" and last(y.call.name) != "flush" and any(on_spine(e, "Proof", "target") for _, e in mut_args(y))]
        for x in g.nodes:
            if x.kind != "write":
                continue
            d = node_dest(x)
            if not (d == ("S", "Proof") or is_field(d, "Proof", "target")):
                continue
            n += 1
            r.must_cross(g, "discard/%s" % name, [x.id], "the proof writer is replaced safely in `%s`" % name, edge=empty,
                         node=lambda y: y.id in flush or y.id in err)
            p = avoid_path(g, outs, [x.id], flush | err, empty)
            r.check(p is None, "discard-after/%s" % name, "whatever is written to the proof is flushed before the writer is replaced at %s" % x.where(),
                    "what %s writes to the proof is still buffered when the writer is replaced: %s" % (p and g.nodes[p[0]].where(), " -> ".join(g.describe(p)) if p else ""))
    r.floor("replacements of the proof writer", n, 6)

    r.rule("every buffering writer is owned by a structure whose flush is checked, or flushed locally")
    nb = 0
    for cx in all_ctx(prog):
        b = cx.body
        for c in calling(b, r"(BufWriter|LineWriter)::(new|with_capacity)$"):
            nb += 1
            l = c.t["d"]["l"]
            own = c.t["d"]["p"] and any(x != "*" and x["k"] == "f" for x in c.t["d"]["p"])
            e = cx.callexpr(c.bi)
            for _, blk in live_blocks(b):
                for s in blk["st"]:
                    if s["k"] == "=" and (s["r"]["k"] == "agg" and "adt" in s["r"] and cx.rvalue(s["r"]) != e and e in list(subexprs(cx.rvalue(s["r"])))
                                          or any(x != "*" and x["k"] == "f" for x in s["d"]["p"]) and e in list(subexprs(cx.rvalue(s["r"])))):
                        own = True
            if not own:
                pf = Policy(prog, small=0, interest=lambda k: k.name.endswith("::flush"))
                g = r.graph(Graph(prog, b, pf))
                st = [x.id for x in g.nodes if x.kind == "call" and x.bi == c.bi and x.ctx.parent is None]
                oks = [t for t in rets(g) if not (g.nodes[t].info and g.nodes[t].info[0] == "v" and g.nodes[t].info[1] == "Err")]
                fl = {x.id for x in g.nodes if x.kind == "call" and x.call.name.endswith("::flush")}
                own = avoid_path(g, st, oks, fl) is None
            r.check(own, "buffer/%s" % b.path, "the buffering writer created at %s is owned or flushed" % c.span(),
                    "the buffering writer created at %s is dropped without a flush, losing write errors" % c.span())
    r.floor("buffering writers", nb, 3)
    for b in prog.fns("WriteLrat::flush"):
        g = r.graph(Graph(prog, b, Policy(prog, interest=lambda c: c.name.endswith("::flush"))))
        oks = [t for t in rets(g) if not (g.nodes[t].info and g.nodes[t].info[0] == "v" and g.nodes[t].info[1] == "Err")]
        r.must_cross(g, "lrat-flush", oks, "WriteLrat::flush flushes its target", node=lambda x: x.kind == "call" and x.call.name.endswith("::flush"))

    r.rule("the tool closes proofs and flushes LRAT output before it announces success")
    iserr = lambda at: atom_is(at, "Err") == 1
    ncli = 0
    for b in prog.local_fns(("varisat-bin",)):
        if not (calling(b, r"(Solver::solve|Checker::check_proof)$")):
            continue
        ncli += 1
        g = r.graph(Graph(prog, b, Policy(prog, interest=lambda c: not c.name.startswith("varisat::main") and not c.name.startswith("varisat::check"), small=0)))

        def verdict(x):
            return x.kind == "ret" and not (x.info and x.info[0] == "v" and x.info[1] == "Err")
        outs = [x.id for x in g.nodes if verdict(x)]
        for x in g.nodes:
            if x.kind != "call":
                continue
            if re.search(r"Solver::write_proof$", x.call.name):
                close = {y.id for y in g.nodes if y.kind == "call" and re.search(r"Solver::close_proof$", y.call.name)}
                p = avoid_path(g, [x.id], outs, close, iserr)
                r.check(p is None, "cli-close/%s" % b.path, "a proof started at %s is closed before success is announced" % x.span(),
                        "a proof started at %s is not closed before success is announced: %s" % (x.span(), " -> ".join(g.describe(p)) if p else ""))
                ncli += 1
        for l, loc in enumerate(b.locals):
            if re.match(r"core::option::Option<varisat_lrat::WriteLrat", loc["t"]) and loc["n"]:
                le = g.rootctx.local(l)
                news = [x.id for x in g.nodes if x.kind == "call" and any(e == le for _, e in mut_args(x)) and last(x.call.name) in ("get_or_insert", "insert", "replace", "get_or_insert_with")]
                for y in g.nodes:
                    if y.kind == "call" and re.search(r"(Solver::solve|Checker::check_proof)$", y.call.name):
                        news.append(y.id)
                fl = {y.id for y in g.nodes if y.kind == "call" and re.search(r"WriteLrat::flush$", y.call.name) and any(le in list(subexprs(e)) for e in y.args())}
                none = lambda at, le=le: atom_is(at, "None") == 1 and at[1] == le
                p = avoid_path(g, news, outs, fl, lambda at: iserr(at) or none(at))
                ncli += 1
                r.check(p is None, "cli-lrat/%s/%s" % (b.path, loc["n"]), "the LRAT writer `%s` is flushed before success is announced" % loc["n"],
                        "the LRAT writer `%s` is not flushed before success is announced: %s" % (loc["n"], " -> ".join(g.describe(p)) if p else ""))
    r.floor("proof outputs of the tool", ncli, 6)
