"""C03 — proofs and self-checking can only be enabled on an unused solver."""
from vlib.common import *

EXPLANATION = ("Every public Solver method is explored as an exploded MIR control flow graph. Each store that configures proof output "
               "or checking must be dominated by the 'formula is empty' test on the passing side, and every return of such a method too. "
               "The flag is only ever written to false, the component holding it is never replaced, and every first use of a user "
               "variable or clause clears it.")


def run(prog, r):
    api = solver_api(prog)
    empty = edge_true(lambda e: is_field(e, "SolverState", "formula_is_empty"))

    r.rule("stores to the proof configuration are guarded by formula_is_empty")
    pol = Policy(prog, interest=lambda c: bool(re.search(r"Checker::add_processor$|::flush$|SelfChecker.*::self_check|write_step$|"
                                                         r"schedule_step$|write_binary_step$|load::load_clause$", c.name)),
                 writes=lambda o, f: last(o) == "Proof" and f in ("format", "checker", "target"))
    sinks_total = 0
    for name, b in sorted(api.items()):
        g = r.graph(Graph(prog, b, pol))
        sinks = []
        for n in g.nodes:
            if n.kind == "write":
                d = node_dest(n)
                fs = [x[3] for x in spine(d) if x[0] == "f" and last(x[2]) == "Proof"]
                if not fs or fs[0] not in ("format", "checker", "target"):
                    continue
                v = node_val(n)
                if is_variant(v, "None") or has_call(v, r"io::util::sink$|::sink$") or has_call(v, r"Proof as .*Default.*::default"):
                    continue
                sinks.append(n.id)
            elif n.kind == "call":
                if re.search(r"Checker::add_processor$", n.call.name):
                    sinks.append(n.id)
                elif any(on_spine(e, "Proof", f) for _, e in mut_args(n) for f in ("format", "checker")) and \
                        re.search(r"(insert|get_or_insert\w*|replace|swap)$", n.call.name):
                    sinks.append(n.id)
        if not sinks:
            continue
        sinks_total += len(sinks)
        r.must_cross(g, "guard/%s" % name, sinks, "proof configuration in `%s` happens only while the formula is empty" % name, edge=empty)
        r.must_cross(g, "return/%s" % name, rets(g), "`%s` returns only if the formula was empty" % name, edge=empty)
    r.floor("proof configuration stores reachable from the API", sinks_total, 4)

    r.rule("the used flag is only ever cleared")
    ws = mut_sites(prog, "SolverState", "formula_is_empty")
    for s in ws:
        r.check(s.kind == "write" and const_val(s.val) == 0, "clear/%s" % s.body.path,
                "formula_is_empty is set to false at %s" % s.span(),
                "formula_is_empty is set to something other than false at %s in %s" % (s.span(), s.body.path))
    r.floor("writes of formula_is_empty", len(ws), 2)
    for s in whole_sites(prog, "SolverState"):
        r.fail("replace/%s" % s.body.path, "the solver state (with its used flag) is replaced at %s" % s.span())
    init = [(cx, v) for cx in all_ctx(prog, ("varisat",)) for v in constructed(cx, "varisat::state::SolverState")]
    for cx, v in init:
        d = dict(v[3])
        r.check(const_val(d["formula_is_empty"]) == 1, "init/%s" % cx.body.path, "a fresh solver state counts as unused (%s)" % cx.body.path)
    r.floor("constructors of the solver state", len(init), 1)

    r.rule("each new clause and each newly used variable clears the flag")
    pol2 = Policy(prog, interest=lambda c: bool(re.search(r"VarBiMapMut::insert$|proof::add_clause$|schedule_step$|"
                                                          r"DimacsParser::parse_incremental$", c.name)),
                  writes=lambda o, f: last(o) == "SolverState" and f == "formula_is_empty")
    hide = lambda at: atom_is(at, "Hide") == 1
    n_sinks = 0
    for name, b in sorted(api.items()):
        g = r.graph(Graph(prog, b, pol2))
        W = writes(g, "SolverState", "formula_is_empty")
        exits = rets(g)
        for n in g.nodes:
            if n.kind != "call":
                continue
            c = n.call.name
            if c.endswith("proof::add_clause"):
                what = "adding a clause"
            elif c.endswith("VarBiMapMut::insert") and any(has_field(e, "Variables", "global_from_user") for e in n.args()[:1]):
                what = "first use of a user variable"
            else:
                continue
            n_sinks += 1
            p = unpaired(g, n.id, W, exits, hide)
            r.check(p is None, "clears/%s/%s" % (what, last(n.ctx.body.path)),
                    "%s at %s (from `%s`) clears the unused flag" % (what, n.where(), name),
                    "%s at %s does not clear the unused flag on the path %s" % (what, n.where(), " -> ".join(g.describe(p)) if p else ""))
    r.floor("clause and variable introductions reachable from the API", n_sinks, 6)


def constructed(cx, adt):
    for bi, b in live_blocks(cx.body):
        for s in b["st"]:
            if s["k"] == "=" and s["r"]["k"] == "agg" and strip_generics(s["r"].get("adt", "")) == adt:
                yield cx.rvalue(s["r"])
