"""C02 — a solver that hit an unrecoverable error never searches again."""
from vlib.common import *

EXPLANATION = ("Exploded MIR graph of every public Solver method. Search entry calls must be dominated by the state_is_invalid test; every site that "
               "takes the pending error must mark the state invalid unless the error is recoverable; each search round must be preceded by a test "
               "that no error is pending, and proof output must stop while one is pending.")
SEARCH = r"^varisat::(cdcl|prop|clause|analyze_conflict|unit_simplify|decision)\b"


def run(prog, r):
    api = solver_api(prog)

    def mod(p):
        return p.split("::")[1] if "::" in p else p
    pol = Policy(prog, interest=lambda c: bool(re.match(SEARCH, c.name)) and mod(c.name) != mod(c.body.path),
                 writes=lambda o, f: last(o) == "SolverState" and f in ("state_is_invalid", "solver_error", "sat_state"))
    valid = edge_true(lambda e: is_field(e, "SolverState", "state_is_invalid"), False)
    noerr = edge_is(lambda e: on_spine(e, "SolverState", "solver_error"), "None")

    # only `solve` may start a search; other API functions never do
    g = r.graph(Graph(prog, api["solve"], pol))
    search = [n.id for n in g.nodes if n.kind == "call" and re.match(r"^varisat::(cdcl|prop|clause)\b", n.call.name)]
    cd = [n for n in search if re.match(r"^varisat::cdcl\b", g.nodes[n].call.name)]
    r.floor("calls from the solve loop into the search modules", len(search), 5)
    r.floor("search rounds started by solve", len(cd), 1)
    r.rule("search and results of solve are dominated by the test that the state is valid")
    r.must_cross(g, "valid-search", search, "search runs only in a valid state", edge=valid)
    r.must_cross(g, "valid-return", rets(g), "solve returns only in a valid state", edge=valid)
    r.rule("each search round is preceded by a test that no error is pending")
    for c in [None] + cd:
        p = avoid_path(g, [g.entry if c is None else c], search if c is None else cd, (), noerr)
        r.check(p is None, "pending/%s" % ("first" if c is None else "next"),
                "no search round without a pending error test since the previous one",
                "a search round starts without testing for a pending error: %s" % (" -> ".join(g.describe(p)) if p else ""))

    r.rule("the invalid mark is never cleared")
    ws = mut_sites(prog, "SolverState", "state_is_invalid")
    for s in ws:
        r.check(s.kind == "write" and const_val(s.val) == 1, "mark/%s" % s.body.path, "state_is_invalid is set to true at %s" % s.span(),
                "state_is_invalid is not simply set to true at %s (in %s)" % (s.span(), s.body.path))
    r.floor("writes of state_is_invalid", len(ws), 1)
    for s in whole_sites(prog, "SolverState"):
        r.fail("replace/%s" % s.body.path, "the solver state is replaced at %s" % s.span())

    r.rule("whoever takes the pending error marks the state invalid unless the error is recoverable")
    clearing = {}
    for s in mut_sites(prog, "SolverState", "solver_error"):
        if s.kind == "write" and is_variant(s.val, "Some"):
            continue
        clearing[s.span()] = s
    covered = set()
    recover = lambda at: (atom_is(at, "Interrupted") == 1) or (at[0] == "true" and at[2] and has_call(at[1], r"is_recoverable$"))
    for name, b in sorted(api.items()):
        g = r.graph(Graph(prog, b, pol))
        marks = writes(g, "SolverState", "state_is_invalid")
        for n in g.nodes:
            take = n.kind in ("call", "write") and n.span() in clearing
            if not take:
                continue
            covered.add(n.span())
            # leaving without an error having been present is fine
            p = avoid_path(g, [n.id], rets(g), marks, lambda at: recover(at) or none_taken(at))
            r.check(p is None, "take/%s" % name, "`%s` marks the state invalid after taking an unrecoverable error at %s" % (name, n.where()),
                    "`%s` takes the pending error at %s and can return without marking the state invalid: %s" %
                    (name, n.where(), " -> ".join(g.describe(p)) if p else ""))
    for sp, s in clearing.items():
        r.check(sp in covered, "take-covered/%s" % s.body.path, "clearing of the pending error at %s is reached from the public API" % sp,
                "the pending error is cleared at %s (in %s) outside every analysed API function" % (sp, s.body.path))
    r.floor("sites that clear the pending error", len(clearing), 1)

    r.rule("only interruptions are recoverable")
    for b in prog.fns("SolverError::is_recoverable"):
        r.saw(b)
        g = r.graph(Graph(prog, b, Policy(prog, small=0)))
        for t in g.nodes:
            if t.kind == "ret":
                v = t.info
                if v == ("c", 0):
                    r.ok("recoverable/false")
                    continue
                r.must_cross(g, "recoverable/true", [t.id], "is_recoverable answers true only for Interrupted", edge=lambda at: atom_is(at, "Interrupted") == 1)

    r.rule("while an error is pending no further proof step is processed: every stored error resets the proof outputs")
    n = 0
    pe = Policy(prog, small=0, writes=lambda o, f: last(o) == "SolverState" and f == "solver_error")
    for b in prog.local_fns(("varisat",)):
        if not any(s["k"] == "=" and any(x != "*" and x["k"] == "f" and x["n"] == "solver_error" for x in s["d"]["p"])
                   for _, blk in live_blocks(b) for s in blk["st"]):
            continue
        n += 1

        def test(body):
            g = r.graph(Graph(prog, body, pe, root_args=root_ctx(prog, body).args))
            resets = [x.id for x in g.nodes if x.kind == "write" and node_dest(x) == ("S", "Proof")]
            for w in writes(g, "SolverState", "solver_error"):
                p = unpaired(g, w, resets, rets(g))
                if p is not None:
                    return "%s: %s" % (g.nodes[w].span(), " -> ".join(g.describe(p)))
        w = lifted(prog, b, test)
        r.check(w is None, "reset/%s" % b.path, "an error stored in %s also stops all proof output" % b.path,
                "an error stored in %s leaves proof output active: %s" % (b.path, w))
    r.floor("stores of a pending error", n, 2)

    r.rule("proof::add_step does nothing while an error is pending")
    b = prog.fn("varisat::proof::add_step")
    pout = Policy(prog, interest=lambda c: bool(re.search(r"write_(binary_)?step$|self_check_step$|Write>?::write(_all|_fmt)?$", c.name)))
    g = r.graph(Graph(prog, b, pout))
    outs = [x.id for x in g.nodes if x.kind == "call" and re.search(r"write_(binary_)?step$|self_check_step$", x.call.name)]
    r.floor("proof outputs in add_step", len(outs), 4)
    r.must_cross(g, "output", outs, "proof output happens only without a pending error", edge=noerr)


def none_taken(at):
    """The taken value turned out to be empty."""
    if atom_is(at, "None") != 1:
        return False
    e = at[1]
    return has_call(e, r"Option::take$|mem::take$|mem::replace$") or on_spine(e, "SolverState", "solver_error")
