"""C18 — hidden, witness and assumed variables cannot be misused."""
from vlib.common import *

EXPLANATION = ("Exploded MIR graphs of assume, add_clause, add_formula, hide_var, witness_var, sample_var and solve. The assumed flag is cleared for every old "
               "assumption (including those dropped as implied) and set for every new one by loops that cover the whole collections; every change of the "
               "sampling mode is guarded by the flag; user literals of clauses and assumptions pass the sampling test.")


def run(prog, r):
    api = solver_api(prog)
    pol = Policy(prog, interest=lambda c: bool(re.search(r"full_restart$|proof::add_step$|VarMap::get$|VarBiMapMut::\w+$|HashSet::(insert|remove)$|proof::add_clause$|initialize_solver_var$|set_var_count$|DimacsParser::|"
                                                         r"^varisat::(prop|clause|cdcl|decision)\b.*::\w+$", c.name)),
                 writes=lambda o, f: (last(o), f) in (("VarData", "assumed"), ("VarData", "sampling_mode"), ("VarData", "deleted"), ("Assumptions", "assumptions"),
                                                      ("Assumptions", "implied_assumptions"), ("SolverState", "sat_state")))
    A = lambda f: (lambda e: on_spine(e, "Assumptions", f) and e[0] == "f")

    def flag(g, val):
        return [w for w in writes(g, "VarData", "assumed") if const_val(node_val(g.nodes[w])) == val]

    # ---------------------------------------------------------------- assume
    g = r.graph(Graph(prog, api["assume"], pol))
    ex = rets(g)
    change = changes(g, "Assumptions", "assumptions")
    r.floor("changes of the assumption list in assume", len(change), 1)
    dropped = bool([f for f in prog.adt("varisat::assumptions::Assumptions")["variants"][0]["fields"] if f["name"] == "implied_assumptions"])
    r.rule("assume clears the assumed flag of every previous assumption before replacing the list, and sets it for every new one")
    for f in ["assumptions"] + (["implied_assumptions"] if dropped else []):
        lo = loops_over(g, A(f))
        clear = [l for l in lo if each_elem(g, l, flag(g, 0), ex) is None and any(reach(g, l.starts, [w]) for w in flag(g, 0)) and about(g, flag(g, 0), l)]
        tgt = change if f == "assumptions" else changes(g, "Assumptions", f)
        p = completes(g, clear, [g.entry], tgt)
        r.check(bool(clear) and p is None, "clear/%s" % f, "flags of all previous `%s` are cleared before they are replaced" % f,
                "the assumed flag of some previous `%s` stays set when they are replaced: %s" % (f, " -> ".join(g.describe(p)) if p else "no clearing loop"))
    lo = loops_over(g, A("assumptions"))
    setl = [l for l in lo if each_elem(g, l, flag(g, 1), ex) is None and about(g, flag(g, 1), l)]
    p = completes(g, setl, change, ex)
    r.check(bool(setl) and p is None, "set", "all new assumptions are flagged before assume returns",
            "new assumptions may stay unflagged: %s" % (" -> ".join(g.describe(p)) if p else "no flagging loop"))
    for w in flag(g, 0):
        p = avoid_path(g, [w], ex) if not setl else completes(g, setl, [w], ex)
        r.check(p is None, "clear-then-set", "clearing at %s happens before flagging the new assumptions" % g.nodes[w].span(),
                "the clearing of flags at %s can undo the flags of the new assumptions" % g.nodes[w].span())
    for w in flag(g, 1):
        q = g.search([w], flag(g, 0))
        r.check(q is None, "set-last", "no flag is cleared after flagging the new assumptions", "flags set at %s are cleared again" % g.nodes[w].span())

    r.rule("the assumed flag is written by assume only, and assumptions leave the list only into the list of implied assumptions")
    spans = {g.nodes[w].span() for w in flag(g, 0) + flag(g, 1)}
    ws = mut_sites(prog, "VarData", "assumed", ("varisat",))
    for s in ws:
        r.check(s.span() in spans, "who/%s" % s.body.path, "the assumed flag write at %s belongs to assume" % s.span(),
                "the assumed flag is written at %s (in %s), outside of assume" % (s.span(), s.body.path))
    r.floor("writes of the assumed flag", len(ws), 2)
    inside = {prog.bodies[i].path for i in g.inlined}
    k = 0
    for s in mut_sites(prog, "Assumptions", "assumptions"):
        if s.body.path in inside:
            continue
        if s.kind == "call" and last(s.call.name) in ("swap_remove", "remove", "pop"):
            k += 1
            gg = r.graph(Graph(prog, s.body, Policy(prog, small=0)))
            push = [n.id for n in gg.nodes if n.kind == "call" and last(n.call.name) in ("push", "extend") and on_spine(n.args()[0], "Assumptions", "implied_assumptions")]
            for n in gg.nodes:
                if n.kind == "call" and n.span() == s.span() and n.ctx.parent is None and n.bi == s.bi:
                    p = unpaired(gg, n.id, push, rets(gg))
                    p2 = None
                    if p is None:
                        # also before the next removal
                        p2 = avoid_path(gg, [n.id], [n.id], push)
                    r.check(p is None and p2 is None, "drop/%s" % s.body.path, "the assumption dropped at %s is remembered as implied" % s.span(),
                            "the assumption dropped at %s is forgotten: its variable stays assumed forever" % s.span())
        else:
            r.fail("drop/%s" % s.body.path, "the assumptions are changed at %s (in %s) outside of assume" % (s.span(), s.body.path))
    r.floor("removals of implied assumptions", k, 1)
    for s in whole_sites(prog, "Assumptions"):
        r.fail("replace/%s" % s.body.path, "the assumptions component is replaced at %s" % s.span())

    # ---------------------------------------------------------------- sampling mode
    r.rule("the sampling mode and existence of a variable change only while it is not assumed")
    notassumed = edge_true(lambda e: e[0] == "f" and e[3] == "assumed", False)
    seen, m = set(), 0
    for name in ("hide_var", "witness_var", "sample_var", "observe_internal_vars"):
        g = r.graph(Graph(prog, api[name], pol))
        W = [w for w in writes(g, "VarData", "sampling_mode")]
        seen |= {g.nodes[w].span() for w in W}
        m += len(W)
        changing = {"hide_var": "Hide", "witness_var": "Witness", "sample_var": "Sample"}.get(name)
        for w in W:
            subj = node_dest(g.nodes[w])[1]
            same = lambda at, subj=subj: at[0] == "true" and at[2] is False and at[1][0] == "f" and at[1][3] == "assumed" and at[1][1] == subj
            r.must_cross(g, "mode/%s" % name, [w], "`%s` changes the mode of variables that are not assumed" % name, edge=same)
            if changing:
                v = g.nodes[w].val
                v = v[1] if v and v[0] == "v" else None
                e = node_val(g.nodes[w])
                v = v or (e[2] if e[0] == "agg" else None)
                r.check(v == changing, "mode-value/%s" % name, "`%s` sets the mode %s" % (name, changing), "`%s` sets the mode %s" % (name, v))
        if name == "observe_internal_vars":
            continue
        # every return either changed the mode or found it already set
        p = avoid_path(g, [g.entry], rets(g), W, lambda at: at[0] in ("eq", "is") and mode_atom(at))
        r.check(p is None, "mode-set/%s" % name, "`%s` takes effect" % name, "`%s` can return without setting the mode: %s" % (name, " -> ".join(g.describe(p)) if p else ""))
        r.must_cross(g, "mode-ret/%s" % name, rets(g), "`%s` returns only for variables that are not assumed" % name, edge=notassumed)
        if name == "hide_var":
            r.rule("hiding removes the user name and recycles it")
            rem = [n.id for n in g.nodes if n.kind == "call" and n.call.name.endswith("VarBiMapMut::remove") and has_field(n.args()[0], "Variables", "global_from_user")]
            r.floor("user name removals in hide_var", len(rem), 1)
            for w in W:
                # the mode was compared with the new one before the write: it is not `Hide` already
                p = avoid_path(g, [w], rets(g), rem, lambda at: atom_is(at, "Hide") == 1 and is_modefield(at[1]))
                r.check(p is None, "unname", "hide_var removes the user name", "hide_var keeps the user name: %s" % (" -> ".join(g.describe(p)) if p else ""))
            ins = [n.id for n in g.nodes if n.kind == "call" and re.search(r"HashSet::insert$", n.call.name) and on_spine(n.args()[0], "Variables", "user_freelist")]
            none = lambda at: atom_is(at, "None") == 1 and has_call(at[1], r"VarBiMapMut::remove$")
            for x in rem:
                p = avoid_path(g, [x], rets(g), ins, none)
                r.check(p is None, "recycle", "the removed user name becomes available again", "the removed user name is lost: %s" % (" -> ".join(g.describe(p)) if p else ""))
            for x in ins:
                v = g.nodes[x].args()[1]
                r.check(v[0] == "ok" and has_call(v, r"VarBiMapMut::remove$"), "recycle-name", "the recycled name is the removed one", "a different name is recycled than the removed one")
    r.floor("mode changes reachable from the API", m, 4)
    for s in mut_sites(prog, "VarData", "sampling_mode", ("varisat",)):
        r.check(s.span() in seen, "mode-who/%s" % s.body.path, "the mode write at %s was analysed" % s.span(), "the sampling mode is written at %s outside the analysed API" % s.span())

    # ---------------------------------------------------------------- witness variables in constraints
    r.rule("a named variable used in a clause or assumption is a sampling variable")
    for name in ("add_clause", "add_formula", "add_dimacs_cnf", "assume"):
        g = r.graph(Graph(prog, api[name], pol))
        ex = rets(g) + g.calls(r"proof::add_clause$")
        mapped = 0
        sample = lambda at: at[0] == "is" and atom_is(at, "Sample") == 1 and is_modefield(at[1]) or at[0] == "eq" and at[3] and any(is_modefield(x) for x in at[1:3]) and any(is_variant(x, "Sample") for x in at[1:3])
        for u in range(len(g.nodes)):
            for v, cs in g.succ[u]:
                if any(atom_is(c, "Some") == 1 and c[1][0] == "call" and c[1][1].endswith("VarMap::get") and has_field(c[1][2], "Variables", "global_from_user")
                       and has_field(c[1][2], "VarBiMap", "fwd") for c in cs):
                    mapped += 1
                    p = avoid_path(g, [v], ex, (), sample)
                    r.check(p is None, "witness/%s" % name, "`%s` accepts named variables only in sampling mode" % name,
                            "`%s` accepts a witness variable: %s" % (name, " -> ".join(g.describe(p)) if p else ""))
        r.floor("user variable lookups in %s" % name, mapped, 1)

    r.rule("a fresh variable is a sampling, unassumed, existing variable")
    cx = [c for c in all_ctx(prog, ("varisat",)) if c.body.path.endswith("VarData::user_default")]
    k = 0
    for g0 in (api["new_var"],):
        g = r.graph(Graph(prog, g0, pol))
        for n in g.nodes:
            if n.kind == "call" and n.call.name.endswith("VarBiMapMut::insert") and has_field(n.args()[0], "Variables", "global_from_user"):
                init = [w.id for w in g.nodes if w.kind == "write" and fresh(prog, node_val(w))]
                k += 1
                p = unpaired(g, n.id, init, rets(g))
                r.check(p is None, "fresh", "a newly named variable gets fresh data", "a newly named variable keeps old data: %s" % (" -> ".join(g.describe(p)) if p else ""))
    r.floor("creations of user variables", k, 1)


def is_modefield(e):
    return e[0] == "f" and e[3] == "sampling_mode"


def mode_atom(at):
    """The current mode equals the requested one."""
    return at[0] == "eq" and at[3] and any(is_modefield(x) for x in at[1:3]) or at[0] == "is" and at[3] and is_modefield(at[1])


def fresh(prog, e):
    if e[0] == "call" and re.search(r"VarData.*default$", e[1]):
        b = [x for x in prog.local_fns() if x.path == e[1] or e[1].endswith(x.path)]
        for x in b:
            cx = Ctx(prog, x, Policy(prog, small=0))
            e = cx.local(0)
    if e[0] != "agg" or not e[1].endswith("VarData"):
        return False
    d = dict(e[3])
    return is_variant(d["sampling_mode"], "Sample") and const_val(d["deleted"]) == 0 and (const_val(d["assumed"]) == 0 or has_call(d["assumed"], "default"))


def about(g, ws, loop):
    """The flag written belongs to the element of the loop."""
    for w in ws:
        d = node_dest(g.nodes[w])
        if any(s[0] == "elem" and s[1] == loop.it for s in subexprs(d)) or any(s[0] == "elem" for s in subexprs(d)) and loop.done_nodes:
            return True
    return False


def reach(g, starts, targets):
    return any(s in targets for s in starts) or g.search(list(starts), list(targets)) is not None
