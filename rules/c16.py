"""C16 — models, cores and results are only reported in the matching solver state."""
from vlib.common import *

EXPLANATION = ("State machine extraction: every write of SolverState::sat_state reachable from a public method is enumerated on exploded MIR graphs with "
               "the value written on that path; each must satisfy the guard and ordering obligations of its value. Accessors and solve's result are "
               "matched with the state tested on the path, and accessors contain no panicking construct except on keys they iterate over.")
BIG = r"^varisat::(analyze_conflict|unit_simplify|glue)\b|^varisat::clause::(gc|reduce|activity|assess)\b|proof::add_step$|proof::add_clause$|full_restart$|" \
      r"^varisat::decision::make_decision$|prop::(long|binary|.*)?::?propagate$|VarBiMapMut::"


def stateval(n):
    v = n.val if n.info != "call" else None
    if v and v[0] == "v":
        return v[1]
    e = node_val(n)
    return e[2] if e[0] == "agg" else None


def run(prog, r):
    api = solver_api(prog)
    pol = Policy(prog, interest=lambda c: bool(re.search(BIG, c.name)),
                 writes=lambda o, f: (last(o), f) in (("SolverState", "sat_state"), ("Model", "assignment"), ("Assumptions", "user_failed_core"),
                                                      ("Assumptions", "assumptions")))
    is_state = lambda e: is_field(e, "SolverState", "sat_state")

    def not_unsat(at):
        return at[0] == "is" and is_state(at[1]) and atom_is(at, "Unsat") == -1 or at[0] == "isin" and is_state(at[1]) and "Unsat" not in at[2]
    covered = set()
    cnt = {}
    for name, b in sorted(api.items()):
        g = r.graph(Graph(prog, b, pol))
        W = {}
        for w in writes(g, "SolverState", "sat_state"):
            v = stateval(g.nodes[w])
            W[w] = v
            covered.add(g.nodes[w].span())
            cnt[v] = cnt.get(v, 0) + 1
            if v is None:
                r.fail("value/%s" % name, "cannot tell the state written at %s" % g.nodes[w].where())
        non = [w for w, v in W.items() if v != "Unsat"]
        if non:
            r.rule("unconditional unsatisfiability is never withdrawn")
            r.must_cross(g, "withdraw/%s" % name, non, "`%s` changes the state only if it is not Unsat" % name, edge=not_unsat)
            for u in [w for w, v in W.items() if v == "Unsat"]:
                p = avoid_path(g, [u], non, (), not_unsat)
                r.check(p is None, "withdraw-after/%s" % name, "nothing overwrites Unsat set at %s" % g.nodes[u].span(),
                        "Unsat set at %s is overwritten: %s" % (g.nodes[u].span(), " -> ".join(g.describe(p)) if p else ""))
        uns = [w for w, v in W.items() if v == "Unsat"]
        keep = [w for w in uns if avoid_path(g, [g.entry], [w], (), lambda at: at[0] == "is" and is_state(at[1]) and atom_is(at, "Unsat") == 1) is None]
        uns = [w for w in uns if w not in keep]
        if uns:
            r.rule("Unsat is only concluded from an empty clause")
            zero = lambda at: at[0] == "eq" and at[3] and any(const_val(x) == 0 for x in at[1:3]) and \
                any(x[0] == "call" and x[1] == "len" for x in at[1:3]) or at[0] == "lt" and at[3] and at[1][:2] == ("call", "len") and const_val(at[2]) == 1
            zero2 = lambda at: zero(at) or at[0] == "true" and at[2] and zero(("eq",) + tuple(at[1][2:4]) + (True,)) if at[0] == "true" and at[1][0] == "bin" else zero(at)
            r.must_cross(g, "unsat/%s" % name, uns, "`%s` concludes Unsat only from an empty clause" % name, edge=zero2)
        sat = [w for w, v in W.items() if v == "Sat"]
        if sat:
            r.rule("Sat is only concluded from a complete, conflict free assignment with a freshly rebuilt model")
            r.must_cross(g, "sat-model/%s" % name, sat, "the model is rebuilt before Sat is set", node=lambda x: on_model(x))
            done = lambda at: atom_is(at, "Done") == 1
            nodec = edge_true(lambda e: has_call(e, r"make_decision$"), False)
            prop = lambda at: at[0] == "is" and at[1][0] == "call" and re.search(r"::propagate$", at[1][1]) is not None and atom_is(at, "Ok") == 1
            r.must_cross(g, "sat-assumptions/%s" % name, sat, "Sat needs all assumptions enqueued", edge=done)
            r.must_cross(g, "sat-decisions/%s" % name, sat, "Sat needs all variables assigned", edge=nodec)
            r.must_cross(g, "sat-propagated/%s" % name, sat, "Sat needs conflict free propagation", edge=prop)
            for what, ev, ed in (("an assumption", lambda at: atom_is(at, "Enqueued") == 1, done), ("a decision", edge_true(lambda e: has_call(e, r"make_decision$")), nodec)):
                for u in range(len(g.nodes)):
                    for v, cs in g.succ[u]:
                        if any(ev(c) for c in cs):
                            for need, nm in ((prop, "propagation"), (ed, "the completeness test")):
                                p = avoid_path(g, [v], sat, (), need)
                                r.check(p is None, "sat-after/%s/%s" % (what, nm), "%s follows %s before Sat" % (nm, what),
                                        "after %s the solver reports Sat without %s: %s" % (what, nm, " -> ".join(g.describe(p)) if p else ""))
        ua = [w for w, v in W.items() if v == "UnsatUnderAssumptions"]
        if ua:
            r.rule("UnsatUnderAssumptions is only concluded after recomputing the failed core")
            core = set(touches(g, "Assumptions", "user_failed_core"))
            r.must_cross(g, "core/%s" % name, ua, "the failed core is recomputed before UnsatUnderAssumptions", node=lambda x: x.id in core)
            r.must_cross(g, "core-conflict/%s" % name, ua, "UnsatUnderAssumptions follows from conflicting assumptions only",
                         edge=lambda at: atom_is(at, "Conflict") == 1 or atom_is(at, "Assumption") == 1)
        # withdrawal of outdated answers
        un = {w for w, v in W.items() if v == "Unknown"}
        adds = g.calls(r"proof::add_clause$")
        if adds:
            r.rule("adding a clause withdraws a previous model")
            r.must_cross(g, "outdated-model/%s" % name, adds, "`%s` withdraws an outdated model" % name, node=lambda x: x.id in un,
                         edge=lambda at: at[0] == "is" and is_state(at[1]) and atom_is(at, "Sat") == -1 or at[0] == "isin" and is_state(at[1]) and "Sat" not in at[2])
            cnt["adds"] = cnt.get("adds", 0) + 1
        if name == "assume":
            r.rule("changing assumptions withdraws previous answers")
            chg = touches(g, "Assumptions", "assumptions")
            r.floor("assumption changes in assume", len(chg), 1)

            def final(at):
                if at[0] == "is" and is_state(at[1]):
                    return atom_is(at, "Unsat") == 1 or atom_is(at, "Unknown") == 1
                return at[0] == "isin" and is_state(at[1]) and not {"Sat", "UnsatUnderAssumptions"} & set(at[2])
            p = avoid_path(g, [g.entry], rets(g), un, final)
            r.check(p is None, "outdated-answer", "assume withdraws outdated answers", "assume keeps an outdated answer: %s" % (" -> ".join(g.describe(p)) if p else ""))
        else:
            # only assume may replace the assumptions outside of a search
            pass
        if name == "solve":
            r.rule("solve's result matches the state")
            got = set()
            for t in rets(g):
                i = g.nodes[t].info
                if i is None or i[0] != "v":
                    r.fail("solve/unknown", "solve returns a value the analysis cannot classify")
                    continue
                if i[1] == "Err":
                    got.add("Err")
                    continue
                val = i[2][0][1] if i[2] and i[2][0] and i[2][0][0] == "c" else None
                got.add(val)
                if val == 1:
                    ok = lambda at: at[0] == "is" and is_state(at[1]) and atom_is(at, "Sat") == 1
                elif val == 0:
                    ok = lambda at: at[0] == "is" and is_state(at[1]) and (atom_is(at, "Unsat") == 1 or atom_is(at, "UnsatUnderAssumptions") == 1) or \
                        at[0] == "isin" and is_state(at[1]) and set(at[2]) <= {"Unsat", "UnsatUnderAssumptions"}
                else:
                    r.fail("solve/value", "solve returns a result that is not read off the state")
                    continue
                r.must_cross(g, "solve/%s" % val, [t], "solve returns Ok(%s) only in the matching state" % bool(val), edge=ok)
                for w in W:
                    p = avoid_path(g, [w], [t], (), ok)
                    r.check(p is None, "solve-fresh/%s" % val, "the result is read after the last state change",
                            "solve's result is stale: %s" % (" -> ".join(g.describe(p)) if p else ""))
            r.check({0, 1, "Err"} <= got, "solve/results", "solve can return satisfiable, unsatisfiable and interrupted", "solve's results are %s" % got)
    allw = mut_sites(prog, "SolverState", "sat_state")
    for s in allw:
        r.check(s.span() in covered, "reach/%s" % s.body.path, "the state write at %s was analysed" % s.span(),
                "the state is written at %s (in %s) outside every analysed API function" % (s.span(), s.body.path))
    for s in whole_sites(prog, "SolverState"):
        r.fail("replace/%s" % s.body.path, "the solver state is replaced at %s" % s.span())
    for v, m in (("Sat", 1), ("Unsat", 3), ("UnsatUnderAssumptions", 1), ("Unknown", 2), ("adds", 3)):
        r.floor("state writes: %s" % v, cnt.get(v, 0), m)

    r.rule("accessors answer exactly in the matching state")
    pa = Policy(prog, small=0)
    for name, some, none in (("model", {"Sat"}, {"Unknown", "Unsat", "UnsatUnderAssumptions"}), ("failed_core", {"Unsat", "UnsatUnderAssumptions"}, {"Unknown", "Sat"})):
        g = r.graph(Graph(prog, api[name], pa))
        kinds = set()
        for t in rets(g):
            i = g.nodes[t].info
            k = i[1] if i and i[0] == "v" else None
            kinds.add(k)
            want = {"Some": some, "None": none}.get(k)
            if want is None:
                r.fail("accessor/%s" % name, "`%s` returns a value that is not decided by the state" % name)
                continue

            def inwant(at, want=want):
                if at[0] == "isin" and is_state(at[1]):
                    return set(at[2]) <= want
                if at[0] != "is" or not is_state(at[1]):
                    return False
                return any(atom_is(at, x) == 1 for x in want) or (len(want) == 3 and not at[3] and at[2] not in want)
            r.must_cross(g, "accessor/%s/%s" % (name, k), [t], "`%s` returns %s only in states %s" % (name, k, sorted(want)), edge=inwant)
        r.check(kinds >= {"Some", "None"}, "accessor-both/%s" % name, "`%s` distinguishes the states" % name)
    fc = api["failed_core"]
    cx = root_ctx(prog, fc)
    agg = [cx.rvalue(s["r"]) for _, blk in live_blocks(fc) for s in blk["st"] if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("variant") == "Some"]
    r.check(any(has_field(a, "Assumptions", "user_failed_core") for a in agg), "core-source", "failed_core returns the recorded user core")
    r.check(all(has_field(a, "Assumptions", "user_failed_core") or not has_any_field(a) for a in agg), "core-source-only",
            "failed_core returns only the recorded core or nothing", "failed_core returns something else than the recorded user core")

    r.rule("accessors never panic")
    for name in ("model", "failed_core"):
        for i in prog.reach([api[name]]):
            b = prog.bodies[i]
            if b.crate != "varisat" or b.is_promoted:
                continue
            r.saw(b)
            cx = root_ctx(prog, b)
            for bi, blk in live_blocks(b):
                t = blk["t"]
                if t["k"] == "assert" and "verflow" not in str(t.get("msg", "")):
                    r.fail("panic/%s" % b.path, "`%s` can panic: bounds assertion at %s" % (name, b.span(bi)))
                if t["k"] == "call":
                    c = Call(b, bi)
                    nm = c.names[0] if c.names else "?"
                    if nm in ("core::option::Option::unwrap", "core::option::Option::expect", "core::result::Result::unwrap", "core::result::Result::expect"):
                        e = cx.call_args(bi)[0]
                        # the key is drawn from an iterator that filters for mapped keys
                        ok = e[0] == "call" and e[1].endswith("VarMap::get") and "elem" in [x[0] for x in subexprs(e[-1])]
                        r.check(ok, "panic/%s" % b.path, "the unwrap at %s is on a key the accessor iterates over" % c.span(),
                                "`%s` can panic: unwrap at %s" % (name, c.span()))
                    elif re.search(r"ops::index::Index(Mut)?::index(_mut)?$|core::panicking|begin_panic", nm):
                        r.fail("panic/%s" % b.path, "`%s` can panic at %s (%s)" % (name, c.span(), nm))


def on_model(x):
    if x.kind == "write":
        return on_spine(node_dest(x), "Model", "assignment")
    return x.kind == "call" and any(on_spine(e, "Model", "assignment") for _, e in mut_args(x))


def has_any_field(e):
    return any(s[0] == "f" for s in subexprs(e))
