"""C07 — The checker accepts a derived clause or deletion only after verifying it."""
from vlib.common import *
from vlib.absint import Stuck, exact, I
from vlib.checkersteps import *
from vlib.checkersteps import Check, Helper, Moving, Rup, Path
from vlib.terms import T, B, REF, GH0, OK, NONE, SOME, ERR, emit, user, UNIT

EXPLANATION = ("Term-based abstract interpretation of the checker: whole steps of every kind with arbitrary contents and checker state (helpers by contract), and each helper from its own code over "
               "clauses, candidate lists and tables of arbitrary size. Every path that stores or deletes a clause must have established the required justification, the propagation check may only succeed "
               "with a falsified candidate or a true literal, and check_proof only returns Ok after the end step.")


def run(prog, r):
    r.rule("every path of check_step that stores, deletes or forgets a clause established its justification first; every helper keeps its contract; check_proof accepts only after End")
    for part in (whole_steps, storing, deleting, propagation, canonical, subset, relocation, acceptance, ownership):
        try:
            part(prog, r)
        except Stuck as e:
            r.fail("undecided/" + part.__name__, "%s: %s" % (part.__name__, e))
    r.rule("counts and identifiers of the checker do not wrap around at 8 or 16 bits")
    narrow(prog, r, [b for b in prog.bodies.values() if b.crate == "varisat_checker"], "width", "a proof with many literals or clauses makes it wrap around")


FIELDS = {"SolverVarName": {"buffered_solver_var_names", "rename_in_buffered_solver_var_names"}, "ChangeHashBits": {"hash_bits"}, "Assumptions": {"assumptions"},
          "FailedAssumptions": {"trace_ids", "tmp"}, "End": {"ended"}, "AddClause": {"next_clause_id", "unsat", "tmp"}, "UnitClauses": {"next_clause_id", "unsat"},
          "AtClause": {"next_clause_id", "unsat", "tmp", "previous_irred_clause_id", "previous_irred_clause_lits"},
          "DeleteClause": {"tmp", "previous_irred_clause_id", "previous_irred_clause_lits"}, "DeleteVar": {"previous_irred_clause_id", "previous_irred_clause_lits"}}
CELLS = {"DeleteVar": {"var", "unit"}, "UserVarName": {"var"}, "ChangeSamplingMode": {"var"}}


def is_canon(v, k):
    """Value equal to the canonical form of the step's literals (also when rebuilt element by element)."""
    c = CANON(k)
    return v == c or v is not None and v[0] == "q" and v[2] in ((), (("each", c[1], frozenset({(("one", ("e", c[1])),)})),))


def whole_steps(prog, r):
    n = stores = deletes = 0
    for kind, paths in all_steps(prog, r).items():
        for p in paths:
            n += 1
            if p.what == "panic":
                continue
            key = "step/" + kind
            for s in seqs(p.evs):
                verified = []
                for e in s:
                    if e[0] == "rup":
                        verified.append(e)
                    if e[0] in ("store", "store unit"):
                        stores += 1
                        ls = e[1] if e[0] == "store" else ("a", None, (e[1],))
                        ok = kind == "AddClause" or any(v[1] == ls or v[1] is not None and v[1][0] == "a" and v[1][2] == ls[2] for v in verified)
                        r.check(ok, key + "/store", "stored clause was verified", "a %s step stores `%s` without having verified that clause by unit propagation" % (kind, pp(e[1])))
            evs = flat(p.evs)
            r.check(kind in ("AddClause", "AtClause", "UnitClauses") or not any(e[0] in ("store", "store unit") for e in evs), key + "/stores", "no clause stored", "a %s step stores a clause" % kind)
            r.check(kind == "DeleteClause" or not any(e[0] == "delete" for e in evs), key + "/deletes", "no clause deleted", "a %s step deletes a clause" % kind)
            other = set(p.fields) - FIELDS.get(kind, set()) - {"tmp"} - ({"trace_ids"} if any(e[0] == "rup" for e in evs) else set())
            r.check(not other, key + "/fields", "only its own part of the state", "a %s step changes %s" % (kind, ", ".join(sorted(other))))
            cells = {t for t, _ in p.cells} | {e[1] for e in evs if e[0] == "set"}
            r.check(cells <= CELLS.get(kind, set()), key + "/tables", "tables", "a %s step changes the %s table directly" % (kind, ", ".join(sorted(cells - CELLS.get(kind, set())))))
            if p.failed:
                after = failed_then(p.evs)
                r.check(p.err and not after, key + "/failure", "failure ends the step", "a %s step goes on after %s failed%s" % (kind, failure(p.evs), "" if p.err else " and returns %s" % pp(p.value)))
            f = globals().get("step_" + kind)
            if f:
                f(p, r)
            deletes += any(e[0] == "delete" for e in evs)
            if kind == "End" and p.ok:
                r.check(p.fields.get("ended") == I(1), "step/End", "End ends the proof", "an End step does not mark the proof as ended")
    r.count("paths of whole steps", n)
    r.floor("paths of whole steps", n, 150)
    r.floor("stores justified", stores, 15)
    r.floor("deletions justified", deletes, 12)


def failure(evs):
    return next((e[1] for e in flat(evs) if e[0] == "fail"), "?")


def failed_then(evs):
    """Effects after a failure, in the order of the path."""
    seen = False
    for e in linear_order(evs):
        if e[0] == "fail":
            seen = True
        elif seen and e[0] in ("store", "store unit", "delete", "report", "rup"):
            return True
    return False


def linear_order(evs):
    for e in evs:
        if e[0] == "brk":
            yield from linear_order(e[3])
        elif e[0] == "loop":
            for it in e[2]:
                yield from linear_order(it)
        else:
            yield e


def step_AtClause(p, r):
    k = "AtClause.clause"
    taut = p.fact(B(("taut", ("sl", k))))
    st = p.all("store")
    if st:
        r.check(taut is False, "AtClause/tautology", "not a tautology", "an AtClause step stores a clause without having excluded tautologies")
        rup = p.all("rup")
        r.check(st[0][1] == CANON(k) and rup and rup[0][1] == CANON(k) and rup[0][2] == ("sl", "AtClause.propagation_hashes"), "AtClause/clause", "checked with the given hashes",
                "an AtClause step checks `%s` with the hashes `%s` and stores `%s`" % (pp(rup and rup[0][1]), pp(rup and rup[0][2]), pp(st[0][1])))
        red = p.ip.known(p.mem, T("AtClause.redundant", 0, 1))
        r.check(p.ip.known(p.mem, st[0][2]) == red, "AtClause/redundant", "redundancy", "an AtClause step stores the clause as %s instead of %s" % (pp(st[0][2]), pp(red)))
        f = p.fields.get("previous_irred_clause_id")
        if exact(red) == 0 and p.ok:
            r.check(f is not None and f[0] == "a" and f[1] == "Some" and is_canon(p.fields.get("previous_irred_clause_lits", CANON(k)), k), "AtClause/previous",
                    "the clause just derived", "after an irredundant AtClause step the previous clause is `%s` with the literals `%s`" % (pp(f), pp(p.fields.get("previous_irred_clause_lits"))))
        elif exact(red) == 1:
            r.check(f is None and "previous_irred_clause_lits" not in p.fields, "AtClause/previous redundant", "unchanged", "a redundant clause is remembered as previous irredundant clause")
        elif p.ok:
            r.fail("AtClause/previous unknown", "an AtClause step treats redundant and irredundant clauses alike")
    r.check(bool(st) or not p.ok, "AtClause/ok", "accepted means stored", "an AtClause step is accepted without storing the clause")


def step_AddClause(p, r):
    for e in p.all("store"):
        r.check(e[1] == CANON("AddClause.clause") and e[2] == I(0) and p.fact(B(("taut", ("sl", "AddClause.clause")))) is False, "AddClause/store", "input clause stored as given",
                "add_clause stores `%s` as %s" % (pp(e[1]), pp(e[2])))
    unsat, taut = p.fact(B("unsat")), p.fact(B(("taut", ("sl", "AddClause.clause"))))
    r.check(not p.ok or bool(p.all("store")) or taut is True or unsat is True, "AddClause/ok", "accepted means stored", "add_clause accepts a clause without storing it")


def step_UnitClauses(p, r):
    if p.ok:
        for s in seqs(p.evs):
            for i, e in enumerate(s):
                if e[0] == "loop" and e[1] == "UnitClauses.units":
                    ok = all(any(x[0] == "rup" and x[2] is not None and x[2][0] == "a" and x[2][2] == (T(("e", "UnitClauses.units#hash")),) for x in it) and any(x[0] == "store unit" for x in it) for it in e[2])
                    r.check(ok, "UnitClauses/each", "every unit checked and stored", "a UnitClauses step accepts a unit without checking it with its hash and storing it")
        r.check(any(e[0] == "loop" and e[1] == "UnitClauses.units" for e in p.evs), "UnitClauses/all", "all units", "a UnitClauses step does not go through all units")


def forgotten(p):
    return p.fields.get("previous_irred_clause_id") == NONE or p.variant(("opt", "previous_irred_clause_id")) == "None" and "previous_irred_clause_id" not in p.fields


def step_DeleteClause(p, r):
    k = "DeleteClause.clause"
    ds = p.all("delete")
    r.check(bool(ds) or not p.ok, "DeleteClause/ok", "accepted means deleted", "a DeleteClause step is accepted without deleting the clause")
    if not ds:
        return
    proof = p.variant(("enum", "DeleteClause.proof"))
    r.check(len(ds) == 1 and ds[0][1] == CANON(k) and p.fact(B(("taut", ("sl", k)))) is False, "DeleteClause/clause", "the clause", "a DeleteClause step deletes `%s`" % pp(ds[0][1]))
    red = p.ip.known(p.mem, ds[0][2])
    r.check(exact(red) == (1 if proof == "Redundant" else 0), "DeleteClause/%s/redundant" % proof, "redundancy", "a deletion with the justification %s removes %s copy" % (
        proof, {0: "an irredundant", 1: "a redundant"}.get(exact(red) if red is not None else None, "some")))
    if proof == "Satisfied":
        x = ("e", ("canon", ("sl", k)))
        cell = next((v for key, v in p.mem.items() if key[0] == "o" and isinstance(key[1], tuple) and key[1][0] == "cell0" and key[1][1] == "unit" and var_of(key[1][2]) == ("vr", x)), None)
        ok = cell is not None and p.ip.truth_of(p.mem, cell, x) == "true"
        r.check(ok, "DeleteClause/Satisfied", "a literal is true by a unit clause", "an irredundant clause is deleted as satisfied without a literal that is true by a unit clause")
    elif proof == "Simplified":
        sub = [v for key, v in p.mem.items() if key[0] == "F" and isinstance(key[1], tuple) and key[1][0] == "subset"]
        ok = p.fact(B(("subset", ("sl", "previous_irred_clause_lits"), CANON(k), I(1)))) is True and p.variant(("opt", "previous_irred_clause_id")) == "Some"
        r.check(ok, "DeleteClause/Simplified", "strictly subsumed by the clause just derived", "an irredundant clause is deleted as simplified without being strictly subsumed by the clause just derived (%d inclusion checks)" % len(sub))
    elif proof is None:
        r.fail("DeleteClause/proof", "a clause is deleted without regard to the kind of justification")
    r.check(forgotten(p), "DeleteClause/previous", "the previous clause is forgotten", "after deleting a clause the clause derived before may still justify deletions although it may be the one deleted")


def step_DeleteVar(p, r):
    v = ("var", "DeleteVar.var")
    if p.ok:
        r.check(p.variant(("name", v)) == "None", "DeleteVar/name", "no user name", "a variable with a user name is deleted")
        for s in (0, 1):
            c = ident(("count", T(("code", ("lit", v, I(s))), 0, 2 ** 32 - 1)))
            r.check(exact(p.ip.known(p.mem, c)) == 0, "DeleteVar/count%d" % s, "no clauses", "a variable is deleted although a %s literal of it may occur in clauses" % ("positive" if s else "negative"))
        unit = p.variant(("unit", v))
        r.check(unit is not None, "DeleteVar/unit", "unit clause looked up", "a variable is deleted without looking for its unit clause")
        want = {("var", vindex(v))} | ({("unit", vindex(v))} if unit == "Some" else set())
        got = {(t, vindex(var_of(i))) if var_of(i) is not None else (t, i) for t, i in p.cells}
        new = {t: n for (t, i), (o, n) in p.cells.items()}
        mode = p.variant(("mode", v))
        r.check(got <= want and (unit != "Some" or new.get("unit") == NONE), "DeleteVar/tables", "its entries are reset", "deleting a variable changes %s" % ", ".join(pp(x) for x in sorted(got ^ want, key=repr)))
        if unit == "Some":
            prev = p.ip.close(p.mem, p.fields.get("previous_irred_clause_id"))
            same = p.fact(p.ip.compare(p.mem, "Eq", ident(("unit id", v)), ident(("previous_irred_clause_id",))))
            r.check(forgotten(p) or same is False, "DeleteVar/previous", "a deleted unit clause is forgotten", "the unit clause of a deleted variable may still justify deletions")
    else:
        r.check(("unit", vindex(v)) not in {(t, vindex(var_of(i))) for t, i in p.cells if var_of(i)}, "DeleteVar/rejected", "nothing deleted", "a rejected DeleteVar step removes a unit clause")


# ---------------------------------------------------------------- helpers

def saw(r, prog, ip):
    HELPED.update(ip.bodies)
    for b in ip.bodies:
        r.saw(prog.bodies[b])


def new_id(p):
    return p.fields.get("next_clause_id")


def storing(prog, r):
    n = 0
    BK = ("bucket", T(("hash", ("sl", "lits"))))
    cand = ("e", BK)
    cl = prog.adt(Helper.CLAUSE)["variants"][0]["fields"]
    fi = {f["name"]: i for i, f in enumerate(cl)}
    for red in (0, 1):
        ip, ps = helper_paths(prog, "clauses::store_clause", flag=red)
        saw(r, prog, ip)
        for p in ps:
            if p.what == "panic":
                continue
            n += 1
            key = "store_clause/%s/" % ("redundant" if red else "irredundant")
            v = p.value
            if v is None or v[0] != "a" or len(v[2]) != 2 or v[2][1] is None:
                r.fail(key + "result", "store_clause returns `%s`" % pp(v))
                continue
            cid, res = v[2][0], v[2][1][1]
            size = p.ip.interval(p.mem, ("t", ("len", "lits"), 0, 2 ** 62))
            units = p.all("store unit")
            if size[1] == 0:
                r.check(res == "New" and cid == ident("next_clause_id") and p.fields.get("unsat") == I(1) and new_id(p) is not None and not p.cells, key + "empty", "empty clause", "storing the empty clause yields (%s, %s), unsat=%s" % (pp(cid), res, pp(p.fields.get("unsat"))))
                continue
            if units:
                r.check(size == (1, 1) and units[0][1] == ("at", "lits", 0) and cid == ident("stored") and ("stored", res) in p.evs, key + "unit", "unit clause", "a clause of %d..%d literals is stored as the unit %s" % (size + (pp(units[0][1]),)))
                continue
            r.check(size[0] >= 2, key + "long", "at least two literals", "a clause of %d..%d literals is stored with the long clauses" % size)
            r.check("unsat" not in p.fields, key + "unsat", "not unsat", "storing a long clause marks the formula as unsatisfiable")
            done = [e for e in p.evs if e[0] in ("loop", "brk") and e[1] == BK]
            found = bool(done) and done[-1][0] == "brk"
            if found:
                same = p.fact(B(("same", ("sl", "lits"), ("sl", ("lits", cand)))))
                cell = next((p.ip.close(p.mem, x) for k, x in p.mem.items() if k[0] == "M" and k[1] == BK), None)
                old = p.ip.element(cand)
                ok = same is True and cell is not None and cell[0] == "a"
                r.check(ok, key + "same", "same literals", "an existing clause is counted although its literals were not found equal")
                if not ok:
                    continue
                rc = [p.ip.known(p.mem, x) for x in old[2][fi["ref_count"]][2]]
                new = [p.ip.known(p.mem, x) for x in cell[2][fi["ref_count"]][2]] if cell[2][fi["ref_count"]] is not None else [None, None]
                plus = p.ip.arith("Add", rc[red], I(1), "u32")
                plus = p.ip.known(p.mem, plus)
                r.check(new[1 - red] == rc[1 - red] and more(p, new[red], rc[red]) and cell[2][fi["id"]] == old[2][fi["id"]] and cell[2][fi["lits"]] == old[2][fi["lits"]], key + "count", "one more copy",
                        "storing another copy changes the counts from %s to %s" % ([pp(x) for x in rc], [pp(x) for x in new]))
                irr = p.ip.known(p.mem, p.ip.compare(p.mem, "Eq", old[2][fi["ref_count"]][2][0], I(0)))
                want = "NewlyIrredundant" if not red and exact(irr) == 1 else "Duplicate"
                r.check(res == want and cid == old[2][fi["id"]] and (red or exact(irr) is not None), key + "existing", "result", "storing another copy yields %s with the identifier %s; required %s" % (res, pp(cid), want))
                r.check("next_clause_id" not in p.fields and not p.cells, key + "existing state", "nothing else", "storing another copy changes %s" % ", ".join(p.fields))
                continue
            its = done[-1][2] if done else ()
            r.check(bool(done) and all(any(e[0] == "is" and e[1] == ("same", ("sl", "lits"), ("sl", ("lits", cand))) and e[2] == 0 for e in it) for it in its), key + "search", "no equal clause", "a new entry is made although an equal clause may exist")
            bucket = p.mem.get(("o", BK))
            added = None
            if bucket is not None and bucket[0] == "q" and len(bucket[2]) in (1, 2):
                added = bucket[2][-1][1] if bucket[2][-1][0] == "one" else None
            want = ("a", None, (I(0), I(1)) if red else (I(1), I(0)))
            ok = added is not None and added[0] == "a" and added[2][fi["id"]] == ident("next_clause_id") and added[2][fi["lits"]] == ("stored lits", ("sl", "lits")) and added[2][fi["ref_count"]] is not None and added[2][fi["ref_count"]][2] == want[2]
            r.check(ok, key + "added", "entry added", "the clause stored is `%s`" % pp(added))
            r.check(res == "New" and cid == ident("next_clause_id") and more(p, new_id(p), ident("next_clause_id")), key + "new", "new identifier", "a new clause yields (%s, %s)" % (pp(cid), res))
            counts = [e for e in p.evs if e[0] == "loop" and e[1] == "lits" and any(x[0] == "set" for it in e[2] for x in it)]
            ok = len(counts) == 1 and all([(x[1], x[2]) for x in it if x[0] == "set"] == [("lit", T(("code", ("e", "lits")), 0, 2 ** 32 - 1))] and all(more(p, x[4][2][0], x[3][2][0]) for x in it if x[0] == "set") for it in counts[0][2])
            r.check(ok, key + "literal counts", "occurrences counted", "storing a clause does not count one more occurrence of each of its literals")
    ip, ps = helper_paths(prog, "clauses::store_unit_clause")
    saw(r, prog, ip)
    lit = ("lit0", "lit")
    for p in ps:
        if p.what == "panic":
            continue
        n += 1
        v = p.value
        cid, res = (v[2][0], v[2][1][1]) if v is not None and v[0] == "a" and len(v[2]) == 2 and v[2][1] is not None else (None, None)
        unit = p.variant(("unit", ("vr", lit)))
        cell = next((v for key, v in p.mem.items() if key[0] == "o" and isinstance(key[1], tuple) and key[1][0] == "cell0"), None)
        t = p.ip.truth_of(p.mem, cell, lit)
        key = "store_unit_clause/%s" % t
        if t == "none":
            new = [n for (tb, i), (o, n) in p.cells.items() if tb == "unit" and var_of(i) == ("vr", lit)]
            val = new[0][2][0] if new and new[0] is not None and new[0][1] == "Some" else None
            ok = len(p.cells) == 1 and val is not None and val[2][p.ip.ii] == ("a", "Global", (ident("next_clause_id"),)) and val[2][p.ip.iv] == parts(lit)[1]
            r.check(ok and res == "New" and cid == ident("next_clause_id") and more(p, new_id(p), ident("next_clause_id")) and "unsat" not in p.fields, key, "unit stored", "a new unit clause is stored as %s with result %s" % (pp(val), pp(v)))
        elif t == "true":
            r.check(res == "Duplicate" and cid == ident(("unit id", ("vr", lit))) and not p.cells and not p.fields, key, "duplicate", "a unit clause that is known already yields %s" % pp(v))
        elif t == "false":
            r.check(res == "New" and cid == ident("next_clause_id") and more(p, new_id(p), ident("next_clause_id")) and not p.cells and p.fields.get("unsat") == I(1) and p.fields.get("unit_conflict") == SOME(("a", None, (ident(("unit id", ("vr", lit))), ident("next_clause_id")))), key,
                    "conflict", "a contradicting unit clause yields %s, unsat=%s, conflict=%s" % (pp(v), pp(p.fields.get("unsat")), pp(p.fields.get("unit_conflict"))))
        else:
            r.fail("store_unit_clause/?", "store_unit_clause does not look up the value of the literal")
    r.floor("paths of storing", n, 14)


def more(p, new, old, by=1):
    """new == old + by"""
    from vlib.terms import canon, linear
    if new is None or old is None:
        return False
    if exact(new) is not None and exact(old) is not None:
        return exact(new) == exact(old) + by
    if new[0] != "t" or old[0] != "t":
        return False
    a, b = linear(new), linear(old)
    return a[0][1] == b[0][1] and a[1] == b[1] and a[2] == b[2] + by


def deleting(prog, r):
    n = 0
    BK = ("bucket", T(("hash", ("sl", "lits"))))
    cand = ("e", BK)
    outcomes = {}
    fi = {f["name"]: i for i, f in enumerate(prog.adt(Helper.CLAUSE)["variants"][0]["fields"])}
    for red in (0, 1):
        ip, ps = helper_paths(prog, "clauses::delete_clause", flag=red)
        saw(r, prog, ip)
        for p in ps:
            if p.what == "panic":
                continue
            n += 1
            key = "delete_clause/%s/" % ("redundant" if red else "irredundant")
            removed = changed = 0
            for s in seqs(p.evs):
                for e in s:
                    if e[0] not in ("kept", "dropped"):
                        continue
                    old, new = e[1], e[2]
                    same = any(x[0] == "is" and x[1] == ("same", ("sl", "lits"), ("sl", ("lits", cand))) and x[2] == 1 for x in s)
                    if new is None or new[0] != "a" or new[2][fi["ref_count"]] is None:
                        r.fail(key + "counts", "the copies of a clause become unknown")
                        continue
                    facts = {x[1]: x[2] for x in s if x[0] == "is"}
                    rc, nc = old[2][fi["ref_count"]][2], new[2][fi["ref_count"]][2]
                    one_less = minus_one(nc[red], rc[red], facts) and (nc[1 - red] == rc[1 - red] or is_zero(rc[1 - red], facts) and nc[1 - red] == I(0))
                    untouched = all(a == b or is_zero(b, facts) and a == I(0) for a, b in zip(nc, rc))
                    if e[0] == "dropped":
                        removed += 1
                        r.check(same and one_less and all(exact(x) == 0 or x is not None and x[0] == "t" and is_zero(x, facts) for x in nc), key + "dropped", "last copy removed", "a clause is removed from the candidates although %s" % (
                            "its literals differ" if not same else "copies remain: %s" % [pp(x) for x in nc]))
                    elif not untouched:
                        changed += 1
                        r.check(same and one_less and not all(exact(x) == 0 or is_zero(x, facts) for x in nc), key + "kept", "one copy less", "deleting a clause changes the counts of a candidate from %s to %s" % ([pp(x) for x in rc], [pp(x) for x in nc]))
            size = p.ip.interval(p.mem, ("t", ("len", "lits"), 0, 2 ** 62))
            for e in flat(p.evs):
                if e[0] == "remove bucket":
                    left = p.ip.interval(p.mem, ("t", ("len", ("retained", BK)), 0, 2 ** 62))
                    r.check(e[1] == BK[1] and left == (0, 0), key + "bucket", "only an empty bucket is removed", "all remaining clauses with the hash of the deleted clause are removed")
            if p.ok:
                v = p.value[2][0]
                cid, res = (v[2][0], v[2][1][1]) if v is not None and v[0] == "a" and len(v[2]) == 2 and v[2][1] is not None else (None, None)
                outcomes[red, res] = outcomes.get((red, res), 0) + 1
                r.check(size[0] >= 2, key + "long", "only long clauses", "a unit or empty clause can be deleted")
                r.check(removed + changed >= 1, key + "ok", "a copy was removed", "a deletion succeeds without removing a copy of the clause")
                r.check(cid is not None and cid[0] == "t" and isinstance(cid[1], tuple) and cid[1][0] == "clause id" and cid[1][1][1] == BK, key + "id", "identifier", "a deletion reports the identifier %s" % pp(cid))
                counts = [e for e in p.evs if e[0] == "loop" and e[1] == "lits" and any(x[0] == "set" for it in e[2] for x in it)]
                less = len(counts) == 1 and all([(x[1], x[2]) for x in it if x[0] == "set"] == [("lit", T(("code", ("e", "lits")), 0, 2 ** 32 - 1))] and all(minus_one(x[4][2][0], x[3][2][0], {}) for x in it if x[0] == "set") for it in counts[0][2])
                if res == "Removed":
                    r.check(removed >= 1 and less, key + "removed", "occurrences uncounted", "a clause is reported as removed %s" % ("without uncounting its literals" if removed else "although it is kept"))
                else:
                    r.check(not counts and changed >= 1, key + "not removed", "still there", "a clause is reported as %s although it was removed or its literals were uncounted" % res)
                    zero = any(e[0] == "kept" and e[2][2][fi["ref_count"]] is not None and e[1] != e[2] and is_zero(e[2][2][fi["ref_count"]][2][0], {x[1]: x[2] for x in s if x[0] == "is"}) for s in seqs(p.evs) for e in s)
                    if not red:
                        r.check((res == "NewlyRedundant") == zero, key + "newly", "result", "deleting an irredundant copy reports %s although %s irredundant copies remain" % (res, "no" if zero else "some"))
                    else:
                        r.check(res == "Unchanged", key + "newly", "result", "deleting a redundant copy reports %s" % res)
            elif p.err and not p.failed:
                r.check(not removed and not changed, key + "rejected", "nothing removed", "a rejected deletion removes a copy of a clause")
    r.floor("paths of deleting", n, 20)
    for red, res in ((0, "Removed"), (0, "NewlyRedundant"), (0, "Unchanged"), (1, "Removed"), (1, "Unchanged")):
        r.floor("deletions of %s copies: %s" % ("redundant" if red else "irredundant", res), outcomes.get((red, res), 0), 1)


def is_zero(x, facts):
    if x is None:
        return False
    if exact(x) is not None:
        return exact(x) == 0
    return any(isinstance(t, tuple) and len(t) == 3 and t[0] == "Lt" and t[1] == x and t[2] == I(1) and v == 1 or isinstance(t, tuple) and len(t) == 3 and t[0] == "Eq" and x in t and I(0) in t and v == 1 for t, v in facts.items())


def minus_one(new, old, facts):
    from vlib.terms import linear
    if new is None or old is None:
        return False
    if old[0] == "t" and exact(new) == 0:       # was found to be one
        return any(isinstance(t, tuple) and len(t) == 3 and t[0] == "Lt" and v == 1 and t[2] == I(1) and t[1][0] == "t" and isinstance(t[1][1], tuple) and t[1][1][0] == "+" and t[1][1][1] == old and t[1][1][2] == -1 for t, v in facts.items())
    if new[0] != "t" or old[0] != "t":
        return False
    if isinstance(new[1], tuple) and new[1][0] == "+" and new[1][2] == -1:
        a = new[1][1]
        return (a[1] if isinstance(a, tuple) and a[0] == "t" else a) == old[1]
    a, b = linear(new), linear(old)
    return a[0][1] == b[0][1] and a[1] == b[1] and a[2] == b[2] - 1


def propagation(prog, r):
    ip, ps = rup_paths(prog)
    saw(r, prog, ip)
    for k, msg in sorted(ip.bad.items()):
        r.fail("rup/" + k, "unit propagation check: " + msg)
    for k in ("assign", "refute", "negate", "undo", "conflict"):
        r.floor("propagation check: %s events judged" % k, ip.seen[k], {"assign": 20, "refute": 100, "negate": 4, "undo": 200, "conflict": 60}[k])
    n = direct = 0
    for p in ps:
        if p.what == "panic" or p.failed:
            continue
        n += 1
        _, _, _, conflict, changed, undone = p.gh
        if changed:
            r.check(undone, "rup/undone", "assignments undone", "the propagation check returns %s with temporary assignments left in place" % pp(p.value))
        if p.ok and not conflict:
            direct += 1
            x = ("e", "lits")
            cell = ip.before(p.mem, x)
            t = ip.truth_of(p.mem, cell, x)
            kind = cell[2][0][2][ip.ii] if cell is not None and cell[0] == "a" and cell[2] else None
            r.check(t == "true" and kind is not None and kind[0] == "a" and kind[1] == "Global" and not changed, "rup/ok", "justified", "the propagation check succeeds without a conflict and without a literal that is true by a unit clause")
            ids = p.fields.get("trace_ids")
            r.check(ids is not None and ids[0] == "q" and [y for y in ids[2]] == [("one", kind[2][0])] if kind is not None else False, "rup/direct trace", "the unit clause is the hint", "a clause satisfied by a unit clause is reported with the hints %s" % pp(ids))
        r.check(p.ok or p.err, "rup/result", "a result", "the propagation check returns `%s`" % pp(p.value))
    r.floor("paths of the propagation check", n, 150)
    r.floor("clauses accepted for a true literal", direct, 2)


def canonical(prog, r):
    """copy_canonical sorts, deduplicates and recognises tautologies."""
    name = "sorted_lits::copy_canonical"
    fn = prog.fn(CK + name)

    class C(Helper):
        def advance(self, mem, gh, name, done):
            if name[0] == "canonical":       # only the literal directly before the current one counts as `pe`
                mem = {k: older(v) for k, v in mem.items()}
            return super().advance(mem, gh, name, done)

        def checker(self, ip, c, args, mem, gh):
            ln = last(c.names[0]) if c.names else ""
            if ln in ("sort", "sort_unstable", "dedup", "sort_by_key", "sort_unstable_by_key") and args[0] is not None and args[0][0] == "p" and c.names[0].startswith(("alloc::", "core::")):
                v = self.deref(mem, args[0])
                m = dict(mem)
                if ln == "dedup":
                    new = ("sl", "canonical") if v == ("sl", "sorted") else None
                else:
                    new = ("sl", "sorted") if ln in ("sort", "sort_unstable") and v is not None and v[0] == "q" and v[2] in ((), (("each", "src", frozenset({(("one", ("e", "src")),)})),)) else None
                self.write(m, args[0][1], args[0][2], new)
                return [(UNIT, m, gh)]
            return super().checker(ip, c, args, mem, gh)
    ip = C(prog, contracts=())
    tgt = ("o", "target")
    args = [("p", tgt, ()) if "Vec<" in fn.loc_type(i) else REF(("sl", "src")) for i in range(1, fn.argc + 1)]
    n = 0
    for o in ip.run(fn, args, {tgt: ("sl", "leftover")}, GH0):
        what, v, objs, g = o
        if what == "panic":
            continue
        n += 1
        mem = dict(objs)
        v = ip.close(mem, v)
        r.check(mem.get(tgt) == ("sl", "canonical"), "canonical/value", "sorted without duplicates", "copy_canonical leaves `%s`" % pp(mem.get(tgt)))
        evs = events(g)
        pairs = ({("e", "canonical"), ("pe", "canonical")})

        def opposite(x):
            t = x[1]
            return x[0] == "is" and isinstance(t, tuple) and t[0] == "same" and {t[1], t[2]} in [{("e", "canonical"), neg(("pe", "canonical"))}, {neg(("e", "canonical")), ("pe", "canonical")}]
        loops = [e for e in evs if e[0] in ("loop", "brk") and e[1] == "canonical"]
        got = exact(v) if v is not None and v[0] == "i" else None
        ok = len(loops) == 1
        if ok:
            e = loops[0]
            # an iteration that goes on compared with the previous literal, unless it is the first
            ok = got == (1 if e[0] == "brk" else 0) and sum(not any(opposite(x) for x in it) for it in e[2]) <= 1 and all(x[2] == 0 for it in e[2] for x in it if opposite(x))
            if e[0] == "brk":
                ok = ok and any(opposite(x) and x[2] == 1 for x in e[3])
        r.check(ok, "canonical/tautology %s" % got, "opposite neighbours", "copy_canonical returns %s after `%s`" % (pp(v), pp(evs)))
    r.saw(fn)
    r.floor("paths of copy_canonical", n, 3)


from vlib.lits import neg


def older(v):
    if not isinstance(v, tuple):
        return v
    return ("older",) if v == ("pe", "canonical") else tuple(older(x) for x in v)


def subset(prog, r):
    """is_subset walks two sorted lists in step."""
    fn = prog.fn(CK + "sorted_lits::is_subset")
    seen = set()

    class S(Helper):
        """ghost: (state of (subset, superset) at the previous comparison, outcome, strictness known) or None"""

        def rest(self, mem, v):
            v = self.deref(mem, v)
            return v if v is not None and v[0] == "rest" else None

        def checker(self, ip, c, args, mem, gh):
            if not c.names:
                return None
            n, ln = c.names[0], last(c.names[0])
            a = self.rest(mem, args[0]) if args else None
            if a is not None and ln in ("split_first", "first", "is_empty", "len"):
                at = (a[1], a[2])
                out = []
                for empty in (1, 0):
                    m = self.refine(mem, B(("empty", at)), empty, empty)
                    if m is None:
                        continue
                    if ln == "is_empty":
                        out.append((I(empty), m, gh))
                    elif ln == "len":
                        out.append((I(0) if empty else ("t", ("size", at), 1, 2 ** 62), m, gh))
                    elif empty:
                        out.append((NONE, m, gh))
                    else:
                        hd = REF(("head", at))
                        out.append((SOME(hd if ln == "first" else ("a", None, (hd, REF(("rest", a[1], (a[2] + 1) % 3))))), m, gh))
                return out
            D = [self.deref(mem, x) for x in args[:2]]
            if len(D) == 2 and all(x is not None and x[0] == "head" for x in D):
                names = [x[1][0] for x in D]
                flip = names == ["superset", "subset"]
                sub, sup = (D[1], D[0]) if flip else (D[0], D[1])
                if (sub[1][0], sup[1][0]) != ("subset", "superset"):
                    return None
                out = []
                for what in ("Less", "Greater", "Equal"):
                    shown = {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}[what] if flip else what
                    if ln == "cmp":
                        v = ("a", shown, ())
                    elif ln == "partial_cmp":
                        v = SOME(("a", shown, ()))
                    elif ln in ("lt", "gt", "le", "ge", "eq", "ne"):
                        v = I(int({"lt": shown == "Less", "gt": shown == "Greater", "le": shown != "Greater", "ge": shown != "Less", "eq": shown == "Equal", "ne": shown != "Equal"}[ln]))
                        known = gh[1][1] if gh[1] and gh[1][0] == (sub[1][1], sup[1][1]) else None
                        if known is not None and known != what:
                            continue
                    else:
                        return None
                    m = {k: x for k, x in mem.items() if not (k[0] == "F" and isinstance(k[1], tuple) and k[1][0] == "empty" and k[1][1] not in ((sub[1]), (sup[1])))}
                    skipped = bool(gh[1] and gh[1][2]) or what == "Greater"
                    out.append((v, m, self.stepped(gh, sub[1][1], sup[1][1], what, skipped)))
                return out
            return None

        def stepped(self, gh, i, j, what, skipped):
            prev = gh[1]
            if prev is not None and prev[0] != (i, j):
                di, dj = (i - prev[0][0]) % 3, (j - prev[0][1]) % 3
                seen.add((prev[1], di, dj))
            return (gh[0], ((i, j), what, skipped))
    ip = S(prog, contracts=())
    tys = [fn.loc_type(i) for i in range(1, fn.argc + 1)]
    sl = iter(("subset", "superset"))
    n = 0
    for strict in (0, 1):
        sl = iter(("subset", "superset"))
        args = [I(strict) if t == "bool" else REF(("rest", next(sl), 0)) for t in tys]
        for what, v, objs, g in ip.run(fn, args, {}, GH0):
            if what == "panic":
                continue
            n += 1
            mem = dict(objs)
            v = ip.close(mem, v)
            u = g[1]
            at = u[0] if u else (0, 0)
            emp = {}
            for k, f in mem.items():
                if k[0] == "F" and isinstance(k[1], tuple) and k[1][0] == "empty":
                    emp[k[1][1]] = f[-1] if f[-2] == f[-1] else None
            sub_empty = [e for (nm, i), e in emp.items() if nm == "subset" and e == 1]
            sup_empty = [e for (nm, i), e in emp.items() if nm == "superset" and e == 1]
            got = exact(v) if v is not None else None
            if u is not None and u[1] == "Less" and not sub_empty and not sup_empty:
                want = 0
            elif sub_empty:
                left = any(e == 0 for (nm, i), e in emp.items() if nm == "superset")
                skipped = bool(u and u[2])
                want = 1 if not strict or skipped else (1 if left and not sup_empty else 0 if sup_empty else None)
            elif sup_empty:
                want = 0
            else:
                want = None
            r.check(got is not None and want is not None and got == want, "subset/result %s" % (u and u[1]), "inclusion", "is_subset(strict=%d) returns %s where %s is right (last comparison %s, subset %s, superset %s)" % (
                strict, got, want, u and u[1], "used up" if sub_empty else "not used up", "used up" if sup_empty else "not known to be used up"))
    want = {("Greater", 0, 1), ("Equal", 1, 1)}
    r.check(seen <= want, "subset/steps", "advance", "is_subset advances by %s" % sorted(seen - want))
    r.saw(fn)
    r.floor("paths of is_subset", n, 6)
    r.floor("ways is_subset advances", len(seen), 2)


def relocation(prog, r):
    """Garbage collection and rehashing keep every clause."""
    BK = ("bucket", ("e", "buckets"))
    fi = {f["name"]: i for i, f in enumerate(prog.adt(Helper.CLAUSE)["variants"][0]["fields"])}
    over = {"literal_buffer": ("sl", "literal_buffer")}
    ip, ps = helper_paths(prog, "clauses::collect_garbage", cls=Moving, **over)
    saw(r, prog, ip)
    moved = 0
    old = Moving(prog).element(("e", BK))
    for p in ps:
        if p.what == "panic":
            continue
        if not any(e[0] == "loop" and e[1] == "buckets" for e in p.evs):
            r.check(set(p.fields) <= {"garbage_size"}, "garbage/none", "nothing changes", "garbage collection changes %s without going through the clauses" % ", ".join(sorted(p.fields)))
            continue
        its = [it for e in p.evs if e[0] == "loop" and e[1] == "buckets" for it in e[2]]
        for it in its:
            b = [e for e in it if e[0] == "bucket"]
            v = b[-1][1] if b else None
            items = None
            if v is not None and v[0] == "q" and len(v[2]) == 1 and v[2][0][0] == "each" and v[2][0][1] == BK:
                items = [x for alt in v[2][0][2] for x in alt]
            elif v == ("sl", BK):
                items = [] if any(e[0] == "loop" and e[1] == BK and not e[2] for e in it) else None      # an empty bucket
            good = items is not None
            for x in items or ():
                c = x[1] if x[0] == "one" else None
                good = good and c is not None and c[0] == "a" and c[2][fi["id"]] == old[2][fi["id"]] and c[2][fi["ref_count"]] == old[2][fi["ref_count"]] and c[2][fi["lits"]] == ("copied lits", ("sl", ("lits", ("e", BK))), "new buffer")
                moved += bool(good)
            r.check(good, "garbage/clauses", "every clause copied to the new buffer", "after garbage collection the clauses of a bucket are `%s`" % pp(v))
        lb = p.fields.get("literal_buffer")
        r.check(lb is not None and (lb == ("sl", "new buffer") or lb[0] == "q" and lb[2] == ()), "garbage/buffer", "new buffer in place", "after garbage collection the literal buffer is `%s`" % pp(lb))
        r.check(set(p.fields) <= {"literal_buffer", "garbage_size", "clauses"}, "garbage/fields", "nothing else", "garbage collection changes %s" % ", ".join(sorted(p.fields)))
    r.floor("clauses copied by garbage collection", moved, 1)
    ip, ps = helper_paths(prog, "hash::rehash", cls=Moving, solver_var_names=("solver_var_names",), **over)
    saw(r, prog, ip)
    n = 0
    for p in ps:
        if p.what == "panic":
            continue
        n += 1
        names = [i for i, e in enumerate(p.evs) if e[0] == "loop" and e[1] == "buffered_solver_var_names"]
        bs = [i for i, e in enumerate(p.evs) if e[0] == "loop" and e[1] == "buckets"]
        r.check(len(names) == 1 and len(bs) == 1 and names[0] < bs[0], "rehash/order", "new names first", "clauses are not rehashed once, after the new variable names are in effect")
        for s in seqs(p.evs):
            for e in s:
                if e[0] == "loop" and e[1] == BK:
                    want = [("moved", T(("hash", ("sl", ("lits", ("e", BK))))), old)]
                    for it in e[2]:
                        got = [x for x in it if x[0] == "moved"]
                        r.check(got == want, "rehash/clause", "every clause kept under its hash", "rehashing turns a clause into `%s`" % pp(got))
                if e[0] == "loop" and e[1] == "buffered_solver_var_names":
                    x = ("e", "buffered_solver_var_names")
                    for it in e[2]:
                        some = any(y == ("is", ("new name", x), "Some") for y in it)
                        want = ("name", "insert", ("global", x), ("solver name", x)) if some else ("name", "remove", ("global", x))
                        r.check([y for y in it if y[0] == "name"] == [want], "rehash/names", "name recorded", "rehashing records the names `%s`" % pp([y for y in it if y[0] == "name"]))
        inner = [e for s in seqs(p.evs) for e in s if e[0] == "loop" and e[1] == BK]
        r.check(bool(inner) or not any(it for i in bs for it in p.evs[i][2]), "rehash/all", "all clauses", "rehashing does not go through the clauses of a bucket")
        r.check(p.fields.get("clauses") in (("empty map",), None) and set(p.fields) <= {"clauses", "buffered_solver_var_names", "rename_in_buffered_solver_var_names"}, "rehash/fields", "nothing else", "rehashing changes %s" % ", ".join(sorted(p.fields)))
    r.floor("paths of rehashing", n, 4)
    ip, ps = helper_paths(prog, "variables::ensure_var")
    saw(r, prog, ip)
    for p in ps:
        r.check(p.what == "panic" or not p.fields and not p.cells and all(e[0] != "resize" or e[2] == "resize" for e in p.evs), "ensure_var/only grows", "tables only grow", "making a variable known changes %s" % ", ".join(sorted(p.fields)))


def acceptance(prog, r):
    """check_proof returns Ok only when every step parsed was accepted and the end step was reached."""
    fn = prog.fn(CK + "state::check_proof")
    SM = [f["name"] for f in prog.adt(STATE)["variants"][0]["fields"]]

    def hook(ip, c, args, mem, gh):
        n = c.names[0] if c.names else ""
        u = gh[1]
        if n.endswith("Parser::parse_step"):
            pending, failed, extra = u
            bad = pending or failed
            return [(OK(("parsed step",)), mem, user(gh, (True, bool(bad), extra))), (("a", "Err", (("parse error",),)), mem, user(gh, (False, True, extra)))]
        if n == CK + "state::check_step":
            pending, failed, extra = u
            step = [ip.close(mem, a) for a in args]
            ok = ("parsed step",) in step
            m = {k: v for k, v in mem.items() if not (k[0] == "F" and mentions(k[1], "ended"))}
            ip.put_field(m, STATE, "ended", B("ended"))
            ip.put_field(m, STATE, "step", ident("step"))
            return [(OK(), m, user(gh, (pending and not ok, failed, extra))), (("a", "Err", (("rejected",),)), m, user(gh, (False, True, extra)))]
        if n == CK + "state::process_unit_conflicts":
            return [(OK(), mem, user(gh, (u[0], u[1], True))), (("a", "Err", (("processor",),)), mem, user(gh, (u[0], True, True)))]
        if n.endswith("downcast"):
            return [(OK(("io error",)), mem, gh), (("a", "Err", (("other error",),)), mem, gh)]
        return None

    class A(Check):
        VARIANT_EVENTS = False

        def learned(self, mem, gh, term, x):
            return gh
    ip = A(prog, more=hook, contracts=())
    mem = memory(prog)
    args = [("ctx",) if "Ref" in fn.loc_type(i) or "partial" in fn.loc_type(i).lower() else ("input",) for i in range(1, fn.argc + 1)]
    n = ok = 0
    for what, v, objs, g in ip.run(fn, args, mem, (GH0[0], (False, False, False))):
        if what == "panic":
            continue
        n += 1
        m = dict(objs)
        v = ip.close(m, v)
        pending, failed, extra = g[1]
        if v is not None and v[0] == "a" and v[1] == "Ok":
            ok += 1
            ended = m[("o", STATE)][2][SM.index("ended")]
            ended = ip.known(m, ended)
            r.check(ended == I(1), "accept/end", "end step reached", "check_proof accepts a proof although no end step was checked")
            r.check(not pending and not failed, "accept/all", "every step checked", "check_proof accepts a proof although a step %s" % ("was rejected or could not be parsed" if failed else "was not checked"))
            r.check(extra, "accept/units", "unit conflicts reported", "check_proof accepts a proof without reporting a conflict of unit clauses")
        else:
            r.check(v is not None and v[0] == "a" and v[1] == "Err", "accept/result", "an error", "check_proof returns `%s`" % pp(v))
    saw(r, prog, ip)
    r.floor("outcomes of check_proof", n, 4)
    r.floor("ways check_proof accepts", ok, 1)


def ownership(prog, r):
    """The state is only changed by the functions interpreted above (and the constructor)."""
    n = 0
    for adt, skip in ((CLAUSES, {"literal_buffer", "garbage_size"}), (STATE, {"step"}), (RUP, ()), (VARS, {"used_user_vars"}), (HASHER, ())):
        short = last(adt)
        sites = [(f["name"], s) for f in prog.adt(adt)["variants"][0]["fields"] if f["name"] not in skip for s in mut_sites(prog, short, f["name"], ("varisat_checker",))]
        for f, s in sites + [("*", s) for s in whole_sites(prog, short)]:
            n += 1
            r.check(s.body.id in VISITED or s.body.id in HELPED, "ownership/%s.%s/%s" % (short, f, cname_of(s.body)), "changed by a checked function only", "%s.%s is changed in %s, which is not part of checking a step (%s)" % (short, f, s.body.path, s.span()))
    r.floor("places that change the checker's state", n, 30)


HELPED = set()


def cname_of(body):
    return last(strip_closure(body.path))


def strip_closure(p):
    return p.split("::{closure")[0]
