"""C31 — Variable declarations of a proof are checked."""
from vlib.common import *
from vlib.absint import Stuck, exact, I
from vlib.checkersteps import *
from vlib.terms import T, B, SOME
from . import c07, c25

EXPLANATION = ("Term-based abstract interpretation of every kind of checker step with arbitrary contents and checker state: for each path that declares, renames, hides, deletes or changes the sampling mode of a variable the "
               "facts the path established are compared with the conditions under which the declaration is consistent, the table entries and the set of user names in use with what must be recorded, and rejections "
               "with the conditions that justify one.")


def run(prog, r):
    r.rule("a variable declaration is accepted iff it is consistent with the recorded names, modes and clause counts; what is recorded is what was declared; formula clauses and assumptions only use sampling variables")
    for part in (declarations, sampling, lengths):
        try:
            part(prog, r)
        except Stuck as e:
            r.fail("undecided/" + part.__name__, "%s: %s" % (part.__name__, e))


def lengths(prog, r):
    """New variables start without name, as sampling variables, without clauses."""
    c25.extension(prog, r, set())
    for fn, want in ((VARDATA, {"user_var": "None", "sampling_mode": "Sample"}), (LITDATA, {"clause_count": 0})):
        b = next((b for b in prog.bodies.values() if b.name == "default" and b.raw.get("self") == fn or b.name.endswith("::default") and b.loc_type(0) == fn), None)
        b = b or next((b for b in prog.bodies.values() if b.crate == "varisat_checker" and b.argc == 0 and b.loc_type(0) == fn and last(b.name) == "default"), None)
        if b is None:
            raise Stuck("default of %s not found" % fn)
        ip = Helper(prog, contracts=())
        fs = [f["name"] for f in prog.adt(fn)["variants"][0]["fields"]]
        for what, v, o, g in ip.run(b, [], {}, (((None, 0, ()),),) if False else c07.GH0):
            v = ip.close(dict(o), v)
            got = {n: (x[1] if x is not None and x[0] == "a" else exact(x)) for n, x in zip(fs, v[2])} if v is not None and v[0] == "a" else {}
            r.check(all(got.get(n) == w for n, w in want.items()), "default/" + last(fn), "initial state", "a new variable starts with %s=%s" % (last(fn), pp(v)))


class View:
    """What a path knows about one variable."""
    def __init__(self, prog, p, v):
        self.p, self.fs = p, [f["name"] for f in prog.adt(VARDATA)["variants"][0]["fields"]]
        ix = vindex(v)
        self.old = p.ip.close(p.mem, p.mem.get(("o", ("cell0", "var", ix))))
        self.new = p.ip.close(p.mem, p.mem.get(("o", ("cell", "var", ix))))
        self.others = [k for k in p.cells if k[0] == "var" and k[1] != ix]

    def of(self, cell, field):
        if cell is None or cell[0] != "a":
            return None
        return cell[2][self.fs.index(field)]

    def name(self, cell):
        """'None', ('Some', x) or None (not determined)."""
        v = self.of(cell, "user_var")
        return None if v is None or v[0] != "a" else "None" if v[1] == "None" else ("Some", v[2][0])

    def mode(self, cell):
        """Possible modes."""
        v = self.of(cell, "sampling_mode")
        if v is not None and v[0] == "a":
            return {v[1]}
        if v is not None and v[0] == "u":
            return {n for n, _ in v[2]}
        return {"Sample", "Witness", "Hide"}


def declarations(prog, r):
    steps = all_steps(prog, r)
    n = {"named": 0, "unnamed": 0, "deleted": 0, "mode": 0, "rejected": 0}
    for kind, ps in steps.items():
        for p in ps:
            sets = [e for e in flat(p.evs) if e[0] in ("insert", "remove") and e[1] == "used_user_vars"]
            cells = [k for k in p.cells if k[0] == "var"] + [e for e in flat(p.evs) if e[0] == "set" and e[1] == "var"]
            if kind not in ("UserVarName", "DeleteVar", "ChangeSamplingMode"):
                r.check(not sets and not cells, "other/" + kind, "declarations kept", "a %s step changes the declaration of a variable" % kind)
                continue
            v = ("var", kind + (".global" if kind == "UserVarName" else ".var"))
            w = View(prog, p, v)
            on, om, nn, nm = w.name(w.old), w.mode(w.old), w.name(w.new), w.mode(w.new)
            same_name = w.of(w.old, "user_var") == w.of(w.new, "user_var")
            key = kind + "/"
            if p.failed or p.what == "panic":
                continue
            r.check(not w.others, key + "other", "one variable", "a %s step changes the declaration of another variable" % kind)
            fact = lambda t: p.fact(B(t))
            if kind == "UserVarName":
                u = ("var", "UserVarName.user")
                known, used = p.ip.known(p.mem, p.ip.compare(p.mem, "Lt", vindex(u), NVARS)), fact(("has", "used_user_vars", u))
                given = next((e[2] for e in p.evs if e[0] == "is" and e[1] == ("opt", "UserVarName.user")), None)
                if given is None:
                    raise Stuck("a path of the user name step does not look whether a name is given")
                if given == "Some":
                    if p.ok:
                        n["named"] += 1
                        r.check(exact(known) == 1, key + "known", "user name within the variables", "a user name is accepted without checking that it is smaller than the number of variables")
                        r.check(used is False, key + "unique", "user name not in use", "a user name is accepted without checking that no other variable uses it")
                        r.check(on == "None", key + "unnamed", "no name yet", "a user name is accepted for a variable that may already have a name")
                        r.check("Hide" not in om, key + "visible", "not hidden", "a user name is accepted for a variable that may be hidden")
                        r.check(nn == ("Some", u), key + "recorded", "name recorded", "the user name recorded is `%s`" % pp(w.of(w.new, "user_var")))
                        r.check(nm == om, key + "mode kept", "mode kept", "naming a variable changes its sampling mode")
                        r.check([e[:3] for e in sets] == [("insert", "used_user_vars", u)], key + "in use", "name in use", "after a variable was named the names in use change by %s" % [pp(e) for e in sets])
                    elif p.err:
                        n["rejected"] += 1
                        r.check(exact(known) == 0 or used is True or (on is not None and on != "None") or om == {"Hide"}, key + "rejected", "rejected for a reason", "a user name that is free is rejected for a visible variable without a name")
                        r.check(not sets and not cells, key + "rejected state", "nothing recorded", "a rejected user name changes the recorded declarations")
                else:
                    if p.ok:
                        n["unnamed"] += 1
                        r.check(on is not None and on != "None", key + "named", "had a name", "the removal of a user name is accepted for a variable without a name")
                        r.check(nn == "None" and nm == {"Hide"}, key + "hidden", "hidden", "after its user name was removed a variable is recorded as `%s`" % pp(w.new))
                        r.check(on is not None and on != "None" and [e[:3] for e in sets] == [("remove", "used_user_vars", on[1])], key + "free", "name free again", "after a user name was removed the names in use change by %s" % [pp(e) for e in sets])
                    elif p.err:
                        n["rejected"] += 1
                        r.check(on == "None", key + "rejected", "rejected for a reason", "the removal of a user name is rejected for a variable that has one")
            elif kind == "DeleteVar":
                counts = [exact(p.ip.known(p.mem, p.ip.compare(p.mem, "Eq", p.ip.close(p.mem, lit_count(prog, p, v, s)) or ("t", ("?",), 0, 9), I(0)))) for s in (0, 1)]
                if p.ok:
                    n["deleted"] += 1
                    r.check(on == "None", key + "unnamed", "no user name", "a variable with a user name can be deleted")
                    r.check(counts == [1, 1], key + "unused", "in no clause", "a variable can be deleted although a clause may contain its %s literal" % ("positive" if counts[1] != 1 else "negative"))
                    r.check(nn == "None" and nm == {"Sample"} and not sets, key + "reset", "reset", "a deleted variable is recorded as `%s`" % pp(w.new))
                    unit = p.ip.close(p.mem, p.mem.get(("o", ("cell", "unit", vindex(v)))))
                    r.check(unit is not None and unit[0] == "a" and unit[1] == "None", key + "unit", "unit clause deleted", "a deleted variable keeps its unit clause")
                elif p.err:
                    n["rejected"] += 1
                    r.check(on is not None and on != "None" or 0 in counts, key + "rejected", "rejected for a reason", "the deletion of an unused variable without a name is rejected")
            else:
                s = p.ip.known(p.mem, B("ChangeSamplingMode.sample"))
                if exact(s) is None:
                    s = p.ip.known(p.mem, T("ChangeSamplingMode.sample", 0, 1))
                want = "Sample" if exact(s) == 1 else "Witness"
                if p.ok:
                    n["mode"] += 1
                    r.check(exact(s) is not None and (nm == {want} or w.new is None and om == {want}), key + "mode", "mode recorded", "after a change to %s the variable is recorded as `%s`" % (want, pp(w.new)))
                    r.check(w.new is None or same_name, key + "name", "name kept", "changing the sampling mode changes the user name")
                    r.check(want == "Witness" or om == {"Sample"} or on is not None and on != "None", key + "visible", "only named variables become sampling variables", "a variable without a user name can become a sampling variable")
                    r.check(not sets, key + "names", "names kept", "changing the sampling mode changes the user names in use")
                elif p.err:
                    n["rejected"] += 1
                    r.check(want == "Sample" and exact(s) is not None and on == "None" and om != {"Sample"}, key + "rejected", "rejected for a reason", "a change to %s is rejected for a variable with %s" % (want, "a user name" if on != "None" else "mode %s" % sorted(om)))
    for k, lo in (("named", 1), ("unnamed", 1), ("deleted", 1), ("mode", 3), ("rejected", 6)):
        r.floor("paths: " + k, n[k], lo)


def lit_count(prog, p, v, sign):
    """Number of clauses with the literal of v, as recorded before the step."""
    for k, x in p.mem.items():
        if k[0] == "o" and isinstance(k[1], tuple) and k[1][0] == "cell0" and k[1][1] == "lit":
            i = k[1][2]
            if i is not None and i[0] == "t" and isinstance(i[1], tuple) and i[1][0] == "code" and i[1][1] in (("lit", v, I(sign)), ("neg", ("lit", v, I(1 - sign)))):
                return x[2][0]
    return None


def sampling(prog, r):
    ip, ps = helper_paths(prog, "variables::ensure_sampling_var")
    c07.saw(r, prog, ip)
    n = 0
    for p in ps:
        n += 1
        w = View(prog, p, ("var", "v"))
        om = w.mode(w.old)
        r.check(not p.cells, "sampling/state", "declarations kept", "checking for a sampling variable changes its declaration")
        r.check(p.ok and om == {"Sample"} or p.err and "Sample" not in om, "sampling/result", "accepted iff sampling variable", "a variable with mode %s is %s as sampling variable" % (sorted(om), "accepted" if p.ok else "rejected"))
        r.check(any(e[0] == "ensure" and e[1] == ("var", "v") for e in p.evs), "sampling/new", "new variables created", "a new variable is not created when a clause of the formula mentions it")
    r.floor("paths of the sampling check", n, 2)
    m = 0
    for kind, ps in all_steps(prog, r).items():
        if kind not in ("AddClause", "Assumptions"):
            continue
        for p in ps:
            for s in seqs(p.evs):
                for e in s:
                    if e[0] == "store":
                        m += 1
                        c25.covered(r, p, kind, e[1])
                    elif e[0] == "report":
                        m += c25.visible(prog, r, kind, p, e)
            if kind == "Assumptions" and p.ok:
                m += 1
                r.check(p.fields.get("assumptions") == CANON("Assumptions.assumptions"), "assumptions", "assumptions recorded", "after an assumption step the recorded assumptions are `%s`" % pp(p.fields.get("assumptions")))
    r.floor("clauses and assumptions checked for sampling variables", m, 6)
