"""C08 — Checked models and failed assumptions were verified against the formula."""
from vlib.common import *
from vlib.absint import Stuck, exact, I
from vlib.checkersteps import *
from vlib.checkersteps import ModelCheck, Path
from vlib.lits import neg
from vlib.terms import B
from . import c07

EXPLANATION = ("Term-based abstract interpretation of whole Model, Assumptions and FailedAssumptions steps of the checker with arbitrary literals and checker state; every path that reports the result "
               "must have established the listed facts for every literal and every stored clause.  The helpers used (canonical form, inclusion, unit propagation check) are decided from their own code.")


def run(prog, r):
    r.rule("a model is only reported after it was compared with units, itself, assumptions and all clauses; failed assumptions only after they were found assumed and refuted")
    for part in (models, assumptions, failed, c07.canonical, c07.subset, c07.propagation):
        try:
            part(prog, r)
        except Stuck as e:
            r.fail("undecided/" + part.__name__, "%s: %s" % (part.__name__, e))


def models(prog, r):
    ip, ps = model_paths(prog)
    for b in ip.bodies:
        r.saw(prog.bodies[b])
    M, n = ModelCheck.M, {"model": 0, "lits": 0, "clauses": 0, "assumptions": 0}
    for p in ps:
        if p.what == "panic":
            continue
        reports = [e for e in flat(p.evs) if e[0] == "report"]
        if not reports:
            r.check(p.err, "model/rejected", "rejected", "a Model step is accepted without reporting a model")
            continue
        n["model"] += 1
        r.check(p.all("report") == reports and len(reports) == 1 and reports[0][1] == ("a", "Model", (("sl", M),)), "model/report", "the model given", "a Model step reports `%s`" % pp(reports[0][1]))
        r.check(p.fact(B("unsat")) is False, "model/unsat", "formula not unsatisfiable", "a model is reported although the formula may be known to be unsatisfiable")
        before = list(p.evs[:p.evs.index(reports[0])]) if reports[0] in p.evs else []

        def when(loop, *fact):
            """Position of the first loop over `loop` every iteration of which established the fact."""
            return next((i for i, e in enumerate(before) if e[0] == "loop" and e[1] == loop and all(("fact",) + fact in it for it in e[2])), None)
        sets = sorted({f[2] for e in before if e[0] == "loop" for it in e[2] for f in it if f[0] == "fact" and f[1] == "collected"}) or ["local"]
        r.check(when(M, "units") is not None, "model/units", "no literal contradicts a unit clause", "a model is reported although one of its literals may contradict a unit clause")
        best = None
        for S in sets:
            fill = when(M, "collected", S)
            after = lambda *f: fill is not None and (lambda i: i is not None and i >= fill)(when(*f))
            res = [(fill is not None, "collect", "all literals collected", "not every literal of the model is collected"),
                   (S not in ip.other, "collect other", "nothing else collected", "the set compared with the clauses contains other literals than those of the model: %s" % sorted(map(pp, ip.other.get(S, ())))),
                   (after(M, "consistent", S), "consistent", "no complementary literals", "a model is reported although it may contain a literal and its negation"),
                   (after("assumptions", "in", S), "assumptions", "all assumptions contained", "a model is reported although it may not contain an assumption"),
                   (after("buckets", "clauses", S), "clauses", "every clause satisfied", "a model is reported although it may not satisfy every stored clause")]
            if best is None or sum(x[0] for x in res) > sum(x[0] for x in best):
                best = res
        for ok, key, fact, msg in best:
            r.check(ok, "model/" + key, fact, msg)
        for e in before:
            if e[0] == "loop":
                n["lits"] += e[1] == M and bool(e[2])
                n["clauses"] += e[1] == "buckets" and bool(e[2])
                n["assumptions"] += e[1] == "assumptions" and bool(e[2])
    for k, v in n.items():
        r.floor("reported models: " + k, v, {"model": 4, "lits": 2, "clauses": 2, "assumptions": 2}[k])


def assumptions(prog, r):
    ip, ps = step_paths(prog, "Assumptions")
    n = 0
    for p in ps:
        for e in flat(p.evs):
            if e[0] == "report":
                n += 1
                r.check(e[1] == ("a", "Assumptions", (CANON("Assumptions.assumptions"),)), "assumptions/report", "the assumptions given", "an Assumptions step reports `%s`" % pp(e[1]))
        if p.ok:
            r.check(p.fields.get("assumptions") == CANON("Assumptions.assumptions"), "assumptions/current", "become current", "an Assumptions step makes `%s` the current assumptions" % pp(p.fields.get("assumptions")))
    for k, v in all_steps(prog, r).items():
        for p in v:
            r.check(k == "Assumptions" or "assumptions" not in p.fields, "assumptions/" + k, "only changed by their own step", "a %s step changes the current assumptions" % k)
    r.floor("reported assumptions", n, 2)


def failed(prog, r):
    ip, ps = step_paths(prog, "FailedAssumptions")
    for b in ip.bodies:
        r.saw(prog.bodies[b])
    k, n, refuted = "FailedAssumptions.failed_core", 0, 0
    for p in ps:
        if p.what == "panic":
            continue
        rep = [i for i, e in enumerate(p.evs) if e[0] == "report"]
        if not rep:
            r.check(p.err and not any(e[0] == "report" for e in flat(p.evs)), "failed/rejected", "rejected", "a FailedAssumptions step is accepted without reporting the failed assumptions")
            continue
        n += 1
        v = p.evs[rep[0]][1]
        ok = len(rep) == 1 and v is not None and v[1] == "FailedAssumptions" and same_list(p, v[2][field(prog, "FailedAssumptions", "failed_core")], k, False)
        r.check(ok, "failed/report", "the core given", "a FailedAssumptions step reports `%s`" % pp(v))
        r.check(p.fact(B(("subset", CANON(k), ("sl", "assumptions"), I(0)))) is True, "failed/assumed", "only current assumptions", "failed assumptions are reported although not all of them may be current assumptions")
        taut = p.fact(B(("taut", ("sl", k))))
        rup = [e for e in p.evs[:rep[0]] if e[0] == "rup"]
        if taut is not True:
            refuted += bool(rup)
            r.check(bool(rup) and same_list(p, rup[-1][1], k, True) and rup[-1][2] == ("sl", "FailedAssumptions.propagation_hashes") and not p.failed or p.failed and p.err, "failed/refuted", "negation verified",
                    "failed assumptions are reported after verifying `%s`" % pp(rup and rup[-1][1]))
    r.floor("reported failed assumptions", n, 3)
    r.floor("failed assumptions verified", refuted, 2)


def field(prog, variant, name):
    v = next(v for v in prog.adt(CHECKED)["variants"] if v["name"] == variant)
    return [f["name"] for f in v["fields"]].index(name)


def same_list(p, v, k, negated):
    """v lists the canonical literals of the step (negated)."""
    c = CANON(k)
    f = neg if negated else lambda y: y
    if v == c:
        return not negated or p.ip.interval(p.mem, ("t", ("len", c[1]), 0, 2 ** 62)) == (0, 0)
    if v is None or v[0] != "q":
        return False
    if v[2] == ():
        return p.ip.interval(p.mem, ("t", ("len", c[1]), 0, 2 ** 62)) == (0, 0)
    return v[2] == (("each", c[1], frozenset({(("one", f(("e", c[1]))),)})),)
