"""C29 — proof steps reach the native proof and the self-checker unchanged except for variable names and hash width."""
from vlib.common import *
from vlib import steps
from vlib.absint import Stuck
from vlib.terms import T, I, SOME, NONE, OK, ERR, emit, user, exact
from vlib.proofout import ProofOut, memory, run_step, run_fn, rename_lit, length, PROOF

EXPLANATION = ("Term-based abstract interpretation of proof::add_step for every kind of proof step with arbitrary field values: the steps handed to the native writer and to the self-checker are "
               "compared field by field with the given step after renaming the variables of its literals (and nothing else) and, for the writer, shifting its hashes right by 64 minus the width "
               "announced last; a width change is written before the first step that uses it. Hash widths are interpreted concretely for representative widths and clause counts.")

WIDTHS = ((64, 0, 0), (64, 0, 1), (64, 3, 1), (6, 0, 0), (6, 200, 0), (8, 40, 1), (24, 1000, 1))


def run(prog, r):
    r.rule("steps written and checked = the given step, with literals renamed and hashes cut to the announced width")
    try:
        decide(prog, r)
    except Stuck as e:
        r.fail("undecided", str(e))


def hook(ip, c, args, mem, gh):
    if c.name.endswith("binary_format::write_step"):
        g = emit(gh, ("native", ip.close(mem, args[1])))
        return [(OK(), mem, g), (ERR, mem, user(gh, "failed"))]
    if c.names and c.names[0] == "varisat_checker::Checker::add_clause":
        return [(OK(), mem, emit(gh, ("input", ip.close(mem, args[1]))))]
    if c.name.endswith("self_check_step"):
        return [(OK(), mem, emit(gh, ("check", ip.close(mem, args[1]))))]
    return None


def same(got, want, ip, mem, lit, hsh):
    """None if the field value is the expected one, else a description."""
    if want is not None and want[0] == "p":
        n = want[1][2][1]
        el = elem(ip, n, lit, hsh)
        ln = length(mem, n)
        if got == ("sl", n):
            return None if el == steps.element(ip.prog, ("e", n)) else "the elements of `%s` are not translated" % n
        if got is None or got[0] != "q":
            return "`%s` is replaced by something unrecognisable" % n
        exp = {"nonempty": {(("each", n, frozenset({(("one", el),)})),)}, "empty": {(), (("each", n, frozenset({(("one", el),)})),)}}.get(ln, {(("each", n, frozenset({(("one", el),)})),)})
        return None if got[2] in exp else "`%s` does not hold exactly the translated elements" % n
    if got == want:
        return None
    if want is not None and want[0] == "u" and got is not None and got[0] == "a" and (got[1], got[2]) in want[2]:
        return None
    return "the field value %s is changed to %s" % (want, got)


def elem(ip, n, lit, hsh):
    k = steps.element_type(ip.prog, ("e", n))
    if k == "pair":
        return ("a", None, (lit(("e", n + "#lit")), hsh(T(("e", n + "#hash")))))
    return hsh(T(("e", n))) if k == "hash" else lit(("e", n))


def compare(got, step, ip, mem, lit, hsh):
    if got is None or got[0] != "a" or got[1] != step[1]:
        return "the step is %s" % (got[1] if got is not None and got[0] == "a" else "not recognisable")
    for x, y in zip(got[2], step[2]):
        e = same(x, y, ip, mem, lit, hsh)
        if e:
            return e
    return None


def decide(prog, r):
    shape = steps.shape(prog)
    names = [f["name"] for f in prog.adt(PROOF)["variants"][0]["fields"]]
    n = checked = rehash = 0
    for kind in sorted(shape):
        for sv in (0, 1):
            for fmt, chk, widths in (("Varisat", NONE, WIDTHS), ("Varisat", SOME(("checker",)), WIDTHS[:2]), (None, SOME(("checker",)), WIDTHS[:1]), ("Drat", SOME(("checker",)), WIDTHS[:1])):
                if fmt == "Drat" and kind in ("AddClause", "Assumptions", "FailedAssumptions"):
                    continue
                for bits, count, invoked in widths:
                    ip = ProofOut(prog, hook)
                    step = steps.build(prog, kind)
                    key = "%s/%s%s/%s" % (kind, fmt or "checker only", "+checker" if fmt and chk != NONE else "", "solver" if sv else "global")
                    done = 0
                    for what, evs, u, err, mem in run_step(prog, ip, step, sv, memory(prog, fmt, checker=chk, hash_bits=bits, clause_count=count, invoked=invoked)):
                        n += 1
                        if what == "panic":
                            r.check(sv, key + "/panic", "no panic", "a %s step panics" % kind)
                            continue
                        if u == "failed":
                            continue
                        done += 1
                        nat = [e[1] for e in evs if e[0] == "native"]
                        chks = [e[1] for e in evs if e[0] == "check"]
                        if fmt == "Varisat":
                            w = bits
                            if len(nat) == 2 and nat[0] is not None and nat[0][0] == "a" and nat[0][1] == "ChangeHashBits" and exact(nat[0][2][0]) is not None:
                                w = exact(nat[0][2][0])
                                rehash += 1
                                nat = nat[1:]
                            p = mem.get(("o", PROOF))
                            kept = exact(p[2][names.index("hash_bits")]) if p is not None and p[0] == "a" else None
                            r.check(kept == w, key + "/width", "the width in use is the one announced", "the hash width kept after a %s step is %s, the last one announced in the proof is %d" % (kind, kept, w))
                            if len(nat) != 1:
                                r.fail(key + "/native", "a %s step is written %d times to a native proof" % (kind, len(nat)))
                                continue
                            e = compare(nat[0], step, ip, mem, rename_lit(sv), lambda h: ip.arith("Shr", h, I(64 - w), "u64"))
                            r.check(e is None, key + "/native", "written as given", "%s step in a native proof (%s variable names, %d hash bits): %s" % (kind, "solver" if sv else "global", w, e))
                        else:
                            r.check(not nat, key + "/native", "no native output", "a native step is written without a native proof")
                        if chk != NONE:
                            checked += 1
                            if len(chks) != 1:
                                r.fail(key + "/check", "a %s step is checked %d times" % (kind, len(chks)))
                                continue
                            e = compare(chks[0], step, ip, mem, rename_lit(sv), lambda h: h)
                            r.check(e is None, key + "/check", "checked as given", "%s step given to the self-checker (%s variable names): %s" % (kind, "solver" if sv else "global", e))
                        else:
                            r.check(not chks, key + "/check", "no check", "a step is checked without a checker")
                    for b in ip.bodies:
                        r.saw(prog.bodies[b])
                    if not done:
                        r.fail(key, "no outcome of a %s step was recognised" % kind)
    inputs(prog, r, shape)
    r.count("outcomes", n)
    r.floor("step kinds", len(shape), 12)
    r.floor("width changes", rehash, 30)
    r.floor("steps given to the checker", checked, 50)


def inputs(prog, r, shape):
    """Input clauses: handed to the checker as such before solving, a proof step afterwards."""
    fn = prog.fn("varisat::proof::add_clause")
    want = steps.build(prog, "AddClause")
    n = 0
    for invoked in (0, 1):
        for fmt, chk in (("Varisat", NONE), ("Varisat", SOME(("checker",))), (None, SOME(("checker",)))):
            ip = ProofOut(prog, hook)
            key = "input clause %s solving/%s%s" % ("after" if invoked else "before", fmt or "checker only", "+checker" if fmt and chk != NONE else "")
            args = [want[2][0] if "Lit]" in fn.loc_type(i) else ("ctx",) for i in range(1, fn.argc + 1)]
            for o in run_fn(prog, ip, fn, args, memory(prog, fmt, checker=chk, invoked=invoked)):
                what, evs, u, err, mem = o
                if what == "panic" or u == "failed":
                    continue
                n += 1
                sent = {k: [e[1] for e in evs if e[0] == k] for k in ("native", "check", "input")}
                expect = {"native": 1 if invoked and fmt else 0, "check": 1 if invoked and chk != NONE else 0, "input": 0 if invoked or chk == NONE else 1}
                for k, m in expect.items():
                    got = [s for s in sent[k] if k != "native" or not (s is not None and s[0] == "a" and s[1] == "ChangeHashBits")]
                    if len(got) != m:
                        r.fail(key + "/" + k, "the clause is sent %d times instead of %d times to the %s" % (len(got), m, {"native": "native proof", "check": "self-checker as a step", "input": "self-checker as an input clause"}[k]))
                        continue
                    for s in got:
                        e = same(s, want[2][0], ip, mem, rename_lit(1), lambda h: h) if k == "input" else compare(s, want, ip, mem, rename_lit(1), lambda h: h)
                        r.check(e is None, key + "/" + k, "the clause as given", "%s: %s" % (key, e))
            for b in ip.bodies:
                r.saw(prog.bodies[b])
    r.floor("input clause outcomes", n, 6)
