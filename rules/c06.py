"""C06 — DRAT output contains every clause addition and deletion."""
from vlib.common import *
from vlib import steps
from vlib.absint import Stuck
from vlib.terms import T, I
from vlib.outputs import tokens
from vlib.proofout import ProofOut, memory, run_step, rename_lit, length

EXPLANATION = ("Term-based abstract interpretation of proof::add_step down to the bytes written, for every kind of proof step with arbitrary field values (sequences of any length, every write may "
               "fail), both DRAT encodings, literals in solver or global names: the token structure of everything written to the target must be exactly one terminated line per added, proven or "
               "deleted clause with the step's literals in order and in global names, nothing for steps that do not change clauses, and steps DRAT cannot express must be refused.")

LINES = {"AtClause": ("clause", True), "DeleteClause": ("clause", False)}
REFUSED = {"AddClause", "Assumptions", "FailedAssumptions"}


def run(prog, r):
    widths(prog, r, "varisat::proof")
    r.rule("everything written for a step = its clause additions / deletions as complete lines")
    try:
        decide(prog, r)
    except Stuck as e:
        r.fail("undecided", str(e))


def clause(binary, add, mid):
    if binary:
        return join((b"a" if add else b"d",) + mid + (b"\0",))
    return join((() if add else (b"d ",)) + mid + (b"0\n",))


def join(ts):
    out = []
    for t in ts:
        if isinstance(t, bytes) and out and isinstance(out[-1], bytes):
            out[-1] += t
        else:
            out.append(t)
    return tuple(out)


def lit_tokens(binary, x):
    if binary:
        return (("leb", ("t", ("+", ("t", ("code", x), 0, 2 ** 32 - 1), 2), 2, 2 ** 32 + 1)),)
    return (("dec", ("t", ("dimacs", x), -2 ** 31, 2 ** 31)), b" ")


def expected(binary, kind, ren, mem):
    """Set of token sequences the step may write, given what the path knows about the sequences' lengths; None: any refusal."""
    if kind in LINES:
        f, add = LINES[kind]
        n = "%s.%s" % (kind, f)
        ln = length(mem, n)
        full = clause(binary, add, (("rep", n, frozenset({lit_tokens(binary, ren(("e", n)))})),))
        return {full} if ln == "nonempty" else {clause(binary, add, ())} if ln == "empty" else set()
    if kind == "UnitClauses":
        n = "UnitClauses.units"
        ln = length(mem, n)
        line = clause(binary, True, lit_tokens(binary, ren(("e", n + "#lit"))))
        return {(("rep", n, frozenset({line})),)} if ln == "nonempty" else {()} if ln == "empty" else set()
    return {()}


def decide(prog, r):
    shape = steps.shape(prog)
    kinds = sorted(shape)
    lines = writes = outcomes = 0
    for fmt in ("Drat", "BinaryDrat"):
        binary = fmt == "BinaryDrat"
        for sv in (0, 1):
            for kind in kinds:
                ip = ProofOut(prog)
                res = run_step(prog, ip, steps.build(prog, kind), sv, memory(prog, fmt))
                for b in ip.bodies:
                    r.saw(prog.bodies[b])
                writes += ip.writes
                key = "%s/%s/%s" % (fmt, kind, "solver" if sv else "global")
                done = 0
                for what, evs, u, err, mem in res:
                    outcomes += 1
                    got = tokens(evs)
                    normal = what == "ret" and err is not None and err[0] == "a" and err[1] == "None"
                    if u == "failed":
                        r.check(not normal, key + "/failed", "a failed write is stored as an error", "writing a %s step fails and the step ends as if it had been written" % kind)
                        continue
                    if kind in REFUSED:
                        done += 1
                        r.check(not normal and not got, key, "refused", "a %s step is accepted in a DRAT proof" % kind)
                        continue
                    if what == "panic":
                        r.check(sv, key + "/panic", "no panic", "writing a %s step panics" % kind)
                        continue
                    done += 1
                    want = expected(binary, kind, rename_lit(sv), mem)
                    if got in want and normal:
                        lines += bool(got)
                        r.ok(key, "%s writes %s" % (kind, show(got)))
                    else:
                        r.fail(key, "%s in %s (%s variable names): the output is `%s`, it must be `%s`" % (kind, fmt, "solver" if sv else "global", show(got), " or ".join(show(w) for w in sorted(want, key=repr)) or "one of the lines of the step"))
                if not done:
                    r.fail(key, "no outcome of writing a %s step in %s was recognised" % (kind, fmt))
    r.count("outcomes", outcomes)
    r.floor("step kinds", len(kinds), 12)
    r.floor("outcomes that write lines", lines, 12)
    r.floor("writes interpreted", writes, 20)


def show(ts):
    out = []
    for t in ts:
        if isinstance(t, bytes):
            out.append(repr(t)[1:])
        elif t is None:
            out.append("?")
        elif t[0] in ("rep", "brk"):
            out.append("(%s)*[%s]" % (" | ".join(show(x) for x in sorted(t[2], key=repr)), t[1]))
        elif t[0] in ("dec", "leb"):
            out.append("%s(%s)" % (t[0], term(t[1])))
        else:
            out.append(str(t))
    return " ".join(out) or "nothing"


def term(v):
    if v is None:
        return "?"
    if isinstance(v, str):
        return v
    if v[0] == "lin":
        return "%s*%d+%d" % (term(v[1]), v[2], v[3])
    if v[0] == "i":
        return str(v[1])
    if v[0] == "t":
        return term(v[1])
    if isinstance(v[0], str):
        return "%s(%s)" % (v[0], ",".join(term(x) if isinstance(x, tuple) else str(x) for x in v[1:]))
    return str(v)
