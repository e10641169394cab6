"""C15 — The command line tool's verdict, exit code and printed answer agree."""
import re

from vlib.common import *
from vlib.absint import Stuck, exact, I
from vlib.outputs import Out, tokens, shown
from vlib.terms import REF, GH0, T, B, NONE, SOME, OK, UNIT, emit, user

EXPLANATION = ("Term-based abstract interpretation of the command line tool's main functions with arbitrary arguments and arbitrary results of every library call: for every path the verdict, model and exit code are compared with "
               "what the solver or checker returned on that path, with the proof outputs that were requested and finished, and with whether the whole input was read.")
FORMATS = {"drat": "Drat", "binary-drat": "BinaryDrat", "varisat": "Varisat"}
LRAT = {"lrat": 0, "clrat": 1}
MAIN, CHECKMAIN = "varisat::main_with_err", "varisat::check::check_main"
ERRV = lambda what: ("a", "Err", (("error", what),))


def run(prog, r):
    r.rule("verdict printed = result returned by the solver or checker after the whole input was read and all requested outputs were finished; exit codes 10/20/0/1 accordingly; errors end with a nonzero exit code and no verdict")
    for part in (entry, solving, checking):
        try:
            part(prog, r)
        except Stuck as e:
            r.fail("undecided/" + part.__name__, "%s: %s" % (part.__name__, e))


class Cli(Out):
    TERM = 200

    def __init__(self, prog, contracts=()):
        super().__init__(prog, None)
        self.more, self.contracts, self.exits, self.unwrapped = self.cli, contracts, [], set()

    def element(self, term):
        return super().element(term)

    def cli(self, ip, c, args, mem, gh):
        if not c.names:
            return None
        n, ln = c.names[0], last(c.names[0])
        A = lambda i: self.close(mem, args[i]) if i < len(args) else None
        R = lambda v, g=gh, m=mem: [(v, m, g)]
        both = lambda ok, ev: [(OK(ok) if ok is not None else OK(), mem, emit(gh, ev + ("ok",))), (ERRV(ev[0]), mem, emit(gh, ev + ("err",)))]
        if n in self.contracts:
            return [(OK(T("exit code", -2 ** 31, 2 ** 31 - 1)), mem, emit(gh, ("sub", "ok"))), (ERRV("sub"), mem, emit(gh, ("sub", "err")))]
        if n == "std::process::exit":
            self.exits.append((A(0), gh))
            return []
        if ln == "abort" and n.startswith("std::process"):
            self.exits.append((I(134), gh))
            return []
        if n.startswith("varisat::solver::Solver::"):
            if ln in ("new", "default"):
                return R(("solver",), emit(gh, ("new solver",)))
            if ln == "solve":
                return [(OK(B("satisfiable")), mem, emit(gh, ("solve", "ok"))), (ERRV("solve"), mem, emit(gh, ("solve", "err")))]
            if ln == "model":
                if not any(e[:1] == ("solve",) for e in self.events(gh)) or ("solve", "err") in self.events(gh):
                    return R(NONE)
                return [((SOME(("sl", "model")) if b else NONE), m, g) for b, m, g in self.branch(B("satisfiable"), mem, gh)]
            if ln == "write_proof":
                return R(UNIT, emit(gh, ("write proof", A(1), A(2))))
            if ln == "add_proof_processor":
                return R(UNIT, emit(gh, ("processor", A(1))))
            if ln == "enable_self_checking":
                return R(UNIT, emit(gh, ("self check",)))
            if ln == "add_dimacs_cnf":
                return both(None, ("input", A(1)))
            if ln in ("close_proof", "config"):
                return both(None, (ln,))
            return R(None, emit(gh, ("solver call", ln)))
        if n.startswith("varisat_checker::Checker::") or n.startswith("varisat::checker::Checker::"):
            if ln in ("new", "default"):
                return R(("checker",), emit(gh, ("new checker",)))
            if ln == "add_dimacs_cnf":
                return both(None, ("input", A(1)))
            if ln == "check_proof":
                return [(OK(), mem, emit(gh, ("check", A(1), "ok"))), (ERRV("check"), mem, emit(gh, ("check", A(1), "err")))]
            if ln == "add_transcript":
                return R(UNIT, emit(gh, ("transcript",)))
            if ln == "add_processor":
                return R(UNIT, emit(gh, ("processor", A(1))))
            return R(None, emit(gh, ("checker call", ln)))
        if ln == "default" and n == "core::default::Default::default" and c.ret_ty.startswith("varisat_checker::Checker"):
            return R(("checker",), emit(gh, ("new checker",)))
        if n.startswith("varisat_lrat::WriteLrat::"):
            if ln == "new":
                return R(("lrat writer", A(0), A(1)))
            if ln == "flush":
                return [(OK(), mem, emit(gh, ("finish", A(0), "ok"))), (ERRV("finish"), mem, emit(gh, ("finish", A(0), "err")))]
        if n.startswith("clap::"):
            return R(self.clap(n, ln, [A(i) for i in range(len(args))])) if "ArgMatches" not in n else self.matches(ln, A, R, args)

        if n.startswith("std::fs::File::") and ln in ("open", "create"):
            p = A(0)
            return [(OK(("file", ln, p)), mem, emit(gh, (ln, p))), (ERRV("io"), mem, emit(gh, (ln, p, "err")))]
        if n.startswith("std::fs::OpenOptions") and ln == "open":
            return [(OK(("file", "options", A(1))), mem, gh), (ERRV("io"), mem, gh)]
        if ln in ("stdin", "lock") and n.startswith("std::io::"):
            return R(("stdin",))
        if ln in ("to_ascii_lowercase", "to_lowercase", "to_string", "to_owned", "as_str", "into", "from", "as_ref", "deref", "borrow", "index", "clone", "as_mut", "deref_mut") and args and A(0) in (("format",), ("stdin",)):
            return R(A(0))
        if ln in ("eq", "ne") and len(args) == 2:
            x, y = A(0), A(1)
            if y == ("format",):
                x, y = y, x
            if x == ("format",) and y is not None and y[0] == "s":
                v = self.format_is(mem, y[1])
                return [(I(b == (ln == "eq")), m, g) for b, m, g in self.branch(v, mem, gh)]
        if n.endswith("Option::get_or_insert") and len(args) == 2 and args[0] is not None and args[0][0] == "p":
            v = self.deref(mem, args[0])
            m = dict(mem)
            if v is not None and v[0] == "a" and v[1] == "None":
                self.write(m, args[0][1], args[0][2], SOME(A(1)))
            elif v is None or v[0] != "a":
                return None
            return R(("p", args[0][1], args[0][2] + (0,)), gh, m)
        if n.split("::")[-2:-1] == ["SolverConfigUpdate"] and ln in ("new", "default", "merge"):
            return R(("config update",) if ln != "merge" else UNIT)
        if n == "std::io::stdio::_eprint":
            return R(UNIT)
        if n == "varisat::init_logging" or n == "varisat::banner":
            return R(UNIT)
        return None

    def matches(self, ln, A, R, args):
        if len(args) == 2:
            k = A(1)
            k = k[1] if k is not None and k[0] == "s" else None
            if k is not None:
                v = ("format",) if k == "proof-format" else ("arg", k)
                if ln == "value_of":
                    if A(0) is not None and A(0)[0] == "matches" and k in A(0)[1]:             # required or with a default value
                        return R(SOME(v))
                    return R(("u", ("given", k), (("None", ()), ("Some", (v,)))))
                if ln == "subcommand_matches":
                    return R(("u", ("given", k), (("None", ()), ("Some", (("matches", frozenset()),)))))
                if ln == "values_of":
                    return R(("u", ("given", k), (("None", ()), ("Some", (None,)))))
                if ln == "is_present":
                    return R(B(("given", k)))
        return None

    def clap(self, n, ln, a):
        """clap definitions: ('app', names that always have a value) and ('arg def', name, always has a value)."""
        words = [x[1] for x in a if x is not None and x[0] == "s"]
        me = a[0] if a and a[0] is not None and a[0][0] in ("app", "arg def") else None
        if ln in ("from_usage", "arg_from_usage", "with_name", "new") and words:
            new = ("arg def", words[0].split()[0].strip("[]<>."), words[0].startswith("<"))
            if ln == "arg_from_usage" and me is not None:
                return ("app", me[1] | ({new[1]} if new[2] else frozenset()))
            return new if "::Arg::" in n else ("app", frozenset())
        if me is None:
            return None
        if ln == "arg" and len(a) == 2:
            return ("app", me[1] | ({a[1][1]} if a[1] is not None and a[1][0] == "arg def" and a[1][2] else frozenset()))
        if ln == "get_matches":
            return ("matches", me[1])
        if me[0] == "arg def" and ln == "default_value" or ln == "required" and a[1:] == [I(1)]:
            return me[:2] + (True,)
        return me

    def format_is(self, mem, k):
        all_ = list(FORMATS) + list(LRAT)
        facts = {x: exact(self.known(mem, B(("format is", x)))) for x in all_}
        if k not in facts:
            return I(0)
        if any(facts[x] == 1 for x in all_ if x != k) or facts[k] == 0:
            return I(0)
        if facts[k] == 1 or all(facts[x] == 0 for x in all_ if x != k):
            return I(1)
        return B(("format is", k))

    def events(self, gh):
        return [e for f in gh[0] for e in f[2]]

    def opt_method(self, c, ln, a0, args, mem, gh):
        if ln in ("unwrap", "expect") and a0[1] in ("None", "Err"):
            self.unwrapped.add(c.span())
        return super().opt_method(c, ln, a0, args, mem, gh)


def flat(evs):
    for e in evs:
        yield e
        if e[0] in ("loop", "brk"):
            for it in e[2]:
                yield from flat(it)
            if e[0] == "brk":
                yield from flat(e[3])


def printed(evs):
    """What the path prints (token structure)."""
    return tokens(evs, "print")


def paths(prog, r, name, args, contracts=()):
    fn = prog.fn(name)
    ip = Cli(prog, contracts)
    ip.VISITS = 10 ** 6
    out = []
    for what, v, objs, g in ip.run(fn, args, {}, GH0):
        m = dict(objs)
        out.append((ip, what, ip.close(m, v), m, ip.events(g)))
    for b in ip.bodies:
        r.saw(prog.bodies[b])
    return ip, out


def required(prog, name):
    """Names of the arguments that a clap definition requires or gives a default value."""
    ip = Cli(prog)
    for _, what, v, m, g in ((0,) + x for x in ip.run(prog.fn(name), [], {}, GH0)):
        v = ip.close(dict(m), v)
        if v is not None and v[0] == "app":
            return v[1]
    raise Stuck("%s does not build a clap definition that can be followed" % name)


def entry(prog, r):
    ip, out = paths(prog, r, "varisat::main", [], (MAIN,))
    n = 0
    for code, g in ip.exits:
        n += 1
        evs = ip.events(g)
        if ("sub", "ok") in evs:
            r.check(code == T("exit code", -2 ** 31, 2 ** 31 - 1), "main/ok", "exit code passed on", "main exits with %s instead of the exit code of the run" % (code,))
        else:
            r.check(code is not None and exact(code) not in (None, 0, 10, 20), "main/err", "nonzero exit code for errors", "main exits with %s after an error" % (code,))
        r.check(not any(e[0] == "print" for e in flat(evs)), "main/print", "no verdict", "main prints to the standard output itself")
    for _, what, v, m, evs in out:
        r.check(what == "panic", "main/return", "main ends with the exit code", "main returns without passing on the exit code")
    r.floor("ways main exits", n, 2)


def ordered(evs, *kinds):
    """Positions of the first event of each kind; they must be increasing."""
    i = []
    for k in kinds:
        j = next((n for n, e in enumerate(evs) if e[0] == k), None)
        if j is None:
            return False
        i.append(j)
    return i == sorted(i)


def given(ip, m, k):
    v = ip.known(m, B(("given", k)))
    return None if v is None or exact(v) is None else bool(exact(v))


def solving(prog, r):
    ip, out = paths(prog, r, MAIN, [], (CHECKMAIN,))
    LIT1 = ("dec", ("t", ("dimacs", ("e", "model")), -2 ** 31, 2 ** 31))
    n = dict(sat=0, unsat=0, unknown=0, error=0, other=0)
    for _, what, v, m, evs in out:
        if what == "panic":
            r.check(not any(e[0] == "print" for e in flat(evs)), "solve/panic", "no panic after a verdict", "the tool may panic at %s after printing" % (v,))
            r.fail("solve/panics", "the tool may panic at %s" % (v,))
            continue
        ok = v is not None and v[0] == "a" and v[1] == "Ok"
        code = exact(v[2][0]) if ok else None
        if any(e[0] == "sub" for e in evs):
            r.check(not any(e[0] in ("print", "solve") for e in flat(evs)), "check/alone", "checking only", "the tool prints or solves in addition to checking a proof")
            r.check((v == OK(T("exit code", -2 ** 31, 2 ** 31 - 1))) == (("sub", "ok") in evs), "check/result", "result of checking", "the tool returns %s after checking a proof" % (v,))
            continue
        toks = printed(evs)
        text = b"".join(t if isinstance(t, bytes) else b"?" for t in toks)
        res = next((e[1] for e in evs if e[0] == "solve"), None)
        sat = exact(ip.known(m, B("satisfiable"))) if res == "ok" else None
        finished = [e for e in evs if e[0] in ("close_proof", "finish")]
        failed = any(e[-1] == "err" for e in finished)
        after = [e for e in evs[next((i for i, e in enumerate(evs) if e[0] == "solve"), 0):] if e[0] in ("close_proof", "finish")]
        if not ok:
            n["error"] += 1
            r.check(v is not None and v[0] == "a" and v[1] == "Err", "error/value", "error returned", "the tool returns %s" % (v,))
            r.check(not any(e[0] == "print" for e in flat(evs)), "error/verdict", "no verdict with an error", "the tool prints `%s` and then fails" % text.decode("latin1").strip())
            continue
        if res is None:
            n["other"] += 1
            r.check(code == 0 and not any(isinstance(t, bytes) and t.startswith(b"s ") for t in toks), "none/code", "nothing solved", "the tool exits with %s and prints `%s` without solving" % (code, text.decode("latin1").strip()))
            r.check(not any(e[0] in ("input", "new solver") for e in evs), "none/solve", "input solved", "the tool reads an input and exits successfully without solving it")
            continue
        # order and completeness of what was done before
        r.check(sum(e[0] == "solve" for e in flat(evs)) == 1 and sum(e[0] == "input" for e in flat(evs)) == 1 and ordered(evs, "input", "solve"), "solve/once", "input read, then solved", "the tool solves %d times and reads %d inputs" % (
            sum(e[0] == "solve" for e in flat(evs)), sum(e[0] == "input" for e in flat(evs))))
        inp = next((e for e in evs if e[0] == "input"), None)
        path = next((e for e in evs if e[0] == "is" and e[1] == ("given", "INPUT")), None)
        want = ("file", "open", ("arg", "INPUT")) if path is not None and path[2] == "Some" else ("stdin",)
        r.check(inp is not None and inp[-1] == "ok" and path is not None and inp[1] == want, "solve/input", "the given input is read", "the formula is read from `%s` (result %s)" % (inp[1] if inp else None, inp[-1] if inp else None))
        outputs(r, ip, m, evs)
        if res == "ok" and not failed:
            r.check(sat is not None, "solve/verdict", "depends on the result", "the verdict `%s` does not depend on the result of solving" % text.decode("latin1").strip())
            if sat is None:
                continue
            # everything requested is complete before the verdict
            asked = [e for e in evs if e[0] in ("write proof", "processor")]
            for e in asked:
                r.check(any(x[0] == ("close_proof" if e[0] == "write proof" else "finish") for x in after), "solve/finish " + e[0], "output finished before the verdict", "a verdict is printed before the %s is finished" % ("proof" if e[0] == "write proof" else "LRAT proof"))
            if sat:
                n["sat"] += 1
                empty = toks == (b"s SATISFIABLE\nv 0\n",) and any(e[0] == "loop" and e[1] == "model" and not e[2] for e in evs)
                good = empty or len(toks) >= 2 and toks[0] == b"s SATISFIABLE\nv" and toks[-1] == b" 0\n" and all(t == ("none", "model") or t[0] == "rep" and t[1] == "model" and t[2] == frozenset({(b" ", LIT1)}) for t in toks[1:-1])
                r.check(good and code == 10, "solve/sat", "SATISFIABLE, the model, exit code 10", "for a satisfiable formula the tool prints `%s` and exits with %s" % (show(toks), code))
            else:
                n["unsat"] += 1
                r.check(toks == (b"s UNSATISFIABLE\n",) and code == 20, "solve/unsat", "UNSATISFIABLE, exit code 20", "for an unsatisfiable formula the tool prints `%s` and exits with %s" % (show(toks), code))
        else:
            n["unknown"] += 1
            r.check(toks == (b"s UNKNOWN\n",) and code == 0, "solve/unknown", "UNKNOWN, exit code 0", "when solving or finishing the proof fails the tool prints `%s` and exits with %s" % (show(toks), code))
    for s in sorted(ip.unwrapped, key=str):
        r.fail("solve/unwrap", "the tool may unwrap nothing at %s" % (s,))
    for k, lo in (("sat", 2), ("unsat", 2), ("unknown", 2), ("error", 3), ("other", 1)):
        r.floor("paths: " + k, n[k], lo)


def outputs(r, ip, m, evs):
    """Proofs and self checking are enabled exactly as requested, before the formula is read."""
    start = next((i for i, e in enumerate(evs) if e[0] == "input"), len(evs))
    pre = evs[:start]
    late = [e for e in flat(evs[start:]) if e[0] in ("write proof", "processor", "self check", "config")]
    r.check(not late, "outputs/early", "outputs set up before the formula", "%s happens after the formula was read" % (late[0][0] if late else ""))
    proof = next((e[2] for e in pre if e[0] == "is" and e[1] == ("given", "proof-file")), None)
    r.check(proof is not None, "outputs/asked", "proof option looked at", "the proof option is ignored")
    wp, pr = [e for e in pre if e[0] == "write proof"], [e for e in pre if e[0] == "processor"]
    if proof != "Some":
        r.check(not wp and not pr, "outputs/none", "no proof", "a proof is written although none was requested")
    else:
        fmt = next((k for k in list(FORMATS) + list(LRAT) if exact(ip.format_is(m, k)) == 1), None)
        f = ("file", "create", ("arg", "proof-file"))
        if fmt in FORMATS:
            good = len(wp) == 1 and not pr and wp[0][1] == f and wp[0][2] is not None and wp[0][2][0] == "a" and wp[0][2][1] == FORMATS[fmt]
        elif fmt in LRAT:
            w = pr[0][1] if len(pr) == 1 else None
            good = not wp and w is not None and w[0] == "lrat writer" and w[1] == f and exact(ip.known(m, w[2])) == LRAT[fmt]
        else:
            good = False
        r.check(good, "outputs/" + str(fmt), "requested proof written", "for the proof format %s the tool sets up %s" % (fmt, [(e[0],) + tuple(str(x)[:60] for x in e[1:]) for e in wp + pr]))
    sc = given(ip, m, "self-check")
    r.check(sc is not None and sc == (("self check",) in pre), "outputs/self check", "self checking as requested", "self checking is %s" % ("not enabled although requested" if sc else "enabled although not requested" if sc is not None else "independent of the option"))


def show(toks):
    return " ".join(t.decode("latin1").strip() if isinstance(t, bytes) else str(t)[:80] for t in toks)


def checking(prog, r):
    fn = prog.fn(CHECKMAIN)
    ip, out = paths(prog, r, CHECKMAIN, [("matches", required(prog, "varisat::check::check_args"))])
    n = dict(ok=0, err=0, error=0)
    for _, what, v, m, evs in out:
        if what == "panic":
            r.fail("check/panics", "the tool may panic at %s" % (v,))
            continue
        ok = v is not None and v[0] == "a" and v[1] == "Ok"
        code = exact(v[2][0]) if ok else None
        toks = printed(evs)
        chk = [e for e in flat(evs) if e[0] == "check"]
        res = chk[0][-1] if chk else None
        fin = [e for e in evs if e[0] == "finish"]
        if not ok:
            n["error"] += 1
            r.check(v is not None and v[0] == "a" and v[1] == "Err" and not toks, "error/check", "no verdict with an error", "checking prints `%s` and then fails" % show(toks))
            continue
        r.check(len(chk) == 1 and ordered(evs, "input", "check"), "check/once", "formula read, then proof checked", "an exit code is returned after checking %d proofs" % len(chk))
        if res is None:
            continue
        inp = next((e for e in evs if e[0] == "input"), None)
        path = next((e for e in evs if e[0] == "is" and e[1] == ("given", "INPUT")), None)
        want = ("file", "open", ("arg", "INPUT")) if path is not None and path[2] == "Some" else ("stdin",)
        r.check(inp is not None and inp[-1] == "ok" and path is not None and inp[1] == want, "check/input", "the given input is read", "the formula is read from `%s` (result %s)" % (inp[1] if inp else None, inp[-1] if inp else None))
        r.check(chk[0][1] == ("file", "open", ("arg", "proof-file")), "check/proof", "the given proof is checked", "the proof is read from `%s`" % (chk[0][1],))
        pre = evs[:next(i for i, e in enumerate(evs) if e[0] == "input")] if inp is not None else []
        r.check(("transcript",) in pre, "check/transcript", "transcript printed", "the transcript is not set up before the formula is read")
        procs = [e[1] for e in evs if e[0] == "processor"]
        r.check(all(e in pre for e in evs if e[0] == "processor"), "check/early", "outputs set up before the formula", "an LRAT output is set up after the formula was read")
        for k, b in (("lrat-file", 0), ("clrat-file", 1)):
            g = next((e[2] for e in evs if e[0] == "is" and e[1] == ("given", k)), None)
            mine = [p for p in procs if p is not None and p[0] == "lrat writer" and p[1] == ("file", "create", ("arg", k))]
            r.check(g is not None and (g == "Some") == (len(mine) == 1) and all(exact(p[2]) == b for p in mine), "check/" + k, "LRAT output as requested", "for the option %s=%s the outputs set up are %s" % (k, g, procs))
            if res == "ok" and mine:
                r.check(any(e[0] == "finish" and e[-1] == "ok" and e[1] is not None and (e[1] == mine[0]) for e in evs[evs.index(chk[0]):]), "check/finish " + k, "finished before the verdict", "VERIFIED is printed before the %s output is finished" % k)
        if res == "ok":
            n["ok"] += 1
            r.check(toks == (b"s VERIFIED\n",) and code == 0, "check/ok", "VERIFIED, exit code 0", "for a valid proof the tool prints `%s` and exits with %s" % (show(toks), code))
        else:
            n["err"] += 1
            r.check(toks == (b"s NOT VERIFIED\n",) and code not in (0, 10, 20, None), "check/err", "NOT VERIFIED, nonzero exit code", "for an invalid proof the tool prints `%s` and exits with %s" % (show(toks), code))
    for s in sorted(ip.unwrapped, key=str):
        r.fail("check/unwrap", "the tool may unwrap nothing at %s" % (s,))
    for k, lo in (("ok", 2), ("err", 2), ("error", 3)):
        r.floor("paths of checking: " + k, n[k], lo)
