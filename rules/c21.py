"""C21 — Proof transcripts report each user-visible step faithfully."""
from vlib.common import *
from vlib import steps
from vlib.absint import Stuck, exact, I
from vlib.outputs import Out, tokens, events, struct
from vlib.terms import T, B, REF, GH0, OK, NONE, SOME, ERR, emit, user, canon
from vlib.ir import strip_generics
from rules.c06 import show

EXPLANATION = ("Term-based abstract interpretation of the transcript construction for every kind of checked step (arbitrary literals, user name present or absent for every variable), of the delivery "
               "to all transcript processors (any number, each may fail), of the proof-to-user variable translation and of the command line's printing state machine for arbitrary histories.")

CHECKED = "varisat_checker::processing::CheckedProofStep"
TSTEP = "varisat_checker::transcript::ProofTranscriptStep"
TRANSCRIPT = "varisat_checker::transcript::Transcript"
PROC = "varisat_checker::processing::"
VARS = "varisat_checker::variables::"


def run(prog, r):
    r.rule("transcript step returned for each checked step = table; every transcript processor gets exactly the returned steps; printed lines = table for every state of the printer")
    for part in (table, deliver, names, printer):
        try:
            part(prog, r)
        except Stuck as e:
            r.fail("undecided/" + part.__name__, "%s: %s" % (part.__name__, e))


class X(Out):
    def element(self, term):
        return steps.element(self.prog, term, CHECKED)


def opt(name, v):
    return ("u", name, (("None", ()), ("Some", (v,))))


def the_fn(prog, name, owner):
    bs = [b for b in prog.bodies.values() if last(b.path) == name and base_type(b.raw.get("self_ty") or "") == owner and not b.raw.get("trait")]
    if len(bs) != 1:
        raise Missing("%s of %s" % (name, owner))
    return bs[0]


def table(prog, r):
    """CheckedProofStep -> ProofTranscriptStep."""
    fn = the_fn(prog, "transcript_step", TRANSCRIPT)
    user_name = the_fn(prog, "user_from_proof_var", PROC + "CheckerData")
    buf = {f["name"]: ("sl", "leftover." + f["name"]) for f in prog.adt(TRANSCRIPT)["variants"][0]["fields"]}

    def hook(ip, c, args, mem, gh):
        if c.target_id == user_name.id:
            v = ip.close(mem, args[1])
            return [(opt(("user", v), ("user", v)), mem, gh)]
        return None

    def want(kind, sub, empty):
        if kind == "UserVar":
            if sub is None:
                return ("HideVar", ("user", ("var", "UserVar.var")))
            mode, new = sub
            if new and mode == "Sample":
                return None
            return ({("Witness", 1): "ObserveInternalVar", ("Witness", 0): "WitnessVar", ("Sample", 0): "SampleVar"}[mode, new], ("var", "user name"))
        lits = {"AddClause": ("AddClause", "clause"), "DuplicatedClause": ("AddClause", "clause"), "TautologicalClause": ("AddClause", "clause"), "Model": ("Model", "assignment"),
                "Assumptions": ("Assume", "assumptions"), "FailedAssumptions": ("FailedAssumptions", "failed_core")}.get(kind)
        if lits is None:
            return ("Unsat",) if kind == "AtClause" and empty else None
        return (lits[0], ("seq", "%s.%s" % (kind, lits[1])))

    shape, tshape = steps.shape(prog, CHECKED), steps.shape(prog, TSTEP)
    compared = 0
    for kind in sorted(shape):
        base = steps.build(prog, kind, CHECKED)
        subs = [(None, base)]
        if kind == "UserVar":
            fs = [f for f, _ in shape[kind]]
            subs = []
            for sub in [None] + [(m, n) for m in ("Sample", "Witness") for n in (0, 1)]:
                uv = NONE if sub is None else SOME(struct(prog, PROC + "CheckedUserVar", user_var=("var", "user name"), sampling_mode=("a", sub[0], ()), new_var=I(sub[1])))
                v = list(base[2])
                v[fs.index("var")], v[fs.index("user_var")] = ("var", "UserVar.var"), uv
                subs.append((sub, ("a", kind, tuple(v))))
        for sub, step in subs:
            key = kind + ("" if kind != "UserVar" else " hidden" if sub is None else " %s%s" % (sub[0].lower(), " new" if sub[1] else ""))
            ip = X(prog, hook=hook)
            outs = ip.run(fn, [("p", ("o", "me"), ()), REF(step), ("data",)], {("o", "me"): struct(prog, TRANSCRIPT, **buf)}, GH0)
            for b in ip.bodies:
                r.saw(prog.bodies[b])
            n = 0
            for what, v, objs, g in outs:
                mem = dict(objs)
                if what == "panic":
                    continue
                n += 1
                v = ip.close(mem, v)
                f = mem.get(("F", ("len", "AtClause.clause")))
                w = want(kind, sub, f is not None and f[-1] == 0)
                if kind == "AtClause" and (f is None or f[-2] == 0 and f[-1] > 0):
                    r.fail(key, "the transcript entry of a derived clause does not depend on whether it is empty")
                    continue
                ok = v is not None and (v == NONE if w is None else v[0] == "a" and v[1] == "Some" and v[2][0] is not None and v[2][0][0] == "a" and v[2][0][1] == w[0])
                if ok and w is not None and len(w) > 1:
                    ok = len(tshape[w[0]]) == 1 and len(v[2][0][2]) == 1
                    x = v[2][0][2][0]
                    if ok and w[1][0] == "seq":
                        evs = events(g)
                        ok = literals(mem, evs, w[1][1], x, kind == "Model")
                    elif ok:
                        ok = x == w[1]
                r.check(ok, key, "entry as required", "for the checked step %s the transcript gets %s; required: %s" % (key, entry(v), "no entry" if w is None else w[0] + (" of the user's names" if len(w) > 1 else "")))
            compared += n
            if not n:
                r.fail(key, "no outcome of the transcript construction was recognised for %s" % key)
    r.floor("kinds of checked steps", len(shape), 12)
    r.floor("transcript entries compared", compared, 12)


def literals(mem, evs, name, x, partial):
    """Is x the sequence `name` renamed to user variables (leaving out unnamed variables if `partial`)?"""
    if x is not None and x[0] == "p":
        x = mem.get(x[1]) if not x[2] else None
    f = mem.get(("F", ("len", name)))
    e = ("e", name)
    lit = ("lit", ("user", ("vr", e)), ("t", ("pos", e), 0, 1))
    if x is None or x[0] not in "qv":
        return False
    parts = x[2] if x[0] == "q" else ()
    if x[0] == "q" and x[1] != 0:
        return False
    full = (("each", name, frozenset({(("one", lit),)})),)
    some = (("each", name, frozenset({(), (("one", lit),)})),)
    if f is not None and f[-1] == 0:
        return parts in ((), full)
    seen = loops(evs, name)
    if parts == full:
        return seen is not None and seen <= {"Some"}
    if not partial:
        return False
    return seen is not None and (parts == some and seen == {"Some", "None"} or parts == () and seen <= {"None"})


def loops(evs, name):
    """The variants of the user name met while going through the sequence `name`."""
    out = None
    for e in evs:
        if e[0] == "loop" and e[1] == name:
            out = out or set()
            for body in e[2]:
                out |= {x[2] for x in body if x[0] == "is" and x[1] == ("user", ("vr", ("e", name)))}
    return out


def entry(v):
    if v is None:
        return "something unknown"
    if v == NONE:
        return "no entry"
    if v[0] == "a" and v[1] == "Some" and v[2][0] is not None and v[2][0][0] == "a":
        return "%s %s" % (v[2][0][1], str(v[2][0][2])[:160])
    return str(v)[:200]


def deliver(prog, r):
    """process_step: every proof processor, then every transcript processor gets the step; failures are reported."""
    fn = prog.fn(PROC + "process_step")
    P = PROC + "Processing"
    tr = the_fn(prog, "transcript_step", TRANSCRIPT)

    def hook(ip, c, args, mem, gh):
        n = c.names[0] if c.names else ""
        for t, k in (("processing::ProofProcessor::process_step", "proof"), ("transcript::ProofTranscriptProcessor::process_step", "transcript")):
            if n.endswith(t):
                g = emit(gh, ("got", (k, ip.close(mem, args[1]))))
                return [(OK(), mem, g), (("a", "Err", (("cause",),)), mem, user(g, "failed"))]
        if c.target_id == tr.id:
            return [(opt(("entry", ip.close(mem, args[1])), ("entry", ip.close(mem, args[1]))), mem, gh)]
        return None

    vals = {}
    for f in prog.adt(P)["variants"][0]["fields"]:
        t = f["ty"]
        vals[f["name"]] = ("sl", "transcript processors") if "ProofTranscriptProcessor" in t else ("sl", "proof processors") if "ProofProcessor" in t else ("other", f["name"])
    ip = X(prog, hook=hook)
    step = ("step",)
    outs = ip.run(fn, [("ctx",), REF(step)], {("o", P): struct(prog, P, **vals)}, GH0)
    for b in ip.bodies:
        r.saw(prog.bodies[b])
    n = bad = 0
    for what, v, objs, g in outs:
        mem = dict(objs)
        if what == "panic":
            r.fail("deliver/panic", "process_step panics")
            continue
        v = ip.close(mem, v)
        if g[1] == "failed":
            bad += 1
            ok = v is not None and v[0] == "a" and v[1] == "Err"
            r.check(ok, "deliver/failed", "failure of a processor reported", "a failing processor is not reported by process_step")
            continue
        n += 1
        def ln(name):
            f = mem.get(("F", ("len", name)))
            return None if f is None else f[-2] >= 1
        evs = events(g)
        made = [e[2] for e in evs if e[0] == "is" and e[1] == ("entry", step)]
        want = []
        if ln("proof processors") is not False:
            want.append(("rep", "proof processors", frozenset({(("proof", step),)})))
        some = made == ["Some"]
        if ln("transcript processors") is not False and made != ["None"]:
            want.append(("rep", "transcript processors", frozenset({(("transcript", ("entry", step)),)})))
        got = tokens(evs, "got")
        r.check(got == tuple(want) and v is not None and v[0] == "a" and v[1] == "Ok", "deliver/%s" % "".join(sorted(made)),
                "every processor gets the step", "process_step hands on `%s` (result %s); required `%s`" % (show(got), v and v[1], show(want)))
    r.floor("deliveries compared", n, 4)
    r.floor("failing processors followed", bad, 2)


def names(prog, r):
    """user_from_proof_var: the user name, the variable itself while it is a sampling variable without a name, or nothing."""
    fn = the_fn(prog, "user_from_proof_var", PROC + "CheckerData")
    vd = prog.adt(VARS + "VarData")["variants"][0]["fields"]
    modes = [v["name"] for v in prog.adt(VARS + "SamplingMode")["variants"]]
    n = 0
    for present in (0, 1):
        for named in (0, 1):
            for mode in modes:
                vals = {}
                for f in vd:
                    vals[f["name"]] = (SOME(("var", "name")) if named else NONE) if f["ty"].startswith("core::option::Option<") else ("a", mode, ()) if "SamplingMode" in f["ty"] else T(("vd", f["name"]))
                data = struct(prog, VARS + "VarData", **vals)

                def hook(ip, c, args, mem, gh):
                    nm = c.names[0] if c.names else ""
                    if args and nm.startswith(("core::slice::", "alloc::vec::")) and last(nm) in ("get", "get_mut"):
                        s = ip.deref(mem, args[0])
                        i = ip.close(mem, args[1])
                        if s == ("sl", "var_data") and i is not None:
                            if i[0] != "t" or i[1] != ("vindex", ("var", "queried")):
                                raise Stuck("the entry of another variable is looked up: %s" % (i,))
                            return [(SOME(REF(data)) if present else NONE, mem, gh)]
                    return None

                ip = X(prog, hook=hook)
                var = ("var", "queried")
                fields = {f["name"]: ("sl", "var_data") if f["ty"].startswith("alloc::vec::Vec<") and "VarData" in f["ty"] else T(("vars", f["name"])) for f in prog.adt(VARS + "Variables")["variants"][0]["fields"]}
                outs = ip.run(fn, [("a", "CheckerData", (("ctx",),)), var], {("o", VARS + "Variables"): struct(prog, VARS + "Variables", **fields)}, GH0)
                for b in ip.bodies:
                    r.saw(prog.bodies[b])
                want = NONE if not present else SOME(("var", "name")) if named else SOME(var) if mode == "Sample" else NONE
                key = "name/%s %s %s" % ("known" if present else "unknown", "named" if named else "unnamed", mode)
                for what, v, objs, g in outs:
                    n += 1
                    v = ip.close(dict(objs), v)
                    r.check(what == "ret" and v == want, key, "user name as required", "user_from_proof_var of a variable that is %s gives %s" % (key[5:], v))
    r.floor("user names compared", n, 8)


LINES = {"WitnessVar": "WITNESS", "SampleVar": "SAMPLE", "HideVar": "HIDE", "ObserveInternalVar": "OBSERVE", "AddClause": "ADD"}
NOUN = {"AddClause": "CLAUSES", "ObserveInternalVar": "INTERNAL VARIABLES"}
ALONE = {"Unsat": (("t UNSAT",), None), "Model": (("t SAT",), None), "Assume": (("t ASSUME ", " LITERALS"), "assumptions"), "FailedAssumptions": (("t UNSAT WITH ", " ASSUMPTIONS"), "failed_core")}


def printer(prog, r):
    """The command line's transcript: runs of equal entries summarised, everything else printed at once."""
    bs = [b for b in prog.bodies.values() if strip_generics(b.raw.get("trait") or "") == "varisat_checker::transcript::ProofTranscriptProcessor" and last(b.path) == "process_step"]
    if not bs:
        raise Missing("an implementation of ProofTranscriptProcessor")
    done = 0
    shape = steps.shape(prog, TSTEP)
    for fn in bs:
        owner = base_type(fn.raw["self_ty"])
        ds = [b for b in prog.bodies.values() if (b.raw.get("trait") or "").startswith("core::default::Default") and base_type(b.raw.get("self_ty") or "") == owner]
        if len(ds) != 1:
            raise Missing("Default of " + owner)
        outs = list(X(prog).run(ds[0], [], {}, GH0))
        if len(outs) != 1:
            raise Missing("the value of Default for " + owner)
        start = X(prog).close(dict(outs[0][2]), outs[0][1])

        def go(state, kind):
            """(state, printed tokens) after a step of that kind."""
            ip = X(prog)
            step = steps.build(prog, kind, TSTEP)
            outs = [o for o in ip.run(fn, [("p", ("o", "me"), ()), REF(step)], {("o", "me"): state}, GH0)]
            for b in ip.bodies:
                r.saw(prog.bodies[b])
            res = []
            for what, v, objs, g in outs:
                m = dict(objs)
                v = ip.close(m, v)
                if what != "ret" or v is None or v[1] != "Ok":
                    raise Stuck("%s: the printer fails on %s (%s)" % (fn.path, kind, v))
                res.append((m.get(("o", "me")), lines(tokens(events(g), "print"))))
            if len(res) != 1:
                raise Stuck("%s: %d outcomes for %s" % (fn.path, len(res), kind))
            return res[0]

        def own(kind):
            if kind in LINES:
                return ()
            text, f = ALONE[kind]
            return (text[0].encode(),) if f is None else (text[0].encode(), ("dec", T(("len", "%s.%s" % (kind, f)), 0, 2 ** 62)), text[1].encode())

        def summary(kind, n):
            num = str(n[1]).encode() if n[0] == "i" else ("dec", n)
            pre = ("t %s " % LINES[kind]).encode()
            post = (" " + NOUN.get(kind, "VARIABLES")).encode()
            return (pre + num + post,) if isinstance(num, bytes) else (pre, num, post)

        def compare(key, got, want):
            r.check(got == want, key, "printed as required", "command line transcript, %s: prints `%s`; required `%s`" % (key[6:], text(got), text(want)))

        missing = set(shape) - set(LINES) - set(ALONE)
        if missing:
            r.fail("print/kinds", "transcript steps without a required line: %s" % ", ".join(sorted(missing)))
        kinds = sorted(set(shape) - missing)
        # states: nothing open, or a run of n equal entries
        states = {None: [(start, None)]}
        for k in kinds:
            s, p = go(start, k)
            compare("print/first %s" % k, p, ((own(k) if k in ALONE else ()),) if own(k) else ())
            done += 1
            if k in LINES:
                s2, p2 = go(s, k)
                compare("print/second %s" % k, p2, ())
                where = diff(s, s2)
                if len(where) != 1 or exact(at(s, where[0])) != 1 or exact(at(s2, where[0])) != 2:
                    raise Stuck("%s: the count of %s is not kept in one place" % (fn.path, k))
                states[k] = (s, where[0])
            else:
                states[None].append((s, None))
        counters = {states[k][1] for k in kinds if k in LINES}
        n = T("n", 1, 2 ** 62)
        idle = {abstracted(s, counters) for s, _ in states[None]}
        todo, seen = [(None, x) for x in idle] + [(k, put(states[k][0], states[k][1], n)) for k in kinds if k in LINES], set()
        while todo:
            cur, s = todo.pop()
            if (cur, s) in seen:
                continue
            seen.add((cur, s))
            if len(seen) > 40:
                raise Stuck("%s: the printer has too many states" % fn.path)
            for k in kinds:
                s2, p = go(s, k)
                done += 1
                want = ()
                if cur is not None and k != cur:
                    want += (summary(cur, n),)
                if own(k):
                    want += (own(k),)
                compare("print/%s after %s" % (k, "a run of " + cur if cur else "nothing open"), p, want)
                if k == cur:
                    s3 = put(s, states[k][1], ("t", ("+", n, 1), 2, 2 ** 62 + 1))
                    r.check(s2 == s3, "print/count %s" % k, "counted", "command line transcript: a further %s is not counted" % k)
                elif k in LINES:
                    r.check(s2 == states[k][0] or put(s2, states[k][1], n) == put(states[k][0], states[k][1], n) and exact(at(s2, states[k][1])) == 1, "print/restart %s" % k, "run started",
                            "command line transcript: a run of %s does not start with count 1" % k)
                else:
                    todo.append((None, abstracted(s2, counters)))
    r.floor("transcript lines compared", done, 40)


def lines(toks):
    """Split into lines, ignoring trailing blanks."""
    out, cur = [], []
    for t in toks:
        if not isinstance(t, bytes):
            cur.append(t)
            continue
        parts = t.split(b"\n")
        for i, p in enumerate(parts):
            if i:
                out.append(cur)
                cur = []
            if p:
                cur.append(p)
    if cur:
        out.append(cur + [None])
    res = []
    for l in out:
        if l and isinstance(l[-1], bytes):
            l[-1] = l[-1].rstrip()
            if not l[-1]:
                l.pop()
        res.append(tuple(l))
    return tuple(res)


def text(ls):
    return " / ".join(show(x) for x in ls) or "nothing"


def diff(a, b, path=()):
    if a == b:
        return []
    if a is not None and b is not None and a[0] == b[0] == "a" and a[1] == b[1] and len(a[2]) == len(b[2]):
        return [x for i in range(len(a[2])) for x in diff(a[2][i], b[2][i], path + (i,))]
    return [path]


def at(v, path):
    for i in path:
        if v is None or v[0] != "a" or i >= len(v[2]):
            return None
        v = v[2][i]
    return v


def put(v, path, x):
    if not path:
        return x
    if v is None or v[0] != "a" or path[0] >= len(v[2]):
        return v
    return ("a", v[1], v[2][:path[0]] + (put(v[2][path[0]], path[1:], x),) + v[2][path[0] + 1:])


def abstracted(s, paths):
    """State with the (irrelevant) counts replaced by an arbitrary one."""
    for p in paths:
        if at(s, p) is not None:
            s = put(s, p, T("any", 0, 2 ** 62))
    return s
