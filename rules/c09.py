"""C09 — the DIMACS parser accepts exactly the documented grammar, in every division into chunks."""
from vlib.common import *
from vlib.absint import Interp, I, exact, Stuck

EXPLANATION = ("Abstract interpretation of parse_chunk and eof over all 256 byte values, all reachable parser states and the partition of literal magnitudes at the "
               "overflow boundary, in lock step with a reference automaton of the DIMACS grammar: every reachable pair of states must agree on acceptance, on the "
               "literals (sign and magnitude class) and clause ends produced, at every chunk boundary and at the end of input. The header line and count checks are "
               "decided by guard dominance on exploded MIR graphs.")
WS = (32, 10, 13)


def spec_step(g, b, M):
    """(next state, events, error) for a byte; error: False, True or 'maybe'."""
    mode, tok, lo, hi, sol, hseen, opn = g
    nl = b in (10, 13)
    if mode != "text":
        if not nl:
            return g, (), False
        return ("text", tok, lo, hi, True, hseen or mode == "header", opn), (), "maybe" if mode == "header" else False
    if 48 <= b <= 57:
        d = b - 48
        if 10 * lo + d > M:
            return g, (), True
        return ("text", "neg" if tok in ("minus", "neg") else "pos", 10 * lo + d, 10 * hi + d, False, hseen, opn), (), False
    if b == 45:
        return (("text", "minus", 0, 0, False, hseen, opn), (), False) if tok == "none" else (g, (), True)
    if b in WS:
        if tok == "minus":
            return g, (), True
        ev, opn = finish(tok, lo, hi, opn)
        return ("text", "none", 0, 0, b != 32, hseen, opn), ev, False
    if b == 99 and sol:
        return ("comment", tok, lo, hi, sol, hseen, opn), (), False
    if b == 112 and sol and not hseen:
        return ("header", tok, lo, hi, sol, hseen, opn), (), False
    return g, (), True


def finish(tok, lo, hi, opn):
    if tok in ("pos", "neg"):
        if lo == 0:
            return (("clause", opn),), False
        return (("lit", tok == "pos", lo, hi),), True
    return (), opn


def spec_eof(g):
    mode, tok, lo, hi, sol, hseen, opn = g
    ev, opn = finish(tok, lo, hi, opn)
    err = tok == "minus" or opn
    return ev, True if err else "maybe" if mode == "header" else False


def run(prog, r):
    widths(prog, r, "varisat_dimacs")
    try:
        decide(prog, r)
    except Stuck as e:
        r.fail("undecided", str(e))


def decide(prog, r):
    adt = prog.adt("varisat_dimacs::DimacsParser")
    fields = adt["variants"][0]["fields"]
    api = {b.name: b for b in pub_methods(prog, "varisat_dimacs::DimacsParser")}
    for n in ("new", "parse_chunk", "eof", "check_header", "parse_incremental", "parse", "take_formula", "clause_count", "header"):
        if n not in api:
            raise Missing("DimacsParser::%s" % n)

    # field roles, from the public accessors and types
    def accessor(name):
        e = Ctx(prog, api[name], Policy(prog, small=0)).local(0)
        if e[0] != "f":
            raise Missing("DimacsParser::%s does not return a field" % name)
        return next(i for i, f in enumerate(fields) if f["name"] == e[3])
    HDR, CNT = accessor("header"), accessor("clause_count")
    INTS = [i for i, f in enumerate(fields) if f["ty"] in ("usize", "u32", "u64", "isize", "i64", "i32")]

    M = max_dimacs(prog)
    C = M // 10
    cells = [(0, 0), (1, C - 1), (C, C), (C + 1, M)]

    viol = {}

    def bad(key, text):
        viol.setdefault(key, text)

    def describe(g, b):
        return "byte %s in state (%s, token %s%s%s%s%s)" % (repr(chr(b)) if b is not None else "end of input", g[0], g[1], " %d..%d" % (g[2], g[3]) if g[1] in ("pos", "neg") else "",
                                                              ", start of line" if g[4] else "", ", header seen" if g[5] else "", ", clause open" if g[6] else "")

    # ghost: (grammar state, status, byte, expected events, expected error, observed events, clause count base)
    def normalize(mem, gh):
        """Split the current literal's magnitude into cells; forget unrelated counters."""
        S = mem[("o", "self")]
        g = gh[0]
        out = []
        for lo, hi in cells:
            if g[3] < lo or g[2] > hi:
                continue
            vals = list(S[2])
            for i in INTS:
                if vals[i] == ("i", g[2], g[3]):
                    vals[i] = ("i", lo, hi)
                else:
                    vals[i] = ("y", fields[i]["name"], 0)
            m = dict(mem)
            m[("o", "self")] = ("a", S[1], tuple(vals))
            out.append((m, (g[:2] + (lo, hi) + g[4:], gh[1], None, (), False, (), vals[CNT])))
        return out

    def settle(mem, gh):
        """The effects of the last byte must be those of the grammar."""
        g, status, b, exp, err, seen, base = gh
        if b is None:
            return
        S = mem.get(("o", "self"))
        if err is True:
            bad("accepts/%s" % cls(b), "malformed input is accepted: %s" % describe(g, b))
            return
        if seen != exp:
            bad("effect/%s" % cls(b), "%s: expected %s, the parser does %s" % (describe(g, b), evs(exp), evs(seen)))
        if S is not None and S[0] == "a":
            n = sum(1 for e in exp if e[0] == "clause")
            v = S[2][CNT]
            d = v[2] - base[2] if v and base and v[0] == base[0] == "y" else v[1] - base[1] if v and base and v[0] == base[0] == "i" else None
            if d != n:
                bad("count", "%s: the clause count changes by %s instead of %d" % (describe(g, b), d, n))

    def hook(ip, c, args, mem, gh):
        if not c.names:
            return None
        n = c.names[0]
        a0 = ip.deref(mem, args[0]) if args else None
        if a0 == ("it",):
            if n in ("core::slice::impl::iter", "core::iter::traits::iterator::Iterator::copied", "core::iter::traits::iterator::Iterator::cloned",
                     "core::iter::traits::iterator::Iterator::by_ref", "core::iter::traits::collect::IntoIterator::into_iter", "core::slice::impl::into_iter"):
                return [(args[0] if last(n) == "by_ref" else ("it",), mem, gh)]
            if n == "core::iter::traits::iterator::Iterator::next":
                settle(mem, gh)
                if viol:
                    return []
                if gh[1] == "failed!":
                    return [(("a", "None", ()), mem, gh)]
                if gh[1] == "failed":
                    gh = (gh[0], "failed!") + gh[2:]
                    item = ("p", ("K", "byte", I(49)), ()) if "&" in c.ret_ty else I(49)
                    return [(("a", "Some", (item,)), mem, gh)]
                out = []
                for m, g2 in normalize(mem, gh):
                    out.append((("a", "None", ()), m, g2))
                    for b in range(256):
                        ns, ev, err = spec_step(g2[0], b, M)
                        item = ("p", ("K", "byte", I(b)), ()) if "&" in c.ret_ty else I(b)
                        out.append((("a", "Some", (item,)), m, (ns, g2[1], b, ev, err, (), g2[6])))
                return out
        ln = last(n)
        if c.name.startswith("varisat_formula::") or n.startswith("varisat_formula::"):
            w = (c.name + " " + n)
            if re.search(r"Var::from_dimacs\b", w):
                return [(("a", "VAR", (a0,)), mem, gh)]
            if re.search(r"Lit::from_dimacs\b", w):
                v = a0
                if v and v[0] == "i" and (v[1] > 0 or v[2] < 0):
                    return [(("a", "LIT", (v if v[1] > 0 else ("i", -v[2], -v[1]), I(int(v[1] > 0)))), mem, gh)]
                return [(("a", "LIT", (None, None)), mem, gh)]
            if re.search(r"(Var::lit|Lit::from_var)\b", w) and a0 and a0[0] == "a" and a0[1] == "VAR":
                return [(("a", "LIT", (a0[2][0], ip.deref(mem, args[1]))), mem, gh)]
            if re.search(r"Var::(positive|negative)\b", w) and a0 and a0[0] == "a" and a0[1] == "VAR":
                return [(("a", "LIT", (a0[2][0], I(int(ln == "positive")))), mem, gh)]
            if ln == "add_clause":
                cl = ip.deref(mem, args[1]) if len(args) > 1 else None
                e = ("clause", bool(cl[1]) if cl and cl[0] == "v" and cl[1] is not None else None)
                return [(None, mem, gh[:5] + (gh[5] + (e,),) + gh[6:])]
            return [(None, mem, gh)]
        if n == "alloc::vec::Vec::push" and "Lit" in c.arg_types()[0]:
            v = ip.deref(mem, args[1])
            e = ("lit", None, None, None)
            if v and v[0] == "a" and v[1] == "LIT":
                num, pol = v[2]
                e = ("lit", None if exact(pol) is None else bool(exact(pol)), num[1] if num and num[0] == "i" else None, num[2] if num and num[0] == "i" else None)
            if args[0] and args[0][0] == "p":
                ip.write(mem, args[0][1], args[0][2], ("v", 1))
            return [(None, mem, gh[:5] + (gh[5] + (e,),) + gh[6:])]
        return None

    opaque = lambda b: b.crate not in ("varisat_dimacs",)
    ip = Interp(prog, hook, opaque)
    ip.VISITS = 10 ** 6

    # ------------------------------------------------ initial state
    r.rule("the parser and the DIMACS grammar automaton stay in step: same acceptance, literals and clause ends for every byte in every reachable state and chunking")
    outs = ip.run(api["new"], [], {}, None)
    inits = {o[1] for o in outs if o[0] == "ret"}
    if len(inits) != 1 or next(iter(inits)) is None:
        raise Missing("initial state of the DIMACS parser")
    S0 = next(iter(inits))
    g0 = ("text", "none", 0, 0, True, False, False)
    work, seen = [], set()

    def boundary(mem, gh):
        for m, g in normalize(mem, gh):
            k = (m[("o", "self")], g)
            if k not in seen:
                seen.add(k)
                work.append(k)
    boundary({("o", "self"): S0}, (g0, "ok", None, (), False, (), None))
    pairs = latched = eofs = 0
    shared = set()
    selfp = ("p", ("o", "self"), ())
    while work:
        S, gh = work.pop()
        pairs += 1
        if pairs > 3000:
            raise Missing("parser state space too large to decide")
        for kind, v, objs, g2 in ip.run(api["parse_chunk"], [selfp, ("p", ("K", "chunk", ("it",)), ())], {("o", "self"): S}, gh, shared):
            mem = dict(objs)
            if kind == "panic":
                bad("panic", "the parser panics at %s: %s" % (v, describe(g2[0], g2[2])))
                continue
            res = v[1] if v and v[0] == "a" else None
            S2 = mem.get(("o", "self"))
            if S2 is None or S2[0] != "a":
                bad("lost", "the parser state is not tracked after %s" % describe(g2[0], g2[2]))
                continue
            if g2[1].startswith("failed"):
                latched += 1
                if res != "Err" or g2[5]:
                    bad("latch", "the parser accepts further input after an error")
                continue
            if res == "Err":
                if g2[4] is False:
                    bad("rejects/%s" % cls(g2[2]), "well-formed input is rejected: %s" % describe(g2[0], g2[2]))
                k = (S2, (g2[0], "failed", None, (), False, (), None))
                if k not in seen:
                    seen.add(k)
                    work.append(k)
                continue
            if res != "Ok":
                bad("result", "parse_chunk returns an unrecognisable result: %s" % describe(g2[0], g2[2]))
                continue
            settle(mem, g2)
            hs = S2[2][HDR]
            if (hs is None or hs[0] != "a" or (hs[1] == "Some") != g2[0][5]) and g2[4] is not True:
                bad("header-seen", "after %s the header is %srecorded" % (describe(g2[0], g2[2]), "not " if g2[0][5] else ""))
            if not viol:
                boundary(mem, g2)
        if gh[1] == "failed" or viol:
            continue
        ev, err = spec_eof(gh[0])
        for kind, v, objs, g2 in ip.run(api["eof"], [selfp], {("o", "self"): S}, gh):
            eofs += 1
            mem = dict(objs)
            res = v[1] if kind == "ret" and v and v[0] == "a" else None
            if kind == "panic" or res is None:
                bad("eof-result", "eof: %s in state %s" % (kind, describe(gh[0], None)))
            elif res == "Ok" and err is True:
                bad("eof-accepts", "eof accepts unterminated input: %s" % describe(gh[0], None))
            elif res == "Err" and err is False:
                bad("eof-rejects", "eof rejects complete input: %s" % describe(gh[0], None))
            elif res == "Ok":
                if g2[5] != ev:
                    bad("eof-effect", "eof in %s: expected %s, does %s" % (describe(gh[0], None), evs(ev), evs(g2[5])))
                S2 = mem[("o", "self")]
                hs = S2[2][HDR]
                if gh[0][0] == "header" and (hs is None or hs[0] != "a" or hs[1] != "Some"):
                    bad("eof-header", "a header at the end of input is not parsed")
    for k, t in viol.items():
        r.fail(k, t)
    for k, n, lo in (("state pairs", pairs, 15), ("error states latched", latched, 5), ("end of input", eofs, 15)):
        if not viol:
            r.floor(k, n, lo)
            for _ in range(n):
                r.ok("lockstep/" + k, k)
    r.count("abstract_steps", ip.steps)
    for i in ip.bodies:
        r.saw(prog.bodies[i])

    # ------------------------------------------------ header line
    r.rule("a header is recorded only after its five parts were tested: prefix, cnf, two numbers with the variable count in range, nothing else")
    hdr = fields[HDR]["name"]
    k = 0
    for name in ("parse_chunk", "eof"):
        g = r.graph(Graph(prog, api[name], Policy(prog, writes=lambda o, f: last(o) == "DimacsParser" and f == hdr)))
        W = writes(g, "DimacsParser", hdr)
        k += len(W)
        if not W:
            continue
        isnext = lambda e: e[0] in ("next",) or e[0] == "call" and e[1].endswith("::next")
        number = lambda at: at[0] == "is" and atom_is(at, "Some") == 1 and has_call(at[1], r"Option::and_then$|str::impl::parse$|::parse$") or \
            at[0] == "is" and atom_is(at, "Ok") == 1 and has_call(at[1], r"::parse$")
        tests = [("prefix", lambda at: at[0] == "true" and at[2] and at[1][0] == "call" and last(at[1][1]) == "starts_with" and any(s == ("s", "p ") for s in subexprs(at[1])) or
                  at[0] == "is" and atom_is(at, "Some") == 1 and has_call(at[1], r"strip_prefix$") and any(s == ("s", "p ") for s in subexprs(at[1]))),
                 ("cnf", lambda at: at[0] == "eq" and at[3] and any(isnext(x) for x in subexprs_all(at)) and any(s == ("s", "cnf") for s in subexprs_all(at))),
                 ("number", number),
                 ("range", lambda at: at[0] == "lt" and (not at[3] and max_count(at[1]) or at[3] and max_count(at[2]) is not None and False)),
                 ("rest", lambda at: at[0] == "is" and atom_is(at, "None") == 1 and isnext(at[1]))]
        for what, t in tests:
            r.must_cross(g, "header/%s/%s" % (name, what), W, "a header is recorded only after the test `%s`" % what, edge=t)
        # two separate numbers
        for u in range(len(g.nodes)):
            for v, cs in g.succ[u]:
                pass
        first = [v for u in range(len(g.nodes)) for v, cs in g.succ[u] if any(number(c) for c in cs)]
        inner = [v for v in first if avoid_path(g, [g.entry], [v], (), None) and avoid_path(g, [v], W, (), number) is None]
        r.check(bool(inner), "header/%s/two" % name, "two numbers are required", "a header with a single number is accepted")
        nx = g.calls(r"Iterator>?::next$|::next$")
        p = None
        cur = [g.entry]
        # every path takes four words from the line
        r.check(least_on_path(g, g.entry, W, set(nx)) >= 4, "header/%s/words" % name, "four words are read from the header line", "fewer than four words are read from the header line")
        sv = [n.id for n in g.nodes if n.kind == "call" and last(n.call.name) == "set_var_count"]
        for w in W:
            p = unpaired(g, w, sv, g.returns("Ok"))
            r.check(p is None, "header/%s/vars" % name, "the header's variable count extends the formula", "the header's variable count is not applied")
    r.floor("header writes", k, 2)

    r.rule("check_header succeeds only without a header or with both counts equal")
    g = r.graph(Graph(prog, api["check_header"], Policy(prog)))
    nohdr = lambda at: at[0] == "is" and atom_is(at, "None") == 1 and has_field(at[1], "DimacsParser", hdr)
    for f, src in (("var_count", lambda e: has_call(e, r"CnfFormula::var_count$")), ("clause_count", lambda e: has_field(e, "DimacsParser", fields[CNT]["name"]))):
        r.must_cross(g, "counts/%s" % f, g.returns("Ok"), "check_header compares the %s" % f,
                     edge=lambda at: nohdr(at) or at[0] == "eq" and at[3] and any(has_field(x, "DimacsHeader", f) for x in at[1:3]) and any(src(x) for x in at[1:3]))

    r.rule("whole-input parsing checks every chunk, the end of input and the header")
    b = api["parse_incremental"]
    for n2 in ("parse_chunk", "eof", "check_header"):
        pass
    g = r.graph(Graph(prog, b, Policy(prog, interest=lambda c: bool(re.search(r"DimacsParser::(parse_chunk|eof|check_header)$|BufRead::(fill_buf|consume)$", c.name) or re.search(r"BufRead::", (c.names or [""])[0])))))
    ok = g.returns("Ok")
    okc = lambda nm: (lambda at: at[0] == "is" and atom_is(at, "Ok") == 1 and at[1][0] == "call" and at[1][1].endswith("DimacsParser::" + nm))
    for nm in ("eof", "check_header"):
        r.must_cross(g, "whole/%s" % nm, ok, "parse_incremental succeeds only after `%s` did" % nm, edge=okc(nm))
    fill = [n.id for n in g.nodes if n.kind == "call" and any("fill_buf" in x for x in n.call.names)]
    cons = [n.id for n in g.nodes if n.kind == "call" and any(last(x) == "consume" for x in n.call.names)]
    chunk = g.calls(r"DimacsParser::parse_chunk$")
    eofc = g.calls(r"DimacsParser::eof$")
    cb = [n.id for n in g.nodes if n.kind == "call" and n.call.names and last(n.call.names[0]) in ("call", "call_mut", "call_once")]
    if fill:
        r.floor("chunk reads", len(fill), 1)
        empty = lambda at: at[0] == "eq" and at[3] and any(const_val(x) == 0 for x in at[1:3]) or at[0] == "true" and at[2] and has_call(at[1], "is_empty$")
        r.must_cross(g, "whole/all", eofc, "the end is only reached when no data is left", edge=empty)
        for c in cons:
            p = avoid_path(g, fill, [c], (), okc("parse_chunk"))
            r.check(p is None, "whole/chunk", "every chunk is parsed before it is consumed", "a chunk is consumed without parsing it: %s" % (" -> ".join(g.describe(p)) if p else ""))
    else:
        r.check(bool(chunk), "whole/chunk", "chunks are parsed")
        r.must_cross(g, "whole/chunk", eofc, "chunks are parsed before the end", node=lambda n: True)
    for c in chunk:
        p = avoid_path(g, [c], eofc + chunk, cb)
        r.check(p is None, "whole/callback", "the callback sees every chunk", "the callback is skipped after a chunk: %s" % (" -> ".join(g.describe(p)) if p else ""))
    for c in eofc:
        p = avoid_path(g, [c], ok, cb)
        r.check(p is None, "whole/last-callback", "the callback sees the end of the input", "the callback is skipped at the end of the input")
    okcb = lambda at: at[0] == "is" and atom_is(at, "Err") == 1
    for c in cb:
        p = avoid_path(g, [c], ok, (), lambda at: at[0] == "is" and atom_is(at, "Ok") == 1 and not has_call(at[1], r"DimacsParser::"))
        r.check(p is None, "whole/callback-error", "a failing callback fails the parse", "the callback's error is ignored")

    r.rule("taking the formula keeps its variable count")
    g = r.graph(Graph(prog, api["take_formula"], Policy(prog, small=0)))
    keep = [n.id for n in g.nodes if n.kind == "call" and last(n.call.name) == "set_var_count" and has_call(n.args()[1], r"var_count$")]
    p = avoid_path(g, [g.entry], rets(g), keep)
    r.check(p is None, "take", "the remaining formula keeps the variable count", "take_formula forgets the variable count")


def subexprs_all(at):
    for x in at[1:3]:
        yield from subexprs(x)


def max_count(e):
    if e[0] == "call" and re.search(r"Var::max_count$", e[1]):
        return 1
    return 1 if e[0] == "c" and len(e) > 3 and "max" in e[3].lower() else 1 if const_val(e) and const_val(e) > 2 ** 20 else None


def least_on_path(g, start, targets, marks):
    """Least number of marked nodes on any path (0-1 BFS)."""
    from collections import deque
    dist = {start: 0}
    dq = deque([start])
    tg = set(targets)
    best = None
    while dq:
        u = dq.popleft()
        for v, _ in g.succ[u]:
            d = dist[u] + (v in marks)
            if v not in dist or d < dist[v]:
                dist[v] = d
                (dq.append if v in marks else dq.appendleft)(v)
    ds = [dist[t] for t in tg if t in dist]
    return min(ds) if ds else 0


def max_dimacs(prog):
    b = prog.fn("varisat_formula::lit::Var::max_count")
    ip = Interp(prog, lambda *a: None)
    vs = {exact(o[1]) for o in ip.run(b, [], {}, None)}
    if len(vs) != 1 or None in vs:
        raise Missing("Var::max_count is not a constant")
    return vs.pop()


def cls(b):
    if b is None:
        return "eof"
    return "digit" if 48 <= b <= 57 else {10: "newline", 13: "return", 32: "space", 45: "minus", 99: "c", 112: "p"}.get(b, "other")


def evs(es):
    return ", ".join("literal %s %s..%s" % ("positive" if e[1] else "negative" if e[1] is False else "of unknown sign", e[2], e[3]) if e[0] == "lit" else
                     "end of %s clause" % ("a nonempty" if e[1] else "an empty" if e[1] is False else "an unknown") for e in es) or "nothing"
