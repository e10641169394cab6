"""C20 — LRAT output reports every clause event with the right identifier."""
from vlib.common import *
from vlib import steps
from vlib.absint import Stuck, exact, I
from vlib.outputs import Out, tokens, events, struct
from vlib.terms import T, B, REF, GH0, canon
from rules.c06 import show, join

EXPLANATION = ("Term-based abstract interpretation of the LRAT processor for every kind of checked step with arbitrary identifiers, literals and hints, in both encodings, with and without an open "
               "deletion step and waiting deletions: the tokens written and the state kept afterwards must be those of the format (additions complete, deletions batched and closed before an "
               "addition, none lost); likewise for flush, drop and construction. Every write may fail and must then be reported.")

W = "varisat_lrat::WriteLrat"
CHECKED = "varisat_checker::processing::CheckedProofStep"


def run(prog, r):
    widths(prog, r, "varisat_lrat")
    r.rule("tokens written and state kept for (step, encoding, open deletion, waiting deletions) = the LRAT protocol")
    try:
        decide(prog, r)
    except Stuck as e:
        r.fail("undecided", str(e))


class L(Out):
    def element(self, term):
        if isinstance(term, tuple) and len(term) == 2 and term[1] == "waiting":
            return ident(term)
        x = steps.element(self.prog, term, CHECKED)
        return ident(x[1]) if x is not None and x[0] == "t" and x[3] == 2 ** 64 - 1 else x


def ident(term):
    """A clause identifier (they are counted, so far below 2^62)."""
    return T(term, 0, 2 ** 62)


def decide(prog, r):
    fs = [(f["name"], f["ty"]) for f in prog.adt(W)["variants"][0]["fields"]]
    new = prog.fn(W + "::new")

    def find(trait, name):
        bs = [b for b in prog.bodies.values() if (b.raw.get("trait") or "").startswith(trait) and last(b.path) == name and base_type(b.raw.get("self_ty") or "") == W]
        if len(bs) != 1:
            raise Missing("%s of %s" % (name, W))
        return bs[0]

    # the role of each field, from the constructor and the types
    ip = L(prog)
    args = [B("binary") if new.loc_type(i) == "bool" else ("sink",) for i in range(1, new.argc + 1)]
    outs = [o for o in ip.run(new, args, {}, GH0)]
    start = ip.close(dict(outs[0][2]), outs[0][1]) if len(outs) == 1 else None
    if start is None or start[0] != "a":
        raise Missing("value built by " + new.path)
    role = {}
    for i, (f, ty) in enumerate(fs):
        if ty == "bool":
            role["binary" if start[2][i] == B("binary") else "open"] = i
        elif ty == "u64":
            role["last"] = i
        elif ty.startswith("alloc::vec::Vec<u64"):
            role["waiting"] = i
    for k in ("binary", "open", "last", "waiting"):
        if k not in role:
            raise Missing("the field of WriteLrat that holds `%s`" % k)
    r.check(exact(start[2][role["open"]]) == 0, "new/open", "starts without an open deletion", "a new LRAT writer starts with an open deletion step")
    r.check(start[2][role["waiting"]] in (("q", 0, ()), ("v", 0)), "new/waiting", "starts without waiting deletions", "a new LRAT writer does not start without waiting deletions")

    def state(binary, is_open, waiting):
        v = [("sink",)] * len(fs)
        v[role["binary"]], v[role["open"]], v[role["last"]] = I(binary), I(is_open), ident("last")
        v[role["waiting"]] = ("sl", "waiting") if waiting else ("q", 0, ())
        return ("a", start[1], tuple(v))

    def succ(v):
        return ("t", ("+", v, 1), v[2] + 1, v[3] + 1)

    def idt(binary, v):
        if binary:
            return (("leb", ("t", ("Mul", succ(v), I(2)), 0, 2 ** 64 - 1)),)
        return (("dec", succ(v)), b" ")

    def lits(binary, n):
        x = ("e", n)
        return (("leb", ("t", ("+", ("t", ("code", x), 0, 2 ** 32 - 1), 2), 2, 2 ** 32 + 1)),) if binary else (("dec", ("t", ("dimacs", x), -2 ** 31, 2 ** 31)), b" ")

    def rep(n, body, ln):
        return {"nonempty": [(("rep", n, frozenset({body})),)], "empty": [()]}.get(ln, [(("rep", n, frozenset({body})),), ()])

    LAST = ident("last")
    shape = steps.shape(prog, CHECKED)
    done = fails = 0

    def case(key, fn, args, st, kind, step, binary, is_open, waiting):
        nonlocal done, fails
        ip = L(prog)
        outs = ip.run(fn, args, {("o", "w"): st}, GH0)
        for b in ip.bodies:
            r.saw(prog.bodies[b])
        seen = 0
        for what, v, objs, g in outs:
            mem = dict(objs)
            v = ip.close(mem, v)
            res = v[1] if v is not None and v[0] == "a" else None
            if what == "panic":
                r.fail(key + "/panic", "%s: panics" % key)
                continue
            if g[1] == "failed":
                fails += 1
                if kind != "drop":
                    r.check(res == "Err", key + "/failed", "a failed write is reported", "%s: a failed write is not reported (result %s)" % (key, res))
                continue
            seen += 1
            got = canon(tokens(events(g)))
            now = mem.get(("o", "w"))

            def ln(n):
                f = mem.get(("F", ("len", n)))
                return None if f is None else "nonempty" if f[-2] >= 1 else "empty" if f[-1] == 0 else None
            wants = canon(tuple(expected(kind, step, binary, is_open, waiting, ln)))
            if kind == "flush":
                w = [e[0] for e in events(g) if e[0] in ("w", "flush")]
                r.check(res != "Ok" or w and w[-1] == "flush", key + "/flushed", "everything written is passed on", "%s: returns Ok without flushing what it wrote to the output" % key)
            for toks, op, lastv, wait in wants:
                if got != toks or now is None or now[0] != "a":
                    continue
                o, l, w = exact(now[2][role["open"]]), now[2][role["last"]], now[2][role["waiting"]]
                if o == op and l == lastv and w in wait and exact(now[2][role["binary"]]) == binary and (kind == "drop" or res == "Ok"):
                    r.ok(key, "written and kept as required")
                    break
            else:
                r.fail(key, "%s: writes `%s` and then keeps open deletion %s, waiting deletions %s, last identifier %s (result %s); required: %s" % (
                    key, show(got), now and exact(now[2][role["open"]]), now and now[2][role["waiting"]], now and now[2][role["last"]], res,
                    " or ".join("`%s`, open %s" % (show(w[0]), w[1]) for w in wants[:2]) or "impossible"))
        done += seen
        if not seen:
            r.fail(key, "no outcome of %s was recognised" % key)

    EMPTY = (("q", 0, ()), ("v", 0))
    WAIT = (("sl", "waiting"), ("q", 0, (("each", "waiting", frozenset({(("one", ident(("e", "waiting"))),)})),)))

    def expected(kind, step, binary, is_open, waiting, ln):
        """[(tokens, open, last identifier, waiting deletions)] allowed."""
        opened = lambda o: () if o else (b"d",) if binary else idt(binary, LAST) + (b"d ",)
        end = b"\0" if binary else b"0\n"
        pre = [((), is_open, waiting)]
        if waiting and ln("waiting") == "empty":
            pre = [((), is_open, 0)]
        elif waiting and kind not in ("AddClause", "DuplicatedClause"):
            flushed = [(opened(is_open) + x, 1, 0) for x in rep("waiting", idt(binary, ident(("e", "waiting"))), ln("waiting"))]
            pre = flushed + (pre if kind in ("UserVar", "MakeIrredundant", "Model", "Assumptions", "FailedAssumptions") else [])
        out = []
        f = {} if step is None else {n: v for (n, _), v in zip(shape[kind], step[2])}
        for toks, o, w in pre:
            keep = WAIT + (EMPTY if ln("waiting") == "empty" else ()) if w else EMPTY + ((("sl", "waiting"),) if waiting and ln("waiting") == "empty" else ())
            if kind in ("UserVar", "MakeIrredundant", "Model", "Assumptions", "FailedAssumptions"):
                out.append((join(toks), o, LAST, keep))
            elif kind == "AddClause":
                out.append((join(toks), o, f["id"], keep))
            elif kind in ("DuplicatedClause", "TautologicalClause"):
                if binary:
                    out.append((join(toks + opened(o) + idt(binary, f["id"])), 1, f["id"], keep))
                else:
                    one = (("one", f["id"]),)
                    kept = tuple(("q", 0, k[2] + one) for k in (WAIT[1:] if w else EMPTY[:1]))
                    if waiting and ln("waiting") == "empty":
                        kept += (("q", 0, WAIT[1][2] + one), ("q", 0, one))
                    out.append((join(toks), o, f["id"], kept))
            elif kind == "AtClause":
                for a in rep("AtClause.clause", lits(binary, "AtClause.clause"), ln("AtClause.clause")):
                    for p in rep("AtClause.propagations", idt(binary, ident(("e", "AtClause.propagations"))), ln("AtClause.propagations")):
                        t = toks + ((end,) if o else ()) + ((b"a",) if binary else ()) + idt(binary, f["id"]) + a + ((b"\0",) if binary else (b"0 ",)) + p + (end,)
                        out.append((join(t), 0, f["id"], keep))
            elif kind in ("DeleteAtClause", "DeleteRatClause", "DeleteClause"):
                if kind == "DeleteClause" or exact(f["keep_as_redundant"]) == 0:
                    out.append((join(toks + opened(o) + idt(binary, f["id"])), 1, LAST, keep))
                else:
                    out.append((join(toks), o, LAST, keep))
            elif kind in ("flush", "drop"):
                out.append((join(toks + ((end,) if o else ())), 0, LAST, keep))
        return out

    process = find("varisat_checker::processing::ProofProcessor", "process_step")
    for binary in (0, 1):
        for is_open in (0, 1):
            for waiting in (0, 1):
                at = "%s%s%s" % ("compressed" if binary else "text", ", deletion open" if is_open else "", ", deletions waiting" if waiting else "")
                me = ("p", ("o", "w"), ())
                for kind in sorted(shape):
                    base = steps.build(prog, kind, CHECKED)
                    i = next((i for i, (f, _) in enumerate(shape[kind]) if f == "id"), None)
                    vals = list(base[2])
                    if i is not None:
                        vals[i] = ident(kind + ".id")
                    k = next((i for i, (f, _) in enumerate(shape[kind]) if f == "keep_as_redundant"), None)
                    for b in ((0, 1) if k is not None else (None,)):
                        if k is not None:
                            vals[k] = I(b)
                        step = ("a", kind, tuple(vals))
                        case("%s%s (%s)" % (kind, "" if b is None else " kept as redundant" if b else " removed", at), process, [me, REF(step), ("data",)], state(binary, is_open, waiting), kind, step, binary, is_open, waiting)
                case("flush (%s)" % at, prog.fn(W + "::flush"), [me], state(binary, is_open, waiting), "flush", None, binary, is_open, waiting)
                case("drop (%s)" % at, find("core::ops::drop::Drop", "drop"), [me], state(binary, is_open, waiting), "drop", None, binary, is_open, waiting)
    r.floor("kinds of checked steps", len(shape), 12)
    r.floor("outcomes compared", done, 100)
    r.floor("failed writes followed", fails, 50)
