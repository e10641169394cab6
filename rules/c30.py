"""C30 — DIMACS output lists exactly the given clauses."""
from vlib.common import *
from vlib.absint import Stuck
from vlib.outputs import Out, tokens, events, struct
from vlib.terms import REF, GH0, T
from rules.c06 import show

EXPLANATION = ("Term-based abstract interpretation of write_dimacs, write_dimacs_header and write_dimacs_clauses with an arbitrary formula (any number of clauses of any length, every write may fail): "
               "the token structure of everything written must be the header line with the formula's own counts followed by one line per clause with its literals in order and the terminating "
               "zero, and every failed write must be returned as an error.")


def run(prog, r):
    widths(prog, r, "varisat_dimacs", "varisat_formula::cnf")
    r.rule("everything written = header line, then for each clause its literals' DIMACS numbers, each followed by a blank, and `0` newline; failed writes are returned")
    try:
        decide(prog, r)
    except Stuck as e:
        r.fail("undecided", str(e))


class W(Out):
    def element(self, term):
        if term == ("e", "clauses"):
            return REF(("sl", ("lits", term)))
        return super().element(term)


def known_len(mem, n):
    f = mem.get(("F", ("len", n)))
    return None if f is None else "some" if f[-2] >= 1 else "none" if f[-1] == 0 else None


def decide(prog, r):
    def hook(ip, c, args, mem, gh):
        n = c.names[0] if c.names else ""
        if n.startswith("varisat_formula::cnf::CnfFormula::"):
            ln = last(n)
            if ln == "iter":
                return [(REF(("sl", "clauses")), mem, gh)]
            if ln == "len":
                return [(T(("len", "clauses")), mem, gh)]
            if ln == "var_count":
                return [(T("formula.var_count"), mem, gh)]
        return None
    e = ("e", "clauses")
    seq = ("lits", e)
    full = (("rep", seq, frozenset({(("dec", ("t", ("dimacs", ("e", seq)), -2 ** 31, 2 ** 31)), b" ")})), b"0\n")
    empty = (("none", seq), b"0\n")
    clauses = {(("rep", "clauses", frozenset(x)),) for x in ({full}, {empty}, {full, empty})}
    head = lambda v, k: (b"p cnf ", ("dec", v), b" ", ("dec", k), b"\n")
    n = lines = 0
    hv, hk, fv = T("header.var_count"), T("header.clause_count"), T("formula.var_count")
    hdr = struct(prog, "varisat_dimacs::DimacsHeader", var_count=hv, clause_count=hk)
    for name, args, pre, what in (("write_dimacs_header", [("sink",), hdr], head(hv, hk), "the header line with the given counts"),
                                  ("write_dimacs_clauses", [("sink",), REF(("sl", "clauses"))], (), "one line per clause with its literals in order and `0`"),
                                  ("write_dimacs", [("sink",), ("formula",)], head(fv, T(("len", "clauses"))), "the header with the formula's counts and one line per clause with its literals in order and `0`")):
        fn = prog.fn("varisat_dimacs::" + name)
        ip = W(prog, hook)
        complete = False
        for kind, v, objs, g in ip.run(fn, args, {}, GH0):
            mem = dict(objs)
            n += 1
            v = ip.close(mem, v)
            got = tokens(events(g), empties=True)
            res = v[1] if v is not None and v[0] == "a" else None
            if g[1] == "failed":
                r.check(res == "Err", name + "/failed", "a failed write is returned", "%s returns %s after a failed write" % (name, res))
                continue
            if name == "write_dimacs_header":
                want = {pre}
            else:
                k = known_len(mem, "clauses")
                want = {pre + c for c in clauses} if k == "some" else {pre + (("none", "clauses"),), pre} if k == "none" else set()
            complete |= any(isinstance(t, tuple) and t[0] == "rep" and full in t[2] for t in got)
            ok = got in want and kind == "ret" and res == "Ok"
            lines += ok
            r.check(ok, name, what, "%s must write %s; it writes `%s` and returns %s" % (name, what, show(got), res if kind == "ret" else kind))
        if name != "write_dimacs_header":
            r.check(complete, name + "/literals", "literals are written", "%s never writes the literals of a clause" % name)
        for b in ip.bodies:
            r.saw(prog.bodies[b])
    r.floor("outcomes", n, 6)
    r.floor("complete outputs", lines, 5)
