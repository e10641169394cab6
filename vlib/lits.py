"""Values of type Lit and Var in term-based interpretation.

An arbitrary literal is an opaque name x; its parts are the variable ('vr',x) and the sign ('pos',x).  A literal put
together from parts is ('lit',var,sign); putting the parts of x together gives x again.  The functions of
varisat_formula::lit are modelled here; that they behave like this for every representable value is C28.
"""
from .terms import *
from .terms import I, T, B
from .ir import last, base_type

LIT, VAR = "varisat_formula::lit::Lit", "varisat_formula::lit::Var"


def parts(x):
    if isinstance(x, tuple) and x and x[0] == "lit":
        return x[1], x[2]
    return ("vr", x), B(("pos", x))


def mk(v, p):
    if v is None or p is None:
        return None
    if v[0] == "vr" and p == B(("pos", v[1])):
        return v[1]
    return ("lit", v, p)


def neg(x):
    v, p = parts(x)
    return mk(v, flip(p))


def flip(p):
    if p is None:
        return None
    if p[0] == "i":
        return ("i", 1 - p[2], 1 - p[1])
    if isinstance(p[1], tuple) and p[1][0] == "not":
        return B(p[1][1])
    return B(("not", p[1]))


def lit_hook(ip, c, args, mem, gh):
    """Model of the public functions of Lit and Var; None if the call is something else."""
    n = c.name
    if "varisat_formula::lit::" not in n or not c.names:
        return None
    ln = last(c.names[0])
    R = lambda v: [(v, mem, gh)]
    D = [ip.close(mem, a) for a in args]
    a0 = D[0] if D else None
    t0 = base_type(c.arg_types()[0].replace("&", "").replace("mut ", "").strip()) if D else ""
    self_lit = t0 == LIT
    self_var = t0 == VAR
    if c.names[0].startswith(("core::cmp::Partial", "core::cmp::PartialEq")) and ln in ("eq", "ne") and len(D) == 2:
        v = lit_eq(ip, mem, D[0], D[1], self_lit)
        return R(v if ln == "eq" else flip(v))
    if c.names[0] == "core::ops::bit::Not::not" and self_lit:
        return R(None if a0 is None else neg(a0))
    if c.names[0] == "core::ops::bit::BitXor::bitxor" and self_lit:
        if a0 is None or D[1] is None:
            return R(None)
        v, p = parts(a0)
        return R(mk(v, ip.arith("BitXor", p, D[1], "bool") if exact(D[1]) is None or p[0] == "t" else I(exact(p) ^ exact(D[1]))))
    if c.names[0].startswith("core::convert::") and c.ret_ty == LIT and self_var:
        return R(mk(a0, I(1)))
    if "trait" in n and "::cmp::" in n:
        return None
    if self_lit and ln in ("to_dimacs", "code", "index", "var", "is_positive", "is_negative", "map_var"):
        if a0 is None:
            return R(None) if ln != "map_var" else None
        v, p = parts(a0)
        if ln == "var":
            return R(v)
        if ln in ("is_positive", "is_negative"):
            return R(ip.known(mem, p if ln == "is_positive" else flip(p)))
        if ln == "index":
            if v[0] == "mk" and v[1] == "vindex":
                return R(v[2])
            return R(T(("vindex", v), 0, 2 ** 31 - 1))
        if ln == "code":
            return R(T(("code", a0), 0, 2 ** 32 - 1))
        if ln == "to_dimacs":
            return R(("t", ("dimacs", a0), -2 ** 31, 2 ** 31))
        return [(mk(w, p), m, g) for w, m, g in ip.invoke(args[1], [v], mem, gh)]
    if self_var and ln in ("lit", "positive", "negative", "index", "to_dimacs"):
        if a0 is None:
            return R(None)
        if ln in ("lit", "positive", "negative"):
            return R(mk(a0, D[1] if ln == "lit" else I(1 if ln == "positive" else 0)))
        if ln == "index" and a0[0] == "mk" and a0[1] == "vindex":
            return R(a0[2])
        return R(T(("vindex" if ln == "index" else "vdimacs", a0), 0, 2 ** 31 - (ln == "index")))
    if ln in ("from_var", "positive", "negative") and c.ret_ty == LIT:
        return R(mk(a0, D[1] if ln == "from_var" else I(1 if ln == "positive" else 0)))
    if ln in ("from_index", "from_dimacs", "from_code"):
        inv = {("from_index", VAR): "vindex", ("from_dimacs", VAR): "vdimacs", ("from_dimacs", LIT): "dimacs", ("from_code", LIT): "code"}
        if ln == "from_index" and c.ret_ty == LIT:
            v = None if a0 is None else a0[1][1] if a0[0] == "t" and isinstance(a0[1], tuple) and a0[1][0] == "vindex" else ("mk", "vindex", a0)
            return R(mk(v, D[1]))
        k = inv[(ln, c.ret_ty)]
        if a0 is None:
            return R(None)
        if a0[0] == "t" and isinstance(a0[1], tuple) and a0[1][0] == k:
            return R(a0[1][1])
        return R(("mk", k, a0))
    return None


def lit_eq(ip, mem, a, b, is_lit=True):
    if a is None or b is None:
        return None
    if a == b:
        return I(1)
    if is_lit:
        (v, p), (w, q) = parts(a), parts(b)
        if v == w:
            return ip.compare(mem, "Eq", p, q) if not (p == flip(q)) else I(0)
    if repr(b) < repr(a):
        a, b = b, a
    return ip.known(mem, B(("same", a, b)))
