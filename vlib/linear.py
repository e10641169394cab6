"""Interpretation with linear forms a*v+b over one unknown 0 <= v <= M: exact for variable and literal arithmetic."""
from .outputs import Out
from .terms import *
from .terms import Interp, exact, I, REF, truth
from .absint import BITS, width
from .ir import last


def lin(v, a, b):
    return I(b) if a == 0 else ("lin", v, a, b)


class Linear(Out):
    """`bounds`: name of the unknown -> largest value."""

    def __init__(self, prog, bounds, hook=None, **kw):
        super().__init__(prog, None, **kw)
        self.bounds, self.mine = bounds, hook

    def out_hook(self, ip, c, args, mem, gh):
        if self.mine is not None:
            r = self.mine(self, c, args, mem, gh)
            if r is not None:
                return r
        r = self.num(c, args, mem, gh)
        return r if r is not None else self.io(c, args, mem, gh)

    def rng(self, v):
        if v is None:
            return None
        if v[0] == "i":
            return v[1], v[2]
        if v[0] == "lin":
            x = v[2] * self.bounds[v[1]]
            return v[3] + min(0, x), v[3] + max(0, x)
        return None

    def form(self, v):
        """(name, a, b) or None."""
        if v is None:
            return None
        if v[0] == "lin":
            return v[1:]
        e = exact(v)
        return None if e is None else (None, 0, e)

    def wrap(self, v, ty):
        """The value if it fits the type, None otherwise."""
        r, b = self.rng(v), BITS.get(ty)
        if r is None or b is None:
            return None
        return v if b[0] <= r[0] and r[1] <= b[1] else None

    def op(self, op, a, b, ty):
        """Value of a binary operation, None when it is not linear; comparisons are decided by range."""
        x, y = self.form(a), self.form(b)
        if x is None or y is None:
            return None
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            if x[0] is not None and y[0] is not None and x[0] != y[0]:
                return ("cmp", op, a, b)
            n = x[0] or y[0]
            lo, hi = self.rng(lin(n, x[1] - y[1], x[2] - y[2]))
            same = lo == hi == 0
            if op in ("Eq", "Ne"):
                r = True if same else False if lo > 0 or hi < 0 else None
                return None if r is None else truth(r == (op == "Eq"))
            r = {"Lt": (hi < 0, lo >= 0), "Le": (hi <= 0, lo > 0), "Gt": (lo > 0, hi <= 0), "Ge": (lo >= 0, hi < 0), "Cmp": (False, False)}[op]
            return I(1) if r[0] else I(0) if r[1] else None
        n = x[0] or y[0]
        if x[0] is not None and y[0] is not None and x[0] != y[0]:
            return None
        k = None
        if op in ("Add", "Sub"):
            s = 1 if op == "Add" else -1
            return lin(n, x[1] + s * y[1], x[2] + s * y[2])
        if op == "Mul" and (x[1] == 0 or y[1] == 0):
            m, f = (x[2], y) if x[1] == 0 else (y[2], x)
            return lin(n, f[1] * m, f[2] * m)
        if y[1] != 0:
            if op in ("BitOr", "BitXor", "BitAnd") and x[1] == 0:
                return self.op(op, b, a, ty)
            return None
        c = y[2]
        if op == "Shl" and 0 <= c < 128:
            return lin(n, x[1] << c, x[2] << c)
        if op in ("Shr", "Div", "Rem") and c >= 0 and self.rng(a)[0] >= 0:
            m = 1 << c if op == "Shr" else c
            if m and x[1] % m == 0:
                q, r = divmod(x[2], m)
                return I(r) if op == "Rem" else lin(n, x[1] // m, q)
        if op in ("BitAnd", "BitOr", "BitXor") and self.rng(a)[0] >= 0:
            w = width(ty) or 1
            p = (x[1] & -x[1]) if x[1] else 1 << w
            if 0 <= x[2] < p and c >= 0:
                if op == "BitAnd":
                    full = (1 << w) - 1
                    if c < p:
                        return I(x[2] & c)
                    if (c | (p - 1)) == full or self.rng(a)[1] <= (c | (p - 1)) and (c | (p - 1)) & ((c | (p - 1)) + 1) == 0:
                        return lin(n, x[1], x[2] & c)
                elif c < p:
                    return lin(n, x[1], x[2] | c if op == "BitOr" else x[2] ^ c)
        return None

    def rvalue(self, mem, d, r):
        k = r["k"]
        tyof = lambda o: o["p"]["t"] if "p" in o else o.get("t")
        if k == "bin":
            a, b = self.operand(mem, d, r["a"]), self.operand(mem, d, r["b"])
            if any(v is not None and v[0] == "lin" for v in (a, b)):
                op, ty = r["op"], tyof(r["a"])
                over = op.endswith("WithOverflow")
                v = self.op(op.replace("WithOverflow", "").replace("Unchecked", ""), a, b, ty)
                if op not in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
                    w = self.wrap(v, ty)
                    return ("a", None, (w, I(0) if w is not None else None)) if over else w
                return v
        if k == "cast":
            v = self.operand(mem, d, r["a"])
            if v is not None and v[0] == "lin":
                return self.wrap(v, r["t"])
        if k == "un":
            v = self.operand(mem, d, r["a"])
            if v is not None and v[0] == "lin":
                t = tyof(r["a"])
                if r["op"] == "Neg":
                    return self.wrap(lin(v[1], -v[2], -v[3]), t)
                if r["op"] == "Not" and t.startswith("u"):
                    return lin(v[1], -v[2], (1 << width(t)) - 1 - v[3])
                return None
        return super().rvalue(mem, d, r)

    def num(self, c, args, mem, gh):
        """Numeric library functions on linear forms."""
        n = c.names[0] if c.names else ""
        D = [self.deref(mem, a) for a in args]
        R = lambda v: [(v, mem, gh)]
        if not D or not any(x is not None and x[0] == "lin" for x in D):
            return None
        ln = last(n)
        if n.startswith("core::cmp::") and len(D) == 2:
            if ln in ("eq", "ne", "lt", "le", "gt", "ge"):
                return R(self.op(ln.capitalize(), D[0], D[1], ""))
            if ln in ("cmp", "partial_cmp"):
                x, y = self.form(D[0]), self.form(D[1])
                v = ("cmp", "Ord", D[0], D[1]) if x and y and x[0] is not None and y[0] is not None and x[0] != y[0] else None
                return R(v if ln == "cmp" or v is None else ("a", "Some", (v,)))
        if n.startswith("core::num::"):
            ty = c.arg_types()[0]
            r = self.rng(D[0])
            if ln in ("abs", "unsigned_abs", "wrapping_abs") and r:
                return R(D[0] if r[0] >= 0 else lin(D[0][1], -D[0][2], -D[0][3]) if r[1] <= 0 else None)
            if ln in ("is_positive", "is_negative", "signum") and r:
                s = 1 if r[0] > 0 else -1 if r[1] < 0 else 0 if r == (0, 0) else None
                return R(None if s is None else I(s) if ln == "signum" else truth((s > 0) if ln == "is_positive" else (s < 0)))
            for p in ("wrapping_", "checked_", "saturating_", "unchecked_"):
                if ln.startswith(p) and ln[len(p):] in ("add", "sub", "mul", "shl", "shr", "neg"):
                    o = ln[len(p):].capitalize()
                    v = self.wrap(self.op("Sub", I(0), D[0], ty) if o == "Neg" else self.op(o, D[0], D[1], ty), c.ret_ty if p != "checked_" else ty)
                    return R(("a", "Some", (v,)) if p == "checked_" and v is not None else v)
        if n in ("core::convert::From::from", "core::convert::Into::into") and c.ret_ty in BITS:
            return R(self.wrap(D[0], c.ret_ty))
        if ln in ("try_from", "try_into") and D[0][0] == "lin":
            t = c.ret_ty.split("<", 1)[1].split(",")[0].strip() if "<" in c.ret_ty else ""
            v = self.wrap(D[0], t)
            return R(("a", "Ok", (v,)) if v is not None else None)
        return None
