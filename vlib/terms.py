"""Abstract interpretation with value terms, facts about them and summarised loops.

Extends absint.Interp so that functions over collections of unknown length can be interpreted:
  ('sl',name)            an arbitrary sequence; its representative element is ('e',name)
  ('q',depth,parts)      a collection built by the code: ('one',v), ('each',name,alternatives), ('open',name,alts,parts)
  ('it',...)             an iterator over segments with adapters
  ('u',term,variants)    an enum value whose variant is not known yet; split on first inspection
  ('t',term,lo,hi)       an integer or bool named by a term; what a path has learned about it is kept in mem[('F',term)]
Ghost state is (frames, user): frames record the events of the path; a loop over a sequence is folded into one item
('loop', name, set of what one iteration does), so loops have finitely many summaries.
"""
import re
from .absint import *
from .absint import Interp, split_top, I, exact, truth, Stuck, BITS, binop, eq
from .ir import base_type, last, Call

CMP = {"Lt", "Le", "Gt", "Ge", "Eq", "Ne"}
NEGCMP = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt", "Eq": "Ne", "Ne": "Eq"}
SWAP = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
EMPTY = ("q", 0, ())
GH0 = (((None, frozenset(), ()),), None)
UNIT = ("a", None, ())
OK = lambda v=UNIT: ("a", "Ok", (v,))
ERR = ("a", "Err", (None,))
NONE = ("a", "None", ())
SOME = lambda v: ("a", "Some", (v,))
REF = lambda v: ("p", ("K", "val", v), ())
USZ = (0, 2 ** 64 - 1)


def T(term, lo=0, hi=2 ** 64 - 1):
    return ("t", term, lo, hi)


def B(term):
    return ("t", term, 0, 1)


def size(v):
    return 1 + sum(size(x) for x in v) if isinstance(v, (tuple, frozenset)) else 1


def mentions(v, what):
    if v == what:
        return True
    return any(mentions(x, what) for x in v) if isinstance(v, (tuple, frozenset)) else False


def forward(name):
    """The sequence that a loop `name` goes over, forwards or backwards."""
    while isinstance(name, tuple) and len(name) == 2 and name[0] == "rev":
        name = name[1]
    return name


def rename(v, names):
    """Elements of the iteration that just ended become `some earlier element`."""
    if not isinstance(v, tuple):
        return v
    if len(v) == 2 and v[0] in ("e", "ix") and v[1] in names:
        return ("p" + v[0], v[1])
    if v and v[0] == "q":
        return v
    out = tuple(rename(x, names) for x in v)
    return v if out == v else out


def emit(gh, ev):
    fr, u = gh
    n, s, items = fr[-1]
    return (fr[:-1] + ((n, s, items + (ev,)),), u)


def user(gh, u):
    return (gh[0], u)


def events(gh):
    """Final event tree: loops still open were left by a return or break."""
    fr = gh[0]
    while len(fr) > 1:
        n, s, items = fr[-1]
        pn, ps, pi = fr[-2]
        fr = fr[:-2] + ((pn, ps, pi + (("brk", n[0], s, items),)),)
    return fr[0][2]


OPERATORS = {"core::ops::arith::%s::%s" % (o, o.lower()): o for o in ("Add", "Sub", "Mul", "Div", "Rem")}
OPERATORS.update({"core::ops::bit::%s::%s" % (o, o.lower()): o for o in ("Shl", "Shr", "BitAnd", "BitOr", "BitXor")})


def canon(v):
    """Arithmetic terms in a canonical linear form, everything else unchanged; operations that may wrap are left alone."""
    if isinstance(v, frozenset):
        return frozenset(canon(x) for x in v)
    if not isinstance(v, tuple):
        return v
    if len(v) == 4 and v[0] == "t" and isinstance(v[2], int):
        f = linear(v)
        if f is not None and f[0] is not v:
            return ("t", ("lin", canon(f[0]), f[1], f[2]), f[1] * f[0][2] + f[2], f[1] * f[0][3] + f[2])
    return tuple(canon(x) for x in v)


def linear(v):
    """(base term, factor, offset) of an arithmetic term with a non-negative factor that cannot have wrapped."""
    t = v[1]
    if isinstance(t, tuple) and len(t) == 3:
        op, a, b = t
        if isinstance(b, int):
            b = I(b)
        if isinstance(a, tuple) and a and a[0] == "i" and op in ("Add", "Mul", "BitOr"):
            a, b = b, a
        k = exact(b) if isinstance(b, tuple) and b and b[0] == "i" else None
        if k is not None and isinstance(a, tuple) and len(a) == 4 and a[0] == "t":
            f = linear(a)
            r = None
            if op in ("+", "Add"):
                r = f[1], f[2] + k
            elif op == "Sub":
                r = f[1], f[2] - k
            elif op == "Mul" and k > 0 or op == "Shl" and 0 <= k < 64:
                k = k if op == "Mul" else 1 << k
                r = f[1] * k, f[2] * k
            elif op in ("BitOr", "BitXor") and 0 <= k < (f[1] & -f[1]) and f[2] % (f[1] & -f[1]) == 0:
                r = f[1], f[2] + k
            if r is not None:
                lo, hi = r[0] * f[0][2] + r[1], r[0] * f[0][3] + r[1]
                if v[2] <= lo and hi <= v[3]:
                    return f[0], r[0], r[1]
    return v, 1, 0


class Terms(Interp):
    SAT = 3
    TERM = 40
    VARIANT_EVENTS = True

    def __init__(self, prog, hook=None, opaque=lambda body: False, max_depth=12):
        super().__init__(prog, self.base_hook, opaque, max_depth)
        self.user_hook = hook
        self.unknown = set()

    # ------------------------------------------------------------ facts
    def fact(self, mem, term, lo, hi):
        if isinstance(term, tuple) and term[0] == "not":
            l, h = self.fact(mem, term[1], 0, 1)
            return 1 - h, 1 - l
        f = mem.get(("F", term))
        return (max(lo, f[1]), min(hi, f[2])) if f is not None else (lo, hi)

    def refine(self, mem, v, lo, hi):
        """Assume the term value v lies in [lo,hi]; None if impossible, else the new memory."""
        if isinstance(v[1], tuple) and v[1][0] == "not":
            return self.refine(mem, B(v[1][1]), 1 - min(hi, 1), 1 - max(lo, 0))
        l, h = self.fact(mem, v[1], v[2], v[3])
        l, h = max(l, lo), min(h, hi)
        if l > h:
            return None
        m = dict(mem)
        m[("F", v[1])] = ("i", l, h)
        t = v[1]
        if isinstance(t, tuple) and t[0] in CMP and l == h:
            m = self.assume(m, t[0] if l else NEGCMP[t[0]], t[1], t[2])
        return m

    def assume(self, mem, op, a, b):
        """Memory after assuming `a op b` between term values and integers."""
        if a[0] != "t" and b[0] == "t":
            a, b, op = b, a, SWAP[op]
        if a[0] != "t":
            return mem
        bl, bh = self.interval(mem, b)
        lo, hi = self.interval(mem, a)
        if op == "Lt":
            hi = min(hi, bh - 1)
        elif op == "Le":
            hi = min(hi, bh)
        elif op == "Gt":
            lo = max(lo, bl + 1)
        elif op == "Ge":
            lo = max(lo, bl)
        elif op == "Eq":
            lo, hi = max(lo, bl), min(hi, bh)
        elif op == "Ne" and bl == bh:
            lo, hi = lo + (lo == bl), hi - (hi == bl)
        if lo > hi:
            return None
        m = dict(mem)
        m[("F", a[1])] = ("i", lo, hi)
        return m

    def interval(self, mem, v):
        if v[0] == "t":
            return self.fact(mem, v[1], v[2], v[3])
        return v[-2], v[-1]

    def known(self, mem, v):
        """Replace a term that facts pin to a value."""
        if v is not None and v[0] == "t":
            l, h = self.fact(mem, v[1], v[2], v[3])
            if l == h:
                return I(l)
            t, x = v[1], 0
            if isinstance(t, tuple) and t[0] == "not":
                t, x = t[1], 1
                l, h = self.fact(mem, t, 0, 1)
                if l == h:
                    return I(1 - l)
            if isinstance(t, tuple) and t[0] == "Lt" and exact(("i",) + tuple(self.fact(mem, ("Lt", t[2], t[1]), 0, 1))) == 1:      # b < a excludes a < b
                return I(x)
        return v

    def operand(self, mem, d, o):
        return self.known(mem, super().operand(mem, d, o))

    def branch(self, v, mem, gh):
        """[(bool, mem, ghost)] for a condition value."""
        v = self.known(mem, v)
        if v is not None and exact(v) is not None:
            return [(bool(exact(v)), mem, gh)]
        if v is None or v[0] != "t":
            return [(True, mem, gh), (False, mem, gh)]
        out = []
        for x in (1, 0):
            m = self.refine(mem, v, x, x)
            if m is not None:
                out.append((bool(x), m, self.learned(m, gh, v[1], x)))
        return out

    def learned(self, mem, gh, term, x):
        """Hook: a path learned that term == x."""
        if isinstance(term, tuple) and term[0] == "not":
            term, x = term[1], 1 - x
        return emit(gh, ("is", term, x))

    # ------------------------------------------------------------ values
    def compare(self, mem, op, a, b):
        for x, y, o in ((a, b, op), (b, a, SWAP[op])):
            if x[0] == y[0] == "t" and isinstance(x[1], tuple) and isinstance(y[1], tuple) and x[1][0] in ("ix", "pix") and y[1] == ("len", x[1][1]):
                return truth(o in ("Lt", "Le", "Ne"))
        if a == b and a[0] == "t":
            return truth(op in ("Eq", "Le", "Ge"))
        x, y = ("i",) + tuple(self.interval(mem, a)), ("i",) + tuple(self.interval(mem, b))
        r = binop(op, x, y, "")
        if r is not None:
            return r
        if a[0] != "t":
            a, b, op = b, a, SWAP[op]
        if exact(b) is not None:        # canonical form: a < c
            c = exact(b)
            l, h = self.interval(mem, a)
            if op in ("Eq", "Ne") and c == l:
                op, c = ("Lt" if op == "Eq" else "Ge"), c + 1
            elif op in ("Eq", "Ne") and c == h:
                op = "Ge" if op == "Eq" else "Lt"
            elif op in ("Le", "Gt"):
                op, c = ("Lt" if op == "Le" else "Ge"), c + 1
            b = I(c)
        elif op in ("Le", "Gt"):
            a, b, op = b, a, SWAP[op]
        while op in ("Lt", "Ge") and b[0] == "t" and isinstance(b[1], tuple) and b[1][0] == "+" and b[1][2] == 1 and b[1][1][3] + 1 == b[3]:      # a < b + 1
            a, b, op = b[1][1], a, ("Ge" if op == "Lt" else "Lt")
        if a == b and a[0] == "t":
            return truth(op in ("Eq", "Le", "Ge"))
        if op in ("Eq", "Ne") and repr(b) < repr(a) and b[0] == "t":
            a, b = b, a
        v = B(("Lt" if op in ("Lt", "Ge") else "Eq", a, b))
        return self.known(mem, v if op in ("Lt", "Eq") else self.negate(v))

    def rvalue(self, mem, d, r):
        if r["k"] == "bin":
            a, b = self.operand(mem, d, r["a"]), self.operand(mem, d, r["b"])
            ty = r["a"].get("t") or (r["a"]["p"]["t"] if "p" in r["a"] else "")
            op = r["op"].replace("WithOverflow", "").replace("Unchecked", "")
            k = self.body.counters().get(id(r)) if op in CMP else None
            if k is not None:
                v = self.counting(mem, k, *((a, b) if k[3] else (b, a)))
                if v is not None:
                    return v
            if a is not None and b is not None and a[0] in "it" and b[0] in "it" and "t" in (a[0], b[0]):
                if op in CMP:
                    return self.compare(mem, op, a, b)
                v = self.arith(op, a, b, ty)
                return ("a", None, (v, I(0))) if r["op"].endswith("WithOverflow") else v
            if op in ("Eq", "Ne") and a is not None and b is not None and not (a[0] in "ib" and b[0] in "ib"):
                x = self.equal(mem, a, b)
                if x is not None:
                    return x if op == "Eq" else self.negate(x)
            v = super().rvalue(mem, d, r)
            if op == "Add" and v is not None and v[0] == "i" and v[2] > self.SAT and BITS.get(ty) and not r["op"].endswith("WithOverflow"):
                return self.widen(a, b, v, ty)
            if op == "Add" and v is not None and v[0] == "a" and v[2][0] is not None and v[2][0][0] == "i" and BITS.get(ty):
                return ("a", None, (self.widen(a, b, v[2][0], ty), I(0)))
            return v
        if r["k"] == "un" and r["op"] == "Not":
            v = self.operand(mem, d, r["a"])
            if v is not None and v[0] == "t" and (v[2], v[3]) == (0, 1):
                return self.negate(v)
        if r["k"] == "discr":
            v = self.place(mem, d, r["p"])
            if v is not None and v[0] == "u":
                return ("t", ("discr", v[1]), 0, 2 ** 31)
        if r["k"] == "cast":
            v = self.operand(mem, d, r["a"])
            if v is not None and v[0] == "t":
                return ("t", v[1]) + BITS[r["t"]] if r["t"] in BITS and not self.fits(v, r["t"]) else v
        return super().rvalue(mem, d, r)

    def step(self, st):
        self.body = self.prog.bodies[st[0][-1][0]]
        return super().step(st)

    def is_counter(self, v):
        return v is not None and (exact(v) == 0 or v[0] == "t" and isinstance(v[1], tuple) and v[1][0] == "+" and v[1][2] == 1 and isinstance(v[1][1][1], tuple) and v[1][1][1][0] == "ix")

    def counting(self, mem, k, i, n):
        """Condition of a loop that counts through a sequence: ('more', loop, counter local), or None if it is something else."""
        local, op, block, _ = k
        if not self.is_counter(i) or n is None or n[0] != "t" or not isinstance(n[1], tuple) or n[1][0] != "len":
            return None
        if exact(i) is None and i[1][1][1][1] != n[1][1]:
            return None
        v = B(("more", (n[1][1], (self.body.id, block)), local))
        return v if op in ("Lt", "Ne") else self.negate(v)

    def fits(self, v, ty):
        b = BITS.get(ty)
        return b is not None and b[0] <= v[-2] and v[-1] <= b[1]

    def widen(self, a, b, v, ty):
        """Counters in loops saturate."""
        top = BITS[ty][1]
        if exact(b) == 1 and exact(a) == self.SAT:
            return ("i", self.SAT + 1, top)
        if exact(b) == 1 and a is not None and a[0] == "i" and a[2] == top:
            return ("i", min(v[1], self.SAT + 1), top)
        return v

    def negate(self, v):
        if v is None or v[0] == "i":
            return None if v is None else ("i", 1 - v[2], 1 - v[1])
        t = v[1]
        if isinstance(t, tuple) and t[0] == "not":
            return B(t[1])
        return B(("not", t))

    def arith(self, op, a, b, ty):
        if ty in ("f32", "f64"):
            t = ("t", (op, a, b), 0, 2 ** (32 if ty == "f32" else 64) - 1)
            return t if size(t) < self.TERM else None
        if exact(b) == 0 and op in ("Add", "Sub", "BitOr", "BitXor", "Shl", "Shr"):
            return a
        if exact(a) == 0 and op in ("Add", "BitOr", "BitXor"):
            return b
        if exact(b) == 1 and op in ("Mul", "Div"):
            return a
        if ty == "bool":
            if op == "BitXor" and exact(b) == 1:
                return self.negate(a)
            if op == "BitXor" and exact(a) == 1:
                return self.negate(b)
            if op in ("BitAnd", "BitOr"):
                for x, y in ((a, b), (b, a)):
                    e = exact(x)
                    if e is not None:
                        return y if (op == "BitAnd") == bool(e) else I(e)
        if op == "Add" and exact(a) is not None:
            a, b = b, a
        if op in ("Add", "Sub") and exact(b) is not None and isinstance(a[1], tuple) and a[0] == "t" and a[1][0] == "+":
            k = a[1][2] + (exact(b) if op == "Add" else -exact(b))
            x = a[1][1]
            return x if k == 0 else ("t", ("+", x, k)) + self.clamp(x[2] + k, x[3] + k, ty)
        if op in ("Add", "Sub") and exact(b) is not None and a[0] == "t":
            k = exact(b) if op == "Add" else -exact(b)
            t = ("t", ("+", a, k)) + self.clamp(a[2] + k, a[3] + k, ty)
        else:
            t = ("t", (op, a, b)) + BITS.get(ty, (0, 1) if ty == "bool" else (-2 ** 127, 2 ** 127))
        return t if size(t) < self.TERM else None

    def clamp(self, lo, hi, ty):
        b = BITS.get(ty)
        return (lo, hi) if b is None or b[0] <= lo and hi <= b[1] else (b if lo > b[1] or hi < b[0] else (max(lo, b[0]), min(hi, b[1])))

    def equal(self, mem, a, b):
        """Equality of arbitrary values as a condition value."""
        a, b = self.close(mem, a), self.close(mem, b)
        if a is None or b is None:
            return None
        if a == b and not incomplete(a):
            return I(1)
        r = eq(a, b)
        if r is not None:
            return truth(r)
        if a[0] in "it" and b[0] in "it":
            return self.compare(mem, "Eq", a, b)
        if a[0] == "a" and b[0] == "a" and (a[1] == b[1] or {a[1], b[1]} <= {None, "array"}) and len(a[2]) == len(b[2]):
            es = [self.equal(mem, x, y) for x, y in zip(a[2], b[2])]
            open_ = [e for e in es if e is None or exact(e) != 1]
            if any(e is not None and exact(e) == 0 for e in es):
                return I(0)
            return I(1) if not open_ else open_[0] if len(open_) == 1 else None
        if a[0] in "au" and b[0] in "au" or incomplete(a) or incomplete(b):
            return None
        if repr(b) < repr(a):
            a, b = b, a
        return self.known(mem, B(("same", a, b)))

    def close(self, mem, v):
        """Value with references followed (for storing in events and terms)."""
        if v is None:
            return None
        if v[0] == "p":
            return self.close(mem, self.deref(mem, v))
        if v[0] == "a":
            return ("a", v[1], tuple(self.close(mem, x) for x in v[2]))
        if v[0] == "t":
            return self.known(mem, v)
        return v

    def length(self, v):
        if v is None:
            return None
        if v[0] == "sl":
            return ("t", ("len", v[1]), 0, 2 ** 62)
        if v[0] == "a":
            return I(len(v[2]))
        if v[0] == "q" and all(p[0] == "one" for p in v[2]):
            return I(len(v[2]))
        if v[0] == "q":
            n = sum(p[0] == "one" for p in v[2])
            if len(v[2]) == 1 and v[2][0][0] == "each" and all(len(x) == 1 for x in v[2][0][2]):
                return self.length(("sl", v[2][0][1]))
            return ("t", ("len", v), n, 2 ** 62)
        return None

    def read(self, mem, root, path):
        v = root[2] if root[0] == "K" else mem.get(root)
        for i in path:
            if v is not None and v[0] in ("sl", "q", "sm") and isinstance(i, tuple):
                v = self.at(v, i)
                continue
            if v is not None and v[0] == "q" and isinstance(i, int) and i < len(v[2]) and all(p[0] == "one" for p in v[2][:i + 1]):
                v = v[2][i][1]
                continue
            if v is not None and v[0] == "sl" and isinstance(i, int):
                v = self.element(("at", v[1], i))
                continue
            if v is None or v[0] not in ("a", "cl") or not isinstance(i, int) or i >= len(v[2]):
                return None
            v = v[2][i]
        return v

    def at(self, v, i):
        """Element of sequence v at the index named by term i."""
        if v[0] == "sl":
            return self.element(("e", v[1])) if i == ("ix", v[1]) else self.element(("at", v[1], i))
        if v[0] == "q" and len(v[2]) == 1 and v[2][0][0] == "each" and i == ("ix", v[2][0][1]):
            alts = v[2][0][2]
            if len(alts) == 1 and all(len(a) == 1 and a[0][0] == "one" for a in alts):
                return next(iter(alts))[0][1]
        return None

    def element(self, term):
        """Abstract value of a sequence element named by a term; rules override this for typed elements."""
        return term

    def write(self, mem, root, path, val):
        for n in range(len(path)):
            if isinstance(path[n], tuple):
                self.forget(mem, root, path[:n])
                return
        v = self.read(mem, root, path[:-1]) if path else None
        if v is not None and v[0] in ("sl", "q"):
            self.forget(mem, root, path[:-1])
            return
        super().write(mem, root, path, val)

    def forget(self, mem, root, path):
        if root[0] != "K":
            super().write(mem, root, path, None)

    def loc(self, mem, d, p):
        root, path = ("L", d, p["l"]), ()
        for x in p["p"]:
            if x == "*":
                v = self.read(mem, root, path)
                if v is None or v[0] != "p":
                    return None
                root, path = v[1], v[2]
            elif x["k"] == "f":
                path = path + (x["i"],)
            elif x["k"] == "d":
                continue
            elif x["k"] == "ci" and not x["e"]:
                path = path + (x["o"],)
            elif x["k"] == "i":
                v = self.known(mem, mem.get(("L", d, x["l"])))
                if v is None:
                    return None
                if exact(v) is not None:
                    path = path + (exact(v),)
                elif v[0] == "t":
                    path = path + (v[1],)
                else:
                    return None
            else:
                return None
        return root, path

    # ------------------------------------------------------------ control
    def switch(self, stack, d, t, m, ghost):
        v = self.operand(m, d, t["a"])
        if v is None or v[0] != "t":
            return super().switch(stack, d, t, m, ghost)
        ts = [(int(x), b) for x, b in t["ts"]]
        term = v[1]
        out = []
        if isinstance(term, tuple) and term[0] == "discr":
            u = self.find_u(m, term[1])
            if u is not None:
                o = t["a"]
                ty = None
                for name, payload in u[2]:
                    m2, g2 = self.split(m, ghost, u, name)
                    dv = self.discr_of(u, name)
                    to = next((b for x, b in ts if x == dv), t["ow"])
                    if self.prog.bodies[stack[-1][0]].blocks[to]["t"]["k"] == "unreachable":
                        raise Stuck("a value the compiler excludes at %s" % self.prog.bodies[stack[-1][0]].span(stack[-1][1]))
                    out.append(self.to(stack, to, m2, g2))
                return out
        pol, mt = (0, term[1]) if isinstance(term, tuple) and term[0] == "not" else (1, term)
        if isinstance(mt, tuple) and mt[0] == "more":
            name, local = mt[1], mt[2]
            to = lambda x: next((b for y, b in ts if y == x), t["ow"])
            ln = ("t", ("len", name[0]), 0, 2 ** 62)
            started = any(f[0] == name for f in ghost[0])
            l, h = self.fact(m, ln[1], 0, 2 ** 62)
            if started or l == 0:
                m2, g2 = self.advance(m, ghost, name, True)
                if not started:
                    m2 = self.refine(m2, ln, 0, 0)
                else:
                    m2 = dict(m2)
                    m2[("L", d, local)] = ln
                out.append(self.to(stack, to(1 - pol), m2, g2))
            if h > 0:
                m2, g2 = self.advance(m, ghost, name, False)
                m2 = dict(self.refine(m2, ln, 1, 2 ** 62))
                m2[("L", d, local)] = ("t", ("ix", name[0]), 0, 2 ** 62)
                out.append(self.to(stack, to(pol), m2, g2))
            return out
        lo, hi = self.fact(m, term, v[2], v[3])
        rest = (lo, hi)
        for x, b in ts:
            m2 = self.refine(m, v, x, x)
            if m2 is None:
                continue
            out.append(self.to(stack, b, m2, self.learned(m2, ghost, term, x)))
            if rest[0] == x:
                rest = (rest[0] + 1, rest[1])
            elif rest[1] == x:
                rest = (rest[0], rest[1] - 1)
        if rest[0] <= rest[1]:
            m2 = self.refine(m, v, *rest)
            if m2 is not None:
                g2 = self.learned(m2, ghost, term, rest[0]) if rest[0] == rest[1] else emit(ghost, ("isnot", term, tuple(x for x, b in ts)))
                out.append(self.to(stack, t["ow"], m2, g2))
        return out

    DISCR = {"None": 0, "Some": 1, "Ok": 0, "Err": 1, "Continue": 0, "Break": 1, "Less": 255, "Equal": 0, "Greater": 1}

    def discr_of(self, u, name):
        if len(u) > 3 and u[3]:
            ds = self.prog.discr(u[3])
            if ds and name in ds:
                return ds[name]
        x = self.DISCR[name]
        return x if x >= 0 else x + 2 ** 8

    def find_u(self, m, term):
        def f(v):
            if isinstance(v, tuple):
                if v and v[0] == "u" and v[1] == term:
                    return v
                for x in v:
                    r = f(x)
                    if r is not None:
                        return r
            return None
        for k, v in m.items():
            r = f(v)
            if r is not None:
                return r
        return None

    def split(self, m, ghost, u, name):
        """Memory in which the lazily known enum value u has the given variant."""
        payload = dict(u[2])[name]
        new = ("a", name, payload)

        def f(v):
            if isinstance(v, tuple):
                if v == u:
                    return new
                out = tuple(f(x) for x in v)
                return v if out == v else out
            return v
        m2 = {}
        for k, v in m.items():
            m2[f(k) if k[0] == "L" else k] = f(v)
        return m2, (emit(ghost, ("is", u[1], name)) if self.VARIANT_EVENTS else ghost)

    def call(self, body, stack, d, bi, t, m, ghost):
        args = [self.operand(m, d, a) for a in t["args"]]
        c = Call(body, bi)
        if c.names and args and c.names[0].startswith(("core::option::", "core::result::", "core::ops::try_trait::", "core::cmp::")):
            for a in args:
                u = self.deref(m, a)
                if u is not None and u[0] == "u":
                    out = []
                    for name, _ in u[2]:
                        m2, g2 = self.split(m, ghost, u, name)
                        out += self.call(body, stack, d, bi, t, m2, g2)
                    return out
        self.depth = len(stack)
        self.site = (body.id, bi)
        return super().call(body, stack, d, bi, t, m, ghost)

    # ------------------------------------------------------------ loops
    def advance(self, mem, gh, name, done):
        """One more iteration of (or, if done, the end of) the loop `name`=(sequence, site)."""
        fr, u = gh
        k = next((i for i in range(len(fr) - 1, -1, -1) if fr[i][0] == name), None)
        first = k is None
        if not first:
            while len(fr) - 1 > k:          # inner loops left early
                n, s, items = fr[-1]
                pn, ps, pi = fr[-2]
                fr = fr[:-2] + ((pn, ps, pi + (("brk", n[0], s, items),)),)
                mem = self.leave(mem, len(fr), n[0], None)
            n, s, items = fr[-1]
            fr = fr[:-1] + ((n, s | {items}, ()),)
            if not done:
                mem = self.leave(mem, len(fr) - 1, name[0], False)
        if done:
            if first:
                fr = fr + ((name, frozenset(), ()),)
            n, s, _ = fr[-1]
            fr = fr[:-1]
            pn, ps, pi = fr[-1]
            if s:
                fr = fr[:-1] + ((pn, ps, pi + (("loop", name[0], s),)),)
            else:
                fr = fr[:-1] + ((pn, ps, pi + (("loop", name[0], frozenset()),)),)
            mem = self.leave(mem, len(fr), name[0], True)
        elif first:
            if any(f[0] is not None and f[0][0] == name[0] for f in fr):
                raise Stuck("nested loops over the same sequence %s" % (name[0],))
            fr = fr + ((name, frozenset(), ()),)
        return mem, (fr, u)

    def leave(self, mem, depth, name, done):
        """An iteration over `name` ended (done: the loop ended): close collections, drop facts, rename carried elements."""
        out, names = {}, {name, forward(name)}
        for k, v in mem.items():
            if k[0] == "F" and any(mentions(k[1], (w, x)) for x in names for w in ("e", "ix")):
                continue
            v = self.close_iteration(v, depth, name, done)
            if not (k[0] in ("M", "W") and k[1] in names):      # the element mutated in this iteration (see begin_mut)
                v = rename(v, names)
            if v is not None:
                out[k] = v
        return out

    def close_iteration(self, v, depth, name, done):
        if not isinstance(v, tuple):
            return v
        if v and v[0] == "q":
            if v[1] >= depth or done is None and any(p[0] == "open" for p in v[2]):
                return None
            return ("q", v[1], close_parts(v[2], name, done))
        if v and v[0] == "K":
            return v
        out = tuple(self.close_iteration(x, depth, name, done) for x in v)
        return v if out == v else out

    # ------------------------------------------------------------ collections
    def new_coll(self, gh):
        return ("q", len(gh[0]) - 1, ())

    def append(self, v, gh, parts):
        """Collection v after appending parts in the current loops."""
        if v is None:
            return None
        if v[0] == "sl":
            v = ("q", 0, (("each", v[1], frozenset({(("one", self.element(("e", v[1]))),)})),)) if len(gh[0]) == 1 else None
        if v is None or v[0] != "q":
            return None
        loops = [(f[0][0], bool(f[1])) for f in gh[0][1 + v[1]:]]
        return ("q", v[1], add_parts(v[2], loops, tuple(parts)))

    def parts_of(self, mem, v, mode="val"):
        """Segments of a sequence value (for iteration, extend, clone)."""
        if v is None:
            return None
        if v[0] == "sl":
            return (("each", v[1], frozenset({(("one", self.element(("e", v[1]))),)})),)
        if v[0] == "q":
            return None if any(p[0] == "open" for p in v[2]) else v[2]
        if v[0] == "a" and v[1] in (None, "array"):
            return tuple(("one", x) for x in v[2])
        if v[0] == "a" and v[1] in ("Some", "None"):
            return tuple(("one", x) for x in v[2])
        if v[0] == "a" and v[1] in ("Range", "RangeInclusive") and len(v[2]) >= 2:
            lo, hi = v[2][0], v[2][1]
            if exact(lo) == 0 and hi is not None and hi[0] == "t" and v[1] == "Range":
                n = hi[1][1] if isinstance(hi[1], tuple) and hi[1][0] == "len" and not isinstance(hi[1][1], tuple) else hi[1][1] if isinstance(hi[1], tuple) and hi[1][0] == "len" else None
                if n is not None:
                    return (("each", n, frozenset({(("one", ("t", ("ix", n), 0, 2 ** 62)),)})),)
            return None
        return None

    def iterator(self, mem, a, by):
        """Iterator value over the sequence that `a` (a reference or value) denotes; by: ref, mut or val."""
        v = self.deref(mem, a) if a is not None and a[0] == "p" else a
        if v is not None and v[0] == "it":
            return v
        ps = self.parts_of(mem, v)
        if ps is None:
            return None
        src = a if by == "mut" and a is not None and a[0] == "p" else None
        return ("it", ps, by, src, ())

    def next(self, mem, gh, it, site):
        """[(item or END, iterator, mem, ghost)]"""
        out = []
        if it is None or it[0] != "it":
            name = ("?", site)
            for done in (True, False):
                m, g = self.advance(mem, gh, (("?", site), site), done)
                out.append((None if not done else "END", it, m, g))
            return out
        _, ps, by, src, ad = it
        work, seen = [(ps, mem, gh)], set()
        while work:
            ps, m, g = work.pop()
            key = (ps, self.freeze(m), g)
            if key in seen:
                continue
            seen.add(key)
            if not ps:
                out.append(("END", ("it", ps, by, src, ad), m, g))
                continue
            p = ps[0]
            if p[0] == "one":
                for x, m2, g2 in self.adapt(p[1], by, ad, m, g):
                    if x == "SKIP":
                        work.append((ps[1:], m2, g2))
                    else:
                        out.append((x, ("it", ps[1:], by, src, ad), m2, g2))
                continue
            name = (p[1], site)
            ln = ("t", ("len", forward(p[1])), 0, 2 ** 62)
            started = any(f[0] == name for f in g[0])
            l, h = self.fact(m, ln[1], 0, 2 ** 62)
            if started or l == 0:
                m2, g2 = self.advance(m, g, name, True)
                if not started:
                    m2 = self.refine(m2, ln, 0, 0)
                m2 = self.finish_mut(m2, src, p)
                work.append((ps[1:], m2, g2))
            if h > 0:
                m2, g2 = self.advance(m, g, name, False)
                m2 = self.refine(m2, ln, 1, 2 ** 62)
                for alt in p[2]:
                    if not alt:
                        work.append((ps, m2, g2))
                        continue
                    if len(alt) > 1 or alt[0][0] != "one":
                        raise Stuck("iteration over a nested collection at %s" % (site,))
                    item, m3 = self.begin_mut(m2, src, p, alt[0][1])
                    for x, m4, g4 in self.adapt(item, "val" if src is not None else by, ad, m3, g2):
                        if x == "SKIP":
                            work.append((ps, m4, g4))
                        else:
                            out.append((x, ("it", ps, by, src, ad), m4, g4))
        return out

    def begin_mut(self, m, src, p, item):
        if src is None:
            return item, m
        m = dict(m)
        cell = ("M", p[1])
        prev = m.get(cell)
        if prev is not None:
            m[("W", p[1])] = self.join_w(m.get(("W", p[1])), prev)
        m[cell] = item
        return ("p", cell, ()), m

    def join_w(self, old, new):
        return new if old is None or old == new else ("?",)

    def finish_mut(self, m, src, p):
        if src is None:
            return m
        m = dict(m)
        prev = m.pop(("M", p[1]), None)
        w = m.pop(("W", p[1]), None)
        if prev is not None:
            w = self.join_w(w, prev)
        if w is not None:
            v = self.deref(m, src)
            new = None
            if w != ("?",):
                new = ("sl", p[1]) if w == self.element(("e", p[1])) else ("q", 0, (("each", p[1], frozenset({(("one", w),)})),))
                if v is not None and v[0] == "q" and len(v[2]) == 1:
                    new = (new[0], v[1], new[2]) if new[0] == "q" else new
                elif v is None or v[0] != "sl":
                    new = None
            self.write(m, src[1], src[2], new)
        return m

    def adapt(self, item, by, ad, mem, gh):
        """[(item or SKIP, mem, ghost)] after wrapping by reference and running adapters."""
        if by in ("ref", "mut"):
            item = REF(item)
        outs = [(item, mem, gh)]
        for kind, f in ad:
            nxt = []
            for x, m, g in outs:
                if x == "SKIP":
                    nxt.append((x, m, g))
                elif kind == "deref":
                    nxt.append((self.deref(m, x), m, g))
                elif kind == "map":
                    nxt += self.invoke(f, [x], m, g)
                elif kind == "inspect":
                    nxt += [(x, m2, g2) for _, m2, g2 in self.invoke(f, [REF(x)], m, g)]
                elif kind == "filter":
                    for v, m2, g2 in self.invoke(f, [REF(x)], m, g):
                        for b, m3, g3 in self.branch(v, m2, g2):
                            nxt.append((x if b else "SKIP", m3, g3))
                elif kind in ("filter_map", "flat_map"):
                    for v, m2, g2 in self.invoke(f, [x], m, g):
                        for v, m2, g2 in self.variants(v, m2, g2):
                            if v is not None and v[0] == "a" and v[1] == "Some":
                                nxt.append((v[2][0], m2, g2))
                            elif v is not None and v[0] == "a" and v[1] == "None":
                                nxt.append(("SKIP", m2, g2))
                            else:
                                raise Stuck("flat_map over collections")
                else:
                    nxt.append((None, m, g))
            outs = nxt
        return outs

    def variants(self, v, mem, gh):
        if v is not None and v[0] == "u":
            out = []
            for name, payload in v[2]:
                m, g = self.split(mem, gh, v, name)
                out.append((("a", name, payload), m, g))
            return out
        return [(v, mem, gh)]

    def invoke(self, f, args, mem, gh):
        """Call a closure or function value: [(value, mem, ghost)]; panics are recorded."""
        fv = f
        fv = self.deref(mem, f) if f is not None and f[0] == "p" else f
        body, m = None, dict(mem)
        if fv is not None and fv[0] == "cl":
            body = self.prog.bodies.get(fv[1])
            if body is not None:
                me = self.nearest(mem, f) if f[0] == "p" else fv
                if f[0] != "p" and body.loc_type(1).startswith("&"):
                    root = ("C", self.depth, fv[1])
                    m[root] = fv
                    me = ("p", root, ())
                args = [me] + args
        elif fv is not None and fv[0] == "fn":
            body = self.prog.bodies.get(fv[1])
        if body is None or self.opaque(body) or self.depth > self.max_depth:
            r = self.call_unknown_fn(fv, args, m, gh)
            return r if r is not None else [(None, m, gh)]
        d0, s0 = self.depth, self.site
        res = self.run(body, args, m, gh, depth=d0)
        self.depth, self.site = d0, s0
        out = []
        for kind, v, objs, g in res:
            if kind == "panic":
                self.panics(v, dict(objs), g)
                continue
            out.append((v, dict(objs), g))
        return out

    def call_unknown_fn(self, f, args, mem, gh):
        return None

    def panics(self, where, mem, gh):
        """A closure run by a library function panicked."""

    # ------------------------------------------------------------ std model
    def base_hook(self, ip, c, args, mem, gh):
        if self.user_hook is not None:
            r = self.user_hook(self, c, args, mem, gh)
            if r is not None:
                return r
        return self.std(c, args, mem, gh)

    def std(self, c, args, mem, gh):
        if not c.names:
            return None
        n = c.names[0]
        ln = last(n)
        R = lambda v: [(v, mem, gh)]
        a0 = self.deref(mem, args[0]) if args else None
        if n.startswith("partial_ref::"):
            if ln in ("part", "part_mut"):
                return R(("p", ("o", base_type(c.ret_ty)), ()))
            if ln in ("split_part", "split_part_mut"):
                t = split_top(c.ret_ty[1:-1])[0]
                return R(("a", None, (("p", ("o", base_type(t)), ()), ("ctx",))))
            if ln == "split_borrow":
                return R(("a", None, (("ctx",), ("ctx",))))
            return R(("ctx",))
        if ln == "next" and n.endswith("Iterator::next") and args[0] is not None and args[0][0] == "p":
            it = a0
            if it is not None and it[0] == "a" and it[1] == "Range":
                if all(exact(x) is not None for x in it[2]):
                    return None
                it = self.iterator(mem, it, "val")
            out = []
            if it is not None and it[0] not in ("it",):
                if c.target_id in self.prog.bodies and not self.opaque(self.prog.bodies[c.target_id]):
                    return None
                it = None
            for x, it2, m, g in self.next(mem, gh, it, self.site):
                m = dict(m)
                self.write(m, args[0][1], args[0][2], it2)
                out.append((NONE if x == "END" else SOME(x), m, g))
            return out
        if n == "core::iter::traits::collect::IntoIterator::into_iter":
            ty = c.arg_types()[0]
            if a0 is not None and a0[0] == "it":
                return R(args[0])
            if a0 is not None and a0[0] == "a" and a0[1] == "Range" and all(exact(x) is not None for x in a0[2]):
                return R(args[0])
            by = "mut" if ty.startswith("&mut") or ty.startswith("&'_ mut") else "ref" if ty.startswith("&") else "val"
            if a0 is not None and a0[0] in ("sl", "q", "a"):
                it = self.iterator(mem, args[0], by)
                return R(it) if it is not None or a0[0] != "a" else None
            return None
        if ln in ("iter", "iter_mut", "drain", "into_iter") and a0 is not None and a0[0] in ("sl", "q", "a") and (n.startswith(("core::", "alloc::", "smallvec::", "hashbrown::", "std::"))):
            by = {"iter": "ref", "iter_mut": "mut"}.get(ln, "val")
            if ln == "drain":
                m = dict(mem)
                it = self.iterator(mem, args[0], "val")
                self.write(m, args[0][1], args[0][2], self.new_coll(gh))
                return [(it, m, gh)]
            if a0[0] == "a" and a0[1] in ("Some", "None") and ln == "iter":
                return R(self.iterator(mem, args[0], "ref"))
            return R(self.iterator(mem, args[0], by))
        if n.startswith("core::iter::traits::iterator::Iterator::") or n.startswith("core::iter::traits::double_ended::"):
            r = self.iter_method(c, ln, args, mem, gh)
            if r is not None:
                return r
        if n in ("core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::extend_from_slice", "alloc::vec::Vec::append") and args[0] is not None and args[0][0] == "p":
            src = args[1]
            it = src if src is not None and src[0] == "it" else self.iterator(mem, src, "val")
            if it is None:
                self.unknown.add(("extend", self.site))
            return self.drive(mem, gh, it, self.site, lambda x, m, g: self.push_item(args[0], x, m, g), lambda m, g: (UNIT, m, g))
        if ln in ("push", "push_back") and len(args) == 2 and args[0] is not None and args[0][0] == "p" and n.startswith(("alloc::", "smallvec::")):
            return [(UNIT,) + x[1:] for x in self.push_item(args[0], args[1], mem, gh)]
        if ln == "clear" and len(args) == 1 and args[0] is not None and args[0][0] == "p" and n.startswith(("alloc::", "smallvec::")):
            m = dict(mem)
            self.write(m, args[0][1], args[0][2], self.new_coll(gh))
            return [(UNIT, m, gh)]
        if n in ("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "smallvec::SmallVec::new") or (ln == "default" and n.endswith("Default::default") and base_type(c.ret_ty) in ("alloc::vec::Vec", "smallvec::SmallVec")):
            return R(self.new_coll(gh))
        if n == "core::mem::take" and base_type(c.ret_ty) in ("alloc::vec::Vec", "smallvec::SmallVec") and args[0] is not None and args[0][0] == "p":
            m = dict(mem)
            self.write(m, args[0][1], args[0][2], self.new_coll(gh))
            return [(a0, m, gh)]
        if n in ("alloc::slice::impl::into_vec", "alloc::boxed::box_assume_init_into_vec_unsafe"):
            ps = self.parts_of(mem, a0)
            return R(None if ps is None else ("q", len(gh[0]) - 1, ps))
        if n in ("core::slice::raw::from_ref", "core::array::from_ref", "core::option::Option::as_slice") and args[0] is not None:
            return R(REF(("a", "array" if n[-4:] == "_ref" else "Some", (a0,)) if n[-4:] == "_ref" else a0))
        if ln == "from_elem":
            return R(self.new_coll(gh) if exact(args[1]) == 0 else None)
        if n in ("alloc::slice::impl::to_vec", "alloc::borrow::ToOwned::to_owned", "core::clone::Clone::clone"):
            return R(a0)
        if ln in ("len", "is_empty") and a0 is not None and (a0[0] in ("sl", "q") or a0[0] == "a" and a0[1] in (None, "array")) and len(args) == 1 and n.startswith(("core::slice::", "alloc::vec::", "smallvec::", "core::array::")):
            l = self.length(a0)
            if l is None:
                return R(None)
            l = self.known(mem, l)
            return R(l if ln == "len" else truth(exact(l) == 0) if exact(l) is not None else self.compare(mem, "Eq", l, I(0)))
        if n in ("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut") and len(args) == 2 and args[0] is not None and args[0][0] == "p":
            ix = args[1]
            if ix is not None and ix[0] == "a" and ix[1] == "RangeFull":
                return R(args[0])
            if a0 is not None and a0[0] in ("sl", "q", "a") and ix is not None:
                i = exact(ix)
                if i is not None:
                    return R(("p", args[0][1], args[0][2] + (i,)))
                if ix[0] == "t":
                    return R(("p", args[0][1], args[0][2] + (ix[1],)))
            return None
        if n in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne") and len(args) == 2:
            if c.target_id in self.prog.bodies and "trait_decl" not in self.prog.bodies[c.target_id].raw and not self.derived(c):
                return None
            v = self.equal(mem, args[0], args[1])
            if v is None:
                x, y = self.close(mem, args[0]), self.close(mem, args[1])
                if x is not None and y is not None and x[0] == y[0] == "a" and {x[1], y[1]} <= {None, "array"} and len(x[2]) == len(y[2]) and not incomplete(x) and not incomplete(y):
                    out, live = [], [(mem, gh)]      # element by element
                    for p, q in zip(x[2], y[2]):
                        nxt = []
                        for m2, g2 in live:
                            e = self.equal(m2, p, q)
                            if e is None:
                                return None
                            for b, m3, g3 in self.branch(e, m2, g2):
                                if b:
                                    nxt.append((m3, g3))
                                else:
                                    out.append((I(ln == "ne"), m3, g3))
                        live = nxt
                    return out + [(I(ln == "eq"), m2, g2) for m2, g2 in live]
            return R(v if ln == "eq" or v is None else self.negate(v))
        if n.startswith("core::cmp::PartialOrd::") and len(args) == 2:
            D = [self.deref(mem, a) for a in args]
            if all(x is not None and x[0] in "it" for x in D):
                return R(self.compare(mem, {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}.get(ln, "?"), D[0], D[1])) if ln in ("lt", "le", "gt", "ge") else None
        if n in OPERATORS and len(args) == 2 and c.target_id not in self.prog.bodies:
            D = [self.deref(mem, a) for a in args]
            ty = c.arg_types()[0].lstrip("&").replace("'_ ", "").strip()
            if ty in BITS and all(x is not None and x[0] in "it" for x in D) and any(x[0] == "t" for x in D):
                return R(self.arith(OPERATORS[n], D[0], D[1], ty))
        if n == "core::ops::bit::Not::not" and a0 is not None and a0[0] in "it" and c.ret_ty == "bool":
            return R(self.negate(a0))
        if n.startswith(("core::option::Option::", "core::result::Result::")) and a0 is not None and a0[0] == "a":
            return self.opt_method(c, ln, a0, args, mem, gh)
        if n == "core::ops::try_trait::FromResidual::from_residual" and a0 is not None and a0[0] == "a" and a0[1] == "Err":
            return R(("a", "Err", (a0[2][0],)))
        if n == "core::ops::try_trait::Try::branch" and a0 is not None and a0[0] == "a" and a0[1] == "Err":
            return R(("a", "Break", (a0,)))
        if ln in ("split_first",) and a0 is not None and a0[0] == "sl":
            return None
        return None

    def derived(self, c):
        b = self.prog.bodies.get(c.target_id)
        return b is not None and bool(b.raw.get("derived") or b.raw.get("auto"))

    def opt_method(self, c, ln, a0, args, mem, gh):
        some, none = a0[1] in ("Some", "Ok"), a0[1] in ("None", "Err")
        R = lambda v: [(v, mem, gh)]
        isopt = a0[1] in ("Some", "None")
        wrap = SOME if isopt else OK
        x = a0[2][0] if a0[2] else None
        if ln in ("as_ref", "as_mut", "as_deref", "as_deref_mut"):
            if not a0[2]:
                return R(a0)
            if args[0][0] == "p" and args[0][1][0] != "K":
                return R(("a", a0[1], (("p", args[0][1], args[0][2] + (0,)),)))
            return R(("a", a0[1], (REF(x),)))
        if ln in ("map", "and_then", "map_or", "map_or_else", "is_some_and", "is_ok_and") and len(args) >= 2:
            f = args[-1]
            if some:
                outs = self.invoke(f, [x], mem, gh)
                return [((wrap(v) if ln == "map" else v), m, g) for v, m, g in outs]
            if ln in ("map", "and_then"):
                return R(a0)
            if ln == "map_or":
                return R(args[1])
            if ln == "map_or_else":
                return self.invoke(args[1], [] if isopt else [x], mem, gh)
            return R(I(0))
        if ln in ("or_else", "unwrap_or_else") and len(args) == 2:
            if some:
                return R(a0 if ln == "or_else" else x)
            return self.invoke(args[1], [] if isopt else [x], mem, gh)
        if ln == "map_err" and len(args) == 2:
            if some:
                return R(a0)
            return [(("a", "Err", (v,)), m, g) for v, m, g in self.invoke(args[1], [x], mem, gh)]
        if ln == "ok_or":
            return R(OK(x) if some else ("a", "Err", (args[1],)))
        if ln == "ok_or_else":
            return R(OK(x)) if some else [(("a", "Err", (v,)), m, g) for v, m, g in self.invoke(args[1], [], mem, gh)]
        if ln in ("ok",):
            return R(SOME(x) if some else NONE)
        if ln in ("unwrap_or",):
            return R(x if some else args[1])
        if ln in ("or",):
            return R(a0 if some else args[1])
        if ln in ("copied", "cloned"):
            return R(("a", a0[1], (self.deref(mem, x),)) if a0[2] else a0)
        if ln == "unwrap_or_default" and some:
            return R(x)
        if ln == "filter" and len(args) == 2:
            if none:
                return R(a0)
            out = []
            for v, m, g in self.invoke(args[1], [REF(x)], mem, gh):
                out += [(a0 if b else NONE, m2, g2) for b, m2, g2 in self.branch(v, m, g)]
            return out
        if ln in ("unwrap", "expect") and none:
            return []
        return None

    def push_item(self, target, x, mem, gh):
        m = dict(mem)
        v = self.deref(m, target)
        new = self.append(v, gh, (("one", self.close(m, x)),))
        self.write(m, target[1], target[2], new)
        return [(UNIT, m, gh)]

    def drive(self, mem, gh, it, site, each, end):
        """Run an iterator to completion: each(x, m, g) -> [(ctl, m, g)], where ctl is UNIT to go on or ('stop', value)."""
        out, seen, work = [], set(), [(it, mem, gh)]
        while work:
            it, m, g = work.pop()
            key = (it, self.freeze(m), g)
            if key in seen:
                continue
            seen.add(key)
            for x, it2, m2, g2 in self.next(m, g, it, site):
                cur = it2
                if x == "END":
                    out.append(end(m2, g2))
                    continue
                for ctl, m3, g3 in each(x, m2, g2):
                    if ctl is not None and ctl[0] == "stop":
                        out.append((ctl[1], m3, g3))
                    else:
                        work.append((cur, m3, g3))
        return out

    ADAPT = {"map": "map", "filter": "filter", "filter_map": "filter_map", "flat_map": "flat_map", "inspect": "inspect", "copied": "deref", "cloned": "deref"}

    def iter_method(self, c, ln, args, mem, gh):
        v = self.deref(mem, args[0])
        if v is not None and v[0] == "a" and v[1] == "Range":
            v = self.iterator(mem, v, "val")
        if v is None or v[0] != "it":
            if ln in ("map", "filter", "filter_map", "flat_map", "copied", "cloned", "rev", "enumerate", "zip", "chain", "take", "skip", "skip_while", "take_while", "peekable", "inspect", "by_ref", "step_by", "flatten"):
                return [(None, mem, gh)]
            if ln not in ("any", "all", "for_each", "collect", "find", "position", "count"):
                return None
            v = None
        R = lambda x: [(x, mem, gh)]
        if ln in self.ADAPT:
            return R(("it", v[1], v[2], v[3], v[4] + ((self.ADAPT[ln], args[1] if len(args) > 1 else None),)))
        if ln == "by_ref":
            return R(args[0])
        if ln == "rev":
            ps = tuple(p if p[0] == "one" else ("each", ("rev", p[1]), p[2]) for p in reversed(v[1]))
            return R(("it", ps, v[2], v[3], v[4]) if all(a[0] in ("deref", "map", "filter") for a in v[4]) else None)
        if ln == "chain" and args[1] is not None:
            b = args[1] if args[1][0] == "it" else self.iterator(mem, args[1], "val")
            if b is not None and b[2] == v[2] and not v[4] and not b[4] and v[3] is None:
                return R(("it", v[1] + b[1], v[2], None, ()))
            return R(None)
        if ln in ("any", "all"):
            want = ln == "any"

            def each(x, m, g):
                out = []
                for r, m2, g2 in self.invoke(args[1], [x], m, g):
                    for b, m3, g3 in self.branch(r, m2, g2):
                        out.append((("stop", truth(want)) if b == want else UNIT, m3, g3))
                return out
            return self.drive(mem, gh, v, self.site, each, lambda m, g: (truth(not want), m, g))
        if ln == "for_each":
            return self.drive(mem, gh, v, self.site, lambda x, m, g: [(UNIT, m2, g2) for _, m2, g2 in self.invoke(args[1], [x], m, g)], lambda m, g: (UNIT, m, g))
        if ln in ("try_for_each",):
            def each(x, m, g):
                out = []
                for r, m2, g2 in self.invoke(args[1], [x], m, g):
                    for r, m2, g2 in self.variants(r, m2, g2):
                        if r is None or r[0] != "a":
                            out.append((("stop", None), m2, g2))
                            out.append((UNIT, m2, g2))
                        elif r[1] in ("Err", "None", "Break"):
                            out.append((("stop", r), m2, g2))
                        else:
                            out.append((UNIT, m2, g2))
                return out
            return self.drive(mem, gh, v, self.site, each, lambda m, g: (OK() if "Result" in c.ret_ty else SOME(UNIT), m, g))
        if ln in ("find", "position", "find_map"):
            def each(x, m, g):
                out = []
                for r, m2, g2 in self.invoke(args[1], [REF(x) if ln == "find" else x], m, g):
                    if ln == "find_map":
                        for r, m2, g2 in self.variants(r, m2, g2):
                            out.append((("stop", r) if r is not None and r[0] == "a" and r[1] == "Some" else UNIT, m2, g2))
                        continue
                    for b, m3, g3 in self.branch(r, m2, g2):
                        out.append((("stop", SOME(x if ln == "find" else None)) if b else UNIT, m3, g3))
                return out
            return self.drive(mem, gh, v, self.site, each, lambda m, g: (NONE, m, g))
        if ln == "collect" and base_type(c.ret_ty) in ("alloc::vec::Vec", "smallvec::SmallVec"):
            root = ("V", self.site)
            m0 = dict(mem)
            m0[root] = self.new_coll(gh)

            def end(m, g):
                m = dict(m)
                x = m.pop(root, None)
                return (x, m, g)
            return self.drive(m0, gh, v, self.site, lambda x, m, g: self.push_item(("p", root, ()), x, m, g), end)
        if ln in ("enumerate",):
            if len(v[1]) == 1 and v[1][0][0] == "each" and not v[4] and v[3] is None:
                p = v[1][0]
                alts = frozenset(tuple(("one", ("a", None, (("t", ("ix", p[1]), 0, 2 ** 62), REF(x[1]) if v[2] == "ref" else x[1]))) for x in alt) for alt in p[2])
                return R(("it", (("each", p[1], alts),), "val", None, ()))
            return R(None)
        if ln in ("zip", "take", "skip", "skip_while", "take_while", "step_by", "flatten", "peekable"):
            return R(None)
        return None


def incomplete(v):
    return v is None or v[0] in ("a", "cl") and any(incomplete(x) for x in v[2])


def add_parts(parts, loops, new):
    if not loops:
        return parts + new
    n, earlier = loops[0]
    if parts and parts[-1][0] == "open" and parts[-1][1] == n:
        p = parts[-1]
        return parts[:-1] + (("open", n, p[2], add_parts(p[3], loops[1:], new)),)
    return parts + (("open", n, frozenset({()}) if earlier else frozenset(), add_parts((), loops[1:], new)),)


def close_parts(parts, name, done):
    """The current iteration over `name` (or, if done, the loop) ended."""
    out = []
    for p in parts:
        if p[0] == "open" and p[1] == name:
            alts = p[2] | {close_all(p[3])}
            out.append(("each", name, alts) if done is not False else ("open", name, alts, ()))
        elif p[0] == "open":
            out.append(("open", p[1], p[2], close_parts(p[3], name, done)))
        else:
            out.append(p)
    return tuple(out)


def close_all(parts):
    return tuple(p if p[0] != "open" else ("each", p[1], p[2] | {close_all(p[3])}) for p in parts)
