"""Abstract interpretation of MIR over intervals, enum variants and collection emptiness.

Used where a property is about a finite control automaton (byte classes, flags): the transfer function is applied to
abstract states until a fixpoint, unknown conditions fork.  Values:
  None            anything
  ('i',lo,hi)     integer, bool or char in [lo,hi]
  ('y',name,k)    an unknown integer plus k
  ('t',term,lo,hi) the integer named by an uninterpreted term, in [lo,hi]
  ('a',variant,vals)  struct, tuple or enum value of a known variant
  ('p',root,path) reference to a part of an object
  ('b',bits)      integer given bit by bit (least significant first): 0, 1, a name, or None for unknown
  ('v',n)         collection with n elements: 0, 1 (at least one) or None
  ('cl',id,vals)  closure      ('fn',id)   function      ('s',text)   string literal
"""
import struct as _struct
import re
from collections import deque
from .ir import Call, strip_generics, base_type, last, split_top

INT = re.compile(r"^(u|i)(8|16|32|64|128|size)$|^bool$|^char$")
IDENT = {"core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::borrow::Borrow::borrow", "core::convert::AsRef::as_ref",
         "core::convert::AsMut::as_mut", "core::convert::identity", "core::hint::must_use", "core::convert::Into::into", "core::convert::From::from",
         "alloc::vec::Vec::as_slice", "alloc::vec::Vec::as_mut_slice"}


def I(a, b=None):
    return ("i", a, a if b is None else b)


def exact(v):
    return v[1] if v is not None and v[0] == "i" and v[1] == v[2] else None


def truth(b):
    return I(1 if b else 0)


class Stuck(Exception):
    pass


class Interp:
    LIMIT = 3000000
    VISITS = 5000       # states per program point in a loop before values that the loop changes are given up

    def __init__(self, prog, hook, opaque=lambda body: False, max_depth=10):
        self.prog, self.hook, self.opaque, self.max_depth = prog, hook, opaque, max_depth
        self.steps = 0
        self.consts = {}
        self.base = 0
        self.bodies = set()

    # ------------------------------------------------------------ memory
    def read(self, mem, root, path):
        v = root[2] if root[0] == "K" else mem.get(root)
        for i in path:
            if v is None or v[0] not in ("a", "cl") or i >= len(v[2]):
                return None
            v = v[2][i]
        return v

    def write(self, mem, root, path, val):
        def upd(v, p):
            if not p:
                return val
            if v is None or v[0] not in ("a", "cl") or p[0] >= len(v[2]):
                return None
            fs = list(v[2])
            fs[p[0]] = upd(fs[p[0]], p[1:])
            return (v[0], v[1], tuple(fs))
        mem[root] = upd(mem.get(root), tuple(path))

    def loc(self, mem, d, p):
        """(root, path) of a place or None if unknown."""
        root, path = ("L", d, p["l"]), ()
        for x in p["p"]:
            if x == "*":
                v = self.read(mem, root, path)
                if v is None or v[0] != "p":
                    return None
                root, path = v[1], v[2]
            elif x["k"] == "f":
                path = path + (x["i"],)
            elif x["k"] == "d":
                continue
            elif x["k"] == "ci" and not x["e"]:
                path = path + (x["o"],)
            elif x["k"] == "i":
                n = exact(mem.get(("L", d, x["l"])))
                if n is None:
                    return None
                path = path + (n,)
            else:
                return None
        return root, path

    def place(self, mem, d, p):
        l = self.loc(mem, d, p)
        return None if l is None else self.read(mem, *l)

    def operand(self, mem, d, o):
        if o["k"] in ("copy", "move"):
            return self.place(mem, d, o["p"])
        if o["k"] == "const":
            if "fn" in o:
                return ("fn", o["fn"].get("rid") or o["fn"]["id"])
            if "v" in o and re.match(r"-?\d+$", str(o["v"])):
                return I(int(o["v"]))
            if "s" in o:
                return ("s", o["s"])
            if "promoted" in o:
                return self.promoted(o["promoted"])
            if o["t"] == "&str" and o.get("dbg", "")[:1] == '"':
                v = bytes_literal(o["dbg"])
                return None if v is None else ("s", bytes(v).decode())
            m = re.match(r'b(".*")$', o.get("dbg", ""), re.S)
            if m and o["t"].startswith("&[u8; "):
                v = bytes_literal(m.group(1))
                if v is not None:
                    return ("p", ("K", "bytes", ("a", None, tuple(I(x) for x in v))), ())
        return None

    def promoted(self, pid):
        """Value of a promoted constant (a reference to immutable data)."""
        if pid not in self.consts:
            self.consts[pid] = None
            pb = self.prog.bodies.get(pid)
            if pb is not None and len(pb.blocks) == 1:
                m = {}
                for s in pb.blocks[0]["st"]:
                    if s["k"] == "=":
                        self.store(m, 0, s["d"], self.rvalue(m, 0, s["r"]))

                def close(v, top=()):
                    if v is None:
                        return None
                    if v[0] == "p" and v[1][0] == "L":
                        return ("p", ("K", pid + "".join(".%s" % x for x in v[2]), close(self.read(m, v[1], v[2]))), ())
                    if v[0] in ("a", "cl"):
                        return (v[0], v[1], tuple(close(x) for x in v[2]))
                    return v
                self.consts[pid] = close(m.get(("L", 0, 0)))
        return self.consts[pid]

    def deref(self, mem, v):
        while v is not None and v[0] == "p":
            v = self.read(mem, v[1], v[2])
        return v

    # ------------------------------------------------------------ values
    def nearest(self, mem, v):
        """The last pointer of a chain of pointers: the one to the object itself."""
        while v is not None and v[0] == "p":
            w = self.read(mem, v[1], v[2])
            if w is None or w[0] != "p":
                break
            v = w
        return v

    def rvalue(self, mem, d, r):
        k = r["k"]
        if k == "use":
            return self.operand(mem, d, r["a"])
        if k in ("ref", "rawptr"):
            l = self.loc(mem, d, r["p"])
            if l is None and r["p"]["p"] and r["p"]["p"][-1] == "*":       # reborrow of a value that stands for a reference
                v = self.place(mem, d, {"l": r["p"]["l"], "p": r["p"]["p"][:-1], "t": ""})
                return v if v is not None and v[0] not in ("p", "i", "a") else None
            return None if l is None else ("p",) + l
        if k == "cast":
            v = self.operand(mem, d, r["a"])
            if v is not None and v[0] == "b" and r["c"].startswith("IntToInt"):
                w = width(r["t"])
                return None if w is None or r["t"].startswith("i") else norm_bits((v[1] + (0,) * w)[:w])
            if v is not None and r["c"].startswith("Transmute"):
                return transmute(v, r["a"]["p"]["t"] if "p" in r["a"] else r["a"].get("t"), r["t"])
            if v is not None and v[0] in "it":
                return v if fits(v, r["t"]) else None
            return v
        if k == "bin":
            a, b = self.operand(mem, d, r["a"]), self.operand(mem, d, r["b"])
            v = binop(r["op"], a, b, r["a"].get("t") or (r["a"]["p"]["t"] if "p" in r["a"] else ""))
            if r["op"].endswith("WithOverflow"):
                return ("a", None, (v, None if v is None or v[0] != "i" else I(0)))
            return v
        if k == "un":
            v = self.operand(mem, d, r["a"])
            if r["op"] == "PtrMetadata":
                return self.length(self.deref(mem, v))
            if v is not None and v[0] == "i":
                if r["op"] == "Neg":
                    return ("i", -v[2], -v[1])
                t = r["a"]["p"]["t"] if "p" in r["a"] else r["a"].get("t")
                if r["op"] == "Not" and t == "bool":
                    return ("i", 1 - v[2], 1 - v[1])
                if r["op"] == "Not" and exact(v) is not None and width(t) and t.startswith("u"):
                    return I((1 << width(t)) - 1 - exact(v))
            return None
        if k == "discr":
            v = self.place(mem, d, r["p"])
            if v is not None and v[0] == "a":
                ds = self.prog.discr(base_type(r["p"]["t"]))
                if ds and v[1] in ds:
                    return I(ds[v[1]])
            return None
        if k == "agg":
            ops = tuple(self.operand(mem, d, o) for o in r["ops"])
            if "adt" in r:
                return ("a", r["variant"], ops)
            if "closure" in r:
                return ("cl", r["closure"], ops)
            return ("a", None, ops)
        return None

    def length(self, v):
        """Length of a slice value."""
        return None

    def store(self, mem, d, p, v):
        l = self.loc(mem, d, p)
        if l is not None:
            self.write(mem, l[0], l[1], v)

    # ------------------------------------------------------------ exploration
    def run(self, body, args, mem, ghost, seen=None, depth=0):
        """All outcomes (kind, value, memory of non-local objects, ghost) of calling `body`; kind is 'ret' or 'panic'.
        With a shared `seen` set, only outcomes not produced by an earlier run."""
        m = dict(mem)
        for i, a in enumerate(args):
            m[("L", depth, i + 1)] = a
        start = (((None, 0, None),) * depth + ((body.id, 0, None),), self.freeze(m), ghost)
        seen = set() if seen is None else seen
        if start in seen:
            return set()
        seen.add(start)
        work, out = deque([start]), set()
        base, self.base = self.base, depth
        visits = {}
        while work:
            st = work.popleft()
            for nx in self.step(st):
                if nx[0] == "out":
                    out.add(nx[1:])
                    continue
                if nx in seen:
                    continue
                at = tuple(f[:2] for f in nx[0])
                visits[at] = visits.get(at, 0) + 1
                if visits[at] > self.VISITS:
                    nx = self.coarsen(nx)
                    if nx in seen:
                        continue
                    if visits[at] > 2 * self.VISITS:
                        raise Stuck("too many states at %s" % self.prog.bodies[at[-1][0]].span(at[-1][1]))
                seen.add(nx)
                work.append(nx)
            if len(seen) > self.LIMIT:
                raise Stuck("abstract state space of %s too large" % body.path)
        self.base = base
        return out

    def coarsen(self, st):
        """Forget what the loops around the current program point change in the current frame."""
        stack, fm, ghost = st
        bid, bi, _ = stack[-1]
        d = len(stack) - 1
        body = self.prog.bodies[bid]
        if body.sccs()[bi] is None:
            return st
        ch = body.loop_locals(bi)
        return (stack, frozenset((k, v) for k, v in fm if k[0] != "L" or k[1] != d or k[2] not in ch or v[0] not in "iytb"), ghost)

    def freeze(self, m):
        return frozenset((k, v) for k, v in m.items() if v is not None)

    def to(self, stack, bi, m, ghost):
        body = self.prog.bodies[stack[-1][0]]
        d = len(stack) - 1
        live = body.live_in()[bi]
        m = keep(m, lambda k: k[0] != "L" or k[1] < d or k[1] == d and k[2] in live, body.borrowed(), d)
        return (stack[:-1] + ((stack[-1][0], bi, stack[-1][2]),), self.freeze(m), ghost)

    def step(self, st):
        self.steps += 1
        stack, fm, ghost = st
        bid, bi, _ = stack[-1]
        body = self.prog.bodies[bid]
        self.bodies.add(bid)
        d = len(stack) - 1
        m = dict(fm)
        blk = body.blocks[bi]
        for s in blk["st"]:
            if s["k"] == "=":
                self.store(m, d, s["d"], self.rvalue(m, d, s["r"]))
            elif s["k"] == "sd":
                l = self.loc(m, d, s["d"])
                if l:
                    self.write(m, l[0], l[1], None)
        t = blk["t"]
        k = t["k"]
        if k in ("goto", "drop"):
            return [self.to(stack, t["to"], m, ghost)]
        if k == "assert":
            v = exact(self.operand(m, d, t["a"]))
            if v is not None and bool(v) != bool(t["e"]):
                return [("out", "panic", body.span(bi), self.objects(m), ghost)]
            return [self.to(stack, t["to"], m, ghost)]
        if k == "switch":
            return self.switch(stack, d, t, m, ghost)
        if k == "return":
            return self.ret(stack, d, m, ghost)
        if k == "call":
            return self.call(body, stack, d, bi, t, m, ghost)
        if k == "unreachable":
            return []
        return [("out", "panic", body.span(bi), self.objects(m), ghost)]

    def objects(self, m):
        return frozenset((k, v) for k, v in m.items() if (k[0] != "L" or k[1] < self.base) and v is not None)

    def ret(self, stack, d, m, ghost):
        v = m.get(("L", d, 0))
        m = {k: x for k, x in m.items() if k[0] != "L" or k[1] < d}
        if d == self.base:
            return [("out", "ret", v, self.objects(m), ghost)]
        dest, to = stack[-1][2]
        self.store(m, d - 1, dest_place(dest), v)
        return [self.to(stack[:-1], to, m, ghost)]

    def switch(self, stack, d, t, m, ghost):
        v = self.operand(m, d, t["a"])
        ts = [(int(x), b) for x, b in t["ts"]]
        e = exact(v)
        if e is not None:
            to = next((b for x, b in ts if x == e), t["ow"])
            if self.prog.bodies[stack[-1][0]].blocks[to]["t"]["k"] == "unreachable":
                raise Stuck("a value the compiler excludes at %s" % self.prog.bodies[stack[-1][0]].span(stack[-1][1]))
            return [self.to(stack, to, m, ghost)]
        out = []
        o = t["a"]
        for x, b in ts:
            if v is not None and v[0] in "it" and not v[-2] <= x <= v[-1]:
                continue
            m2 = dict(m)
            if o["k"] == "copy" and not o["p"]["p"]:
                m2[("L", d, o["p"]["l"])] = I(x)
            out.append(self.to(stack, b, m2, ghost))
        ty = o["p"]["t"] if "p" in o else o.get("t")
        if not (ty == "bool" and len(ts) == 2):
            out.append(self.to(stack, t["ow"], m, ghost))
        return out

    def call(self, body, stack, d, bi, t, m, ghost):
        c = Call(body, bi)
        args = [self.operand(m, d, a) for a in t["args"]]
        hs = self.hook(self, c, args, dict(m), ghost)
        if hs is not None:
            out = []
            for v, m2, g2 in hs:
                if t["to"] is None:
                    out.append(("out", "panic", c.span(), self.objects(m2), g2))
                    continue
                self.store(m2, d, t["d"], v)
                out.append(self.to(stack, t["to"], m2, g2))
            return out
        if t["to"] is None:
            return [("out", "panic", c.span(), self.objects(m), ghost)]
        known, v = self.builtin(m, c, args)
        if known:
            self.store(m, d, t["d"], v)
            return [self.to(stack, t["to"], m, ghost)]
        tid = c.target_id
        callee = self.prog.bodies.get(tid)
        a2 = args
        if c.names and c.names[0].startswith("core::ops::function::") and last(c.names[0]) in ("call", "call_mut", "call_once"):
            f = self.deref(m, args[0])
            rest = list(args[1][2]) if args[1] is not None and args[1][0] == "a" else [None] * 4
            callee = None
            if f is not None and f[0] == "cl":
                callee = self.prog.bodies.get(f[1])
                self_arg = self.nearest(m, args[0])
                if callee is not None and self_arg is not None and self_arg[0] == "cl" and callee.loc_type(1).startswith("&"):
                    root = ("C", d + 1, bi)
                    m[root] = self_arg
                    self_arg = ("p", root, ())
                a2 = [self_arg] + rest
            elif f is not None and f[0] == "fn":
                callee = self.prog.bodies.get(f[1])
                a2 = rest
        if callee is not None and "trait_decl" in callee.raw and "rid" not in c.fn:
            callee = None
        if callee is not None and not self.opaque(callee) and d < self.max_depth and all(callee.id != s[0] for s in stack):
            live = body.live_in()[t["to"]]
            m2 = keep(m, lambda k: k[0] != "L" or k[1] < d or k[2] in live, body.borrowed(), d, args)
            for i in range(callee.argc):
                m2[("L", d + 1, i + 1)] = a2[i] if i < len(a2) else None
            return [self.to(stack + ((callee.id, 0, (freeze_place(t["d"]), t["to"])),), 0, m2, ghost)]
        self.havoc(m, c, args)
        self.store(m, d, t["d"], None)
        return [self.to(stack, t["to"], m, ghost)]

    def havoc(self, m, c, args):
        def smash(v):
            if v is None:
                return
            if v[0] == "p" and v[1][0] != "K":
                inner = self.read(m, v[1], v[2])
                self.write(m, v[1], v[2], None)
                smash(inner)
            elif v[0] in ("a", "cl"):
                for x in v[2]:
                    smash(x)
        for ty, a in zip(c.arg_types(), args):
            if a is None:
                continue
            if ty.startswith("&mut") or a[0] == "cl":
                smash(a)

    def builtin(self, m, c, args):
        """(handled, value) for well-known std functions."""
        if not c.names:
            return False, None
        n = c.names[0]
        ln = last(n)
        D = [self.deref(m, a) for a in args]
        a0 = D[0] if D else None
        if n in IDENT:
            if ln in ("into", "from") and c.target_id in self.prog.bodies:
                return False, None
            return True, args[0]
        if n in ("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned"):
            return True, a0
        if n == "core::ops::try_trait::Try::branch":
            if a0 is not None and a0[0] == "a":
                if a0[1] in ("Ok", "Some"):
                    return True, ("a", "Continue", a0[2])
                return True, ("a", "Break", (a0,))
            return True, None
        if n == "core::ops::try_trait::FromResidual::from_residual":
            return True, ("a", "Err" if base_type(c.ret_ty).endswith("Result") else "None", (None,) if base_type(c.ret_ty).endswith("Result") else ())
        if n == "core::iter::traits::collect::IntoIterator::into_iter":
            return True, args[0]
        if n in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne") and len(D) == 2:
            r = eq(D[0], D[1])
            return True, None if r is None else truth(r == (ln == "eq"))
        if n.startswith("core::cmp::PartialOrd::") and len(D) == 2 and D[0] and D[1] and D[0][0] == D[1][0] == "i":
            return True, binop({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}.get(ln, "?"), D[0], D[1], "")
        if n.startswith(("core::option::Option::", "core::result::Result::")) and a0 is not None and a0[0] == "a":
            if ln in ("is_some", "is_ok"):
                return True, truth(a0[1] in ("Some", "Ok"))
            if ln in ("is_none", "is_err"):
                return True, truth(a0[1] in ("None", "Err"))
            if ln == "take":
                v = args[0]
                if v[0] == "p":
                    self.write(m, v[1], v[2], ("a", "None", ()))
                return True, a0
            if ln in ("unwrap", "expect") and a0[1] in ("Some", "Ok"):
                return True, a0[2][0]
            if ln in ("as_ref", "as_mut"):
                return True, ("a", a0[1], tuple(None for _ in a0[2]))
        if n.startswith("alloc::vec::Vec::") or n.startswith("core::slice::") or n.startswith("alloc::collections::vec_deque::VecDeque::"):
            is_vec = a0 is not None and a0[0] == "v"
            if ln == "new":
                return True, ("v", 0)
            if ln in ("is_empty",) and is_vec:
                return True, None if a0[1] is None else truth(a0[1] == 0)
            if ln == "len":
                return True, I(0) if is_vec and a0[1] == 0 else ("i", 1, 2 ** 62) if is_vec and a0[1] == 1 else None
            if ln in ("push", "insert", "push_back") and args[0] is not None and args[0][0] == "p":
                self.write(m, args[0][1], args[0][2], ("v", 1))
                return True, None
            if ln == "clear" and args[0] is not None and args[0][0] == "p":
                self.write(m, args[0][1], args[0][2], ("v", 0))
                return True, None
        if n in ("core::mem::take", "core::mem::replace", "core::mem::swap") and args[0] is not None and args[0][0] == "p":
            old = D[0]
            if ln == "take":
                t = base_type(c.ret_ty)
                new = ("v", 0) if t in ("alloc::vec::Vec",) else I(0) if INT.match(t) else ("a", "None", ()) if t == "core::option::Option" else None
                self.write(m, args[0][1], args[0][2], new)
                return True, old
            if ln == "replace":
                self.write(m, args[0][1], args[0][2], args[1])
                return True, old
            if args[1] is not None and args[1][0] == "p":
                self.write(m, args[0][1], args[0][2], D[1])
                self.write(m, args[1][1], args[1][2], old)
                return True, None
        if n == "core::iter::traits::iterator::Iterator::next" and a0 is not None and a0[0] == "a" and a0[1] == "Range" and all(exact(x) is not None for x in a0[2]) and args[0][0] == "p":
            lo, hi = (exact(x) for x in a0[2])
            if lo < hi:
                self.write(m, args[0][1], args[0][2], ("a", "Range", (I(lo + 1), I(hi))))
                return True, ("a", "Some", (I(lo),))
            return True, ("a", "None", ())
        if n.startswith("core::num::") and a0 is not None and a0[0] in "ib":
            ty = c.arg_types()[0]
            bits = to_bits(a0, width(ty))
            if ln in ("to_le", "from_le"):
                return True, a0
            if ln in ("to_le_bytes",):
                return True, transmute(a0, ty, "[u8; %d]" % (width(ty) // 8)) if width(ty) else None
            if ln in ("leading_zeros", "trailing_zeros") and bits is not None:
                k = 0
                for x in (reversed(bits) if ln == "leading_zeros" else bits):
                    if x == 0:
                        k += 1
                        continue
                    return True, I(k) if x == 1 else None
                return True, I(k)
            if ln == "count_ones" and exact(a0) is not None and exact(a0) >= 0:
                return True, I(bin(exact(a0)).count("1"))
        if n.startswith("core::num::") and ln == "from_le_bytes" and a0 is not None and a0[0] == "a":
            return True, transmute(a0, "[u8; %d]" % len(a0[2]), c.ret_ty)
        if ln in ("max_value", "min_value") and n.startswith("core::num::") and base_type(c.ret_ty) in BITS:
            return True, I(BITS[base_type(c.ret_ty)][ln == "max_value"])
        if ln == "default" and n.endswith("Default::default"):
            t = base_type(c.ret_ty)
            if INT.match(t):
                return True, I(0)
            if t == "alloc::vec::Vec":
                return True, ("v", 0)
            if t == "core::option::Option":
                return True, ("a", "None", ())
        if a0 is not None and exact(a0) is not None and re.search(r"core::num::impl::is_ascii_\w+$|core::char::methods::impl::is_\w+$", n):
            return True, ascii_test(ln, exact(a0))
        return False, None


def bytes_literal(s):
    import ast
    try:
        return ast.literal_eval("b" + s)
    except (ValueError, SyntaxError):
        return None


def transmute(v, frm, to):
    """Between an unsigned integer and its bytes (little endian targets, as rustc assumes here)."""
    m = re.match(r"^\[u8; (\d+)\]$", to or "")
    w = width(frm)
    if m and w == 8 * int(m.group(1)):
        bits = to_bits(v, w)
        return None if bits is None else ("a", "array", tuple(norm_bits(bits[i:i + 8]) for i in range(0, w, 8)))
    m = re.match(r"^\[u8; (\d+)\]$", frm or "")
    w = width(to)
    if m and w == 8 * int(m.group(1)) and v[0] == "a":
        bits = ()
        for x in v[2]:
            x = to_bits(x, 8)
            if x is None:
                x = (None,) * 8
            bits += x
        return norm_bits(bits) if len(bits) == w else None
    return None


def ascii_test(ln, x):
    ch = chr(x)
    t = {"is_ascii_digit": ch in "0123456789", "is_ascii_whitespace": ch in " \t\n\r\x0c", "is_ascii": x < 128,
         "is_ascii_alphabetic": x < 128 and ch.isalpha(), "is_ascii_alphanumeric": x < 128 and ch.isalnum(),
         "is_ascii_lowercase": "a" <= ch <= "z", "is_ascii_uppercase": "A" <= ch <= "Z", "is_ascii_control": x < 32 or x == 127,
         "is_ascii_punctuation": x < 128 and 32 < x < 127 and not ch.isalnum()}
    return truth(t[ln]) if ln in t else None


def eq(a, b):
    if a is None or b is None:
        return None
    if a[0] == b[0] == "i":
        if exact(a) is not None and exact(b) is not None:
            return a[1] == b[1]
        if a[2] < b[1] or b[2] < a[1]:
            return False
        return None
    if a[0] == b[0] == "a":
        if a[1] != b[1] and not {a[1], b[1]} <= {None, "array"}:
            return False
        if len(a[2]) != len(b[2]):
            return False if {a[1], b[1]} <= {None, "array"} else None
        rs = [eq(x, y) for x, y in zip(a[2], b[2])]
        if any(r is False for r in rs):
            return False
        return True if all(r is True for r in rs) else None
    if a[0] == b[0] == "s":
        return a[1] == b[1]
    return None


def width(ty):
    b = BITS.get(ty)
    return None if b is None else (b[1] - b[0]).bit_length()


def to_bits(v, w):
    if v is None or w is None:
        return None
    if v[0] == "b":
        return v[1]
    x = exact(v)
    return None if x is None else tuple((x >> i) & 1 for i in range(w))


def norm_bits(bits):
    """Back to a plain integer if every bit is known."""
    if all(x in (0, 1) for x in bits):
        return I(sum(x << i for i, x in enumerate(bits)))
    return ("b", tuple(bits))


def brange(v):
    lo = sum((1 << i) for i, x in enumerate(v[1]) if x == 1)
    hi = sum((1 << i) for i, x in enumerate(v[1]) if x != 0)
    return ("i", lo, hi)


def bitop(op, a, b, ty):
    if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
        x, y = (brange(v) if v[0] == "b" else v for v in (a, b))
        if a == b and a[0] == "b" and None not in a[1]:
            x = y = I(0)
        return binop(op, x, y, ty) if x[0] == y[0] == "i" else None
    w = len(a[1]) if a[0] == "b" else width(ty)
    if op in ("Shl", "Shr"):
        n, bits = exact(b) if b[0] == "i" else None, to_bits(a, w)
        if n is None or bits is None or not 0 <= n < w:
            return None
        return norm_bits(((0,) * n + bits)[:w] if op == "Shl" else bits[n:] + (0,) * n)
    x, y = to_bits(a, w), to_bits(b, w)
    if x is None or y is None or len(x) != len(y):
        return None
    if op == "BitAnd":
        return norm_bits([0 if 0 in (p, q) else q if p == 1 else p if q == 1 else p if p == q else None for p, q in zip(x, y)])
    if op in ("BitOr", "Add", "BitXor"):
        if op != "BitOr" and any(p != 0 and q != 0 for p, q in zip(x, y)):
            return None
        return norm_bits([1 if 1 in (p, q) else q if p == 0 else p if q == 0 else p if p == q else None for p, q in zip(x, y)])
    return None


FLOATS = {"f32": ("<f", "<I"), "f64": ("<d", "<Q")}


def float_value(bits, ty):
    f, i = FLOATS[ty]
    return _struct.unpack(f, _struct.pack(i, bits & ((1 << (32 if ty == "f32" else 64)) - 1)))[0]


def float_bits(x, ty):
    f, i = FLOATS[ty]
    return _struct.unpack(i, _struct.pack(f, x))[0]


def floatop(op, a, b, ty):
    """Operation on two exact floats given by their bits."""
    x, y = float_value(a, ty), float_value(b, ty)
    if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
        return truth({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
    try:
        v = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: x / y}[op]()
        return I(float_bits(v, ty))
    except (KeyError, ZeroDivisionError, OverflowError):
        return None


def binop(op, a, b, ty):
    op = op.replace("WithOverflow", "").replace("Unchecked", "")
    if ty in FLOATS:
        return floatop(op, exact(a), exact(b), ty) if exact(a) is not None and exact(b) is not None else None
    if a is not None and b is not None and "b" in (a[0], b[0]) and a[0] in "ib" and b[0] in "ib":
        return bitop(op, a, b, ty)
    if a is not None and b is not None and "t" in (a[0], b[0]) and a[0] in "it" and b[0] in "it":
        if a == b and op in ("Eq", "Le", "Ge"):
            return I(1)
        if a == b and op in ("Ne", "Lt", "Gt"):
            return I(0)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return binop(op, ("i",) + a[-2:], ("i",) + b[-2:], ty)
        if op in ("Add", "Sub", "BitOr", "BitXor", "Shl", "Shr") and exact(b) == 0:
            return a
        return None
    if a is None or b is None:
        for v in (a, b):
            if v is not None and exact(v) == 0 and op == "BitAnd":
                return I(0)
            if v is not None and exact(v) == 1 and op == "BitOr" and ty == "bool":
                return I(1)
        return None
    if a[0] == "y" and b[0] == "i" and exact(b) is not None and op in ("Add", "Sub"):
        return ("y", a[1], a[2] + (b[1] if op == "Add" else -b[1]))
    if b[0] == "y" and a[0] == "i" and exact(a) is not None and op == "Add":
        return ("y", b[1], b[2] + a[1])
    if a[0] != "i" or b[0] != "i":
        return None
    al, ah, bl, bh = a[1], a[2], b[1], b[2]
    if op == "Add":
        return ("i", al + bl, ah + bh)
    if op == "Sub":
        return ("i", al - bh, ah - bl)
    if op == "Mul":
        xs = [al * bl, al * bh, ah * bl, ah * bh]
        return ("i", min(xs), max(xs))
    if op == "Lt":
        return truth(True) if ah < bl else truth(False) if al >= bh else None
    if op == "Le":
        return truth(True) if ah <= bl else truth(False) if al > bh else None
    if op == "Gt":
        return binop("Lt", b, a, ty)
    if op == "Ge":
        return binop("Le", b, a, ty)
    if op in ("Eq", "Ne"):
        r = eq(a, b)
        return None if r is None else truth(r == (op == "Eq"))
    ea, eb = exact(a), exact(b)
    if op == "Div" and eb and eb > 0 and al >= 0:
        return ("i", al // eb, ah // eb)
    if op == "Rem" and eb and eb > 0 and al >= 0:
        return I(ea % eb) if ea is not None else ("i", 0, eb - 1)
    if ea is not None and eb is not None:
        f = {"BitAnd": lambda: ea & eb, "BitOr": lambda: ea | eb, "BitXor": lambda: ea ^ eb, "Shl": lambda: ea << eb, "Shr": lambda: ea >> eb}.get(op)
        if f and ea >= 0 and eb >= 0:
            w = width(ty)
            if op in ("Shl", "Shr") and w is not None and eb >= w:
                return None
            x = f()
            return I(x & ((1 << w) - 1) if w is not None and op == "Shl" else x)
    if op == "BitAnd" and (ea == 0 or eb == 0):
        return I(0)
    return None


BITS = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2 ** 32 - 1), "u64": (0, 2 ** 64 - 1), "usize": (0, 2 ** 64 - 1), "i8": (-128, 127), "i16": (-2 ** 15, 2 ** 15 - 1),
        "i32": (-2 ** 31, 2 ** 31 - 1), "i64": (-2 ** 63, 2 ** 63 - 1), "isize": (-2 ** 63, 2 ** 63 - 1), "char": (0, 0x10ffff), "u128": (0, 2 ** 128 - 1)}


def fits(v, ty):
    b = BITS.get(ty)
    return b is not None and b[0] <= v[-2] and v[-1] <= b[1]


def keep(m, pred, borrowed, d, roots=()):
    """The part of memory `m` satisfying `pred`, with the borrowed locals of frame `d` it still refers to."""
    out = {k: v for k, v in m.items() if pred(k)}
    pending = [k for k, v in m.items() if k not in out and v is not None and k[0] == "L" and k[1] == d and k[2] in borrowed]
    if pending:
        seen, work = set(), [v for v in list(out.values()) + list(roots) if v is not None]
        while work:
            v = work.pop()
            if v in seen:
                continue
            seen.add(v)
            if v[0] == "p":
                if v[1] in pending and v[1] not in out:
                    out[v[1]] = m[v[1]]
                    work.append(m[v[1]])
            elif v[0] not in ("i", "t", "s", "K"):
                work += [x for x in v if isinstance(x, tuple) and x]
    return out


def freeze_place(p):
    return (p["l"], tuple("*" if x == "*" else (x["k"], x.get("i"), x.get("v")) for x in p["p"]), p["t"])


def dest_place(f):
    return {"l": f[0], "p": ["*" if x == "*" else {"k": x[0], "i": x[1], "v": x[2]} for x in f[1]], "t": f[2]}
