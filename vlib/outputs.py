"""What a function writes to its output, as a token structure.

Tokens: bytes literals, ('dec',term) decimal, ('leb',term) LEB128, ('disp',value) any other displayed value,
('rep',name,{token sequences}) repetition over a collection.  Every write may fail.
"""
from .terms import *
from .terms import Terms, Interp, exact, I
from .lits import lit_hook, LIT, VAR
from .ir import last, base_type


class Out(Terms):
    """Interpreter that records writes as events ('w', token)."""

    def __init__(self, prog, hook=None, opaque=lambda b: False, max_depth=16):
        super().__init__(prog, None, opaque, max_depth)
        self.user_hook = self.out_hook
        self.more = hook
        self.writes = 0

    def out_hook(self, ip, c, args, mem, gh):
        if self.more is not None:
            r = self.more(self, c, args, mem, gh)
            if r is not None:
                return r
        r = self.io(c, args, mem, gh)
        return r if r is not None else lit_hook(self, c, args, mem, gh)

    def put(self, target, toks, mem, gh, fallible=True, v=None):
        """Write tokens to a writer: a local byte buffer collects them, any other target emits an event."""
        self.writes += 1
        t = self.deref(mem, target)
        if t is not None and t[0] == "q" and target is not None and target[0] == "p":
            m = dict(mem)
            self.write(m, target[1], target[2], self.append(t, gh, tuple(("one", ("tok", x)) for x in toks)))
            return [(OK() if v is None else v, m, gh)]
        if t is not None and t[0] == "p":
            t = self.deref(mem, t)
        g = gh
        for x in toks:
            g = emit(g, ("w", x))
        out = [(OK() if v is None else v, mem, g)]
        if fallible:
            out.append((ERR, mem, user(gh, "failed")))
        return out

    def io(self, c, args, mem, gh):
        if not c.names:
            return None
        n, ln = c.names[0], last(c.names[0])
        R = lambda v: [(v, mem, gh)]
        if n.endswith("Write::write_all") or n == "alloc::vec::Vec::extend_from_slice" and "Vec<u8>" in c.arg_types()[0]:
            toks = self.bytes_of(mem, args[1])
            if n.startswith("alloc"):
                return self.put(args[0], toks, mem, gh, False, UNIT)
            return self.put(args[0], toks, mem, gh)
        if n == "alloc::vec::Vec::push" and "Vec<u8>" in c.arg_types()[0]:
            x = self.close(mem, args[1])
            return self.put(args[0], [bytes([exact(x)]) if exact(x) is not None else ("byte", x)], mem, gh, False, UNIT)
        if n in ("alloc::string::String::push_str",) or n == "alloc::string::String::push":
            x = self.close(mem, args[1])
            if x is not None and x[0] == "q":
                return self.put(args[0], [("buf", x[2])], mem, gh, False, UNIT)
            tok = x[1].encode() if x is not None and x[0] == "s" else chr(exact(x)).encode() if x is not None and exact(x) is not None else ("disp", x)
            return self.put(args[0], [tok], mem, gh, False, UNIT)
        if n in ("alloc::string::String::new", "alloc::string::String::with_capacity"):
            return R(self.new_coll(gh))
        if n in ("alloc::string::String::into_bytes", "alloc::string::String::as_bytes", "alloc::string::String::as_str", "core::str::as_bytes", "core::str::impl::as_bytes"):
            x = self.deref(mem, args[0])
            if x is not None and x[0] == "s":
                return R(REF(("a", "array", tuple(I(b) for b in x[1].encode()))))
            return R(args[0])
        if n == "alloc::string::ToString::to_string" or n.endswith("::to_string") and n.startswith(("alloc::", "core::")):
            t = shown(("fa", "display", self.close(mem, args[0]), base_type(c.arg_types()[0])))
            return R(self.append(self.new_coll(gh), gh, (("one", ("tok", t)),)))
        if n.startswith("itoa::"):
            if ln == "write" and len(args) == 2:
                return self.put(args[0], [("dec", self.close(mem, args[1]))], mem, gh, True, OK(T("written")))
            if ln == "format":
                return R(("disp1", ("dec", self.close(mem, args[1]))))
            return R(None)
        if n.startswith("leb128::write::unsigned"):
            return self.put(args[0], [("leb", self.close(mem, args[1]))], mem, gh, True, OK(T("written")))
        if n.startswith("leb128::write::"):
            return self.put(args[0], [("sleb", self.close(mem, args[1]))], mem, gh, True, OK(T("written")))
        if n.endswith("Write::flush"):
            return [(OK(), mem, emit(gh, ("flush",))), (ERR, mem, user(gh, "failed"))]
        if n.endswith(("Write::write", "Write::write_vectored", "Write::by_ref")):
            return R(args[0]) if ln == "by_ref" else [(None, mem, emit(gh, ("w", ("partial",))))]
        if n.startswith("core::fmt::rt::Argument::new_"):
            x = self.close(mem, args[0])
            return R(("fa", ln[4:], x, base_type(c.arg_types()[0].lstrip("&").replace("'_ ", ""))))
        if n.startswith("core::fmt::") and ln in ("from_str", "new_const", "new_v1", "new") and "Arguments" in n:
            if ln == "from_str":
                x = self.close(mem, args[0])
                return R(("ff", ((x[1].encode(),) if x is not None and x[0] == "s" else (None,))))
            tpl = self.close(mem, args[0])
            av = self.close(mem, args[1]) if len(args) > 1 else ("a", None, ())
            return R(("ff", template(tpl, av)))
        if ln == "write_fmt" and len(args) == 2:
            x = self.deref(mem, args[1])
            toks = x[1] if x is not None and x[0] == "ff" else (None,)
            return self.put(args[0], toks, mem, gh)
        if n in ("alloc::fmt::format",) or n.endswith("fmt::format"):
            x = self.deref(mem, args[0])
            toks = x[1] if x is not None and x[0] == "ff" else (None,)
            return R(self.append(self.new_coll(gh), gh, tuple(("one", ("tok", t)) for t in toks)))
        if n == "std::io::stdio::_print":
            x = self.deref(mem, args[0])
            toks = x[1] if x is not None and x[0] == "ff" else (None,)
            g = gh
            for t in toks:
                g = emit(g, ("print", t))
            return [(UNIT, mem, g)]
        if n.startswith("log::") or "log::__private_api" in n:
            return R(T(("log",)) if c.ret_ty != "bool" else None)
        return None

    def bytes_of(self, mem, v):
        x = self.close(mem, v)
        if x is None:
            return [None]
        if x[0] == "s":
            return [x[1].encode()]
        if x[0] == "disp1":
            return [x[1]]
        if x[0] == "a" and x[1] in (None, "array"):
            if all(y is not None and exact(y) is not None for y in x[2]):
                return [bytes(exact(y) for y in x[2])]
            return [("byte", y) if y is None or exact(y) is None else bytes([exact(y)]) for y in x[2]]
        if x[0] == "q":
            return [("buf", x[2])]
        return [("raw", x)]


def template(tpl, av):
    """Tokens of a compiled format template."""
    if tpl is None or tpl[0] != "a" or av is None or av[0] != "a":
        return (None,)
    bs = [exact(x) for x in tpl[2]]
    out, i, k = [], 0, 0
    if any(b is None for b in bs):
        return (None,)
    while i < len(bs) and bs[i] != 0:
        b = bs[i]
        i += 1
        if b < 0x80:
            out.append(bytes(bs[i:i + b]))
            i += b
        elif b == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + ln]))
            i += ln
        elif b == 0xC0:
            a = av[2][k] if k < len(av[2]) else None
            k += 1
            out.append(shown(a))
        else:
            return (None,)
    return tuple(out)


def shown(a):
    if a is None or a[0] != "fa":
        return None
    _, how, x, ty = a
    if how == "display" and x is not None:
        if x[0] == "s":
            return x[1].encode()
        if ty == LIT:
            return ("dec", ("t", ("dimacs", x), -2 ** 31, 2 ** 31))
        if ty == VAR:
            return ("dec", T(("vdimacs", x), 0, 2 ** 31))
        if x[0] in "it":
            return ("dec", x)
    return (how, x)


def tokens(evs, kind="w", empties=False):
    """Canonical token sequence of the events: writes only, adjacent literals joined, empty repetitions dropped (or kept as
    ('none', collection) with `empties`)."""
    out = []

    def add(t):
        if isinstance(t, tuple) and t and t[0] == "buf":
            for p in t[1]:
                addpart(p, add)
            return
        if isinstance(t, tuple) and t and t[0] == "tok":
            return add(t[1])
        if t == b"":
            return
        if isinstance(t, bytes) and out and isinstance(out[-1], bytes):
            out[-1] += t
        else:
            if isinstance(t, tuple) and t and t[0] == "dec" and t[1] is not None and t[1][0] == "i" and t[1][1] == t[1][2]:
                return add(str(t[1][1]).encode())
            out.append(t)

    def addpart(p, add):
        if p[0] == "one":
            add(p[1])
        elif p[0] == "each":
            alts = set()
            for alt in p[2]:
                alts.add(tokens([("w", x[1] if x[0] == "one" else ("buf", (x,))) for x in alt]))
            if any(alts):
                out.append(("rep", p[1], frozenset(alts)))
    for e in evs:
        if e[0] == kind:
            add(e[1])
        elif e[0] in ("loop", "brk"):
            if empties and e[0] == "loop" and not e[2]:
                out.append(("none", e[1]))
            its = {tokens(x, kind, empties) for x in e[2]}
            if e[0] == "brk":
                its = its | {("break",) + tokens(e[3], kind, empties)} if tokens(e[3], kind, empties) or any(its) else its
            if any(its):
                out.append(("rep" if e[0] == "loop" else "brk", e[1], frozenset(its)))
    return tuple(out)


def struct(prog, adt, **fields):
    """Struct value with the given fields; the others are unknown."""
    a = prog.adt(adt)
    v = a["variants"][0]
    names = [f["name"] for f in v["fields"]]
    for k in fields:
        if k not in names:
            from .ir import Missing
            raise Missing("field %s of %s" % (k, adt))
    return ("a", v["name"], tuple(fields.get(f) for f in names))


def variant(prog, adt, name, **fields):
    a = prog.adt(adt)
    v = next(x for x in a["variants"] if x["name"] == name)
    names = [f["name"] for f in v["fields"]]
    return ("a", name, tuple(fields.get(f) for f in names))
