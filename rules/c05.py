"""C05 — native proofs decode to exactly the steps that were encoded."""
from vlib.common import *
from vlib.absint import Interp, I, exact, Stuck, truth

EXPLANATION = ("Abstract interpretation of the encoder on one abstract step per variant and sub-variant (fields are uninterpreted terms, slices are arbitrary sequences) gives the "
               "sequence of integers written; the decoder is interpreted on exactly that sequence and must return the same step, consuming all of it. The decoder is also "
               "interpreted on arbitrary integers, partitioned at the range limits: no panic, no unbounded allocation, no variable, literal or hash width out of range, no unknown code accepted.")
U64 = (0, 2 ** 64 - 1)


def run(prog, r):
    try:
        decide(prog, r)
    except Stuck as e:
        r.fail("undecided", str(e))


def instances(prog, ty, name):
    """Abstract values of a field."""
    b = base_type(ty)
    if ty.startswith("&") and b.startswith("["):
        return [(name, ("p", ("K", "slice", ("sl", name)), ()))]
    if b == "varisat_formula::lit::Var":
        return [(name, ("var", name))]
    if b == "varisat_formula::lit::Lit":
        return [(name, ("lit", name))]
    if b == "bool":
        return [("%s=%s" % (name, bool(v)), I(v)) for v in (0, 1)]
    if b == "u32":
        return [(name, ("t", ("field", name), 1, 64))]
    if b == "core::option::Option":
        inner = ty[len("core::option::Option<"):-1]
        return [("no " + name, ("a", "None", ()))] + [(n, ("a", "Some", (v,))) for n, v in instances(prog, inner, name)]
    a = prog.adts.get(b)
    if a and a["kind"] == "enum" and not any(v["fields"] for v in a["variants"]):
        return [(v["name"], ("a", v["name"], ())) for v in a["variants"]]
    raise Missing("proof step field `%s` of type %s" % (name, ty))


def element(ty, s):
    if ty == "varisat_formula::lit::Lit":
        return ("lit", ("e", s))
    if ty in ("u64",):
        return ("t", ("h", s)) + U64
    if ty.startswith("("):
        return ("a", None, tuple(element(t, s) for t in split_top(ty[1:-1])))
    raise Missing("proof step slice of %s" % ty)


def steps(prog):
    out = []
    for v in prog.adt("varisat_internal_proof::ProofStep")["variants"]:
        combos = [((), ())]
        elems = {}
        for f in v["fields"]:
            combos = [(n + (nm,), vs + (x,)) for n, vs in combos for nm, x in instances(prog, f["ty"], f["name"])]
            b = base_type(f["ty"])
            if b.startswith("["):
                elems[f["name"]] = element(b[1:-1], f["name"])
        for n, vs in combos:
            out.append(("%s{%s}" % (v["name"], ", ".join(n)), ("a", v["name"], vs), elems))
    return out


class Codec(Interp):
    def length(self, v):
        if v is not None and v[0] == "sl":
            return ("t", ("len", v[1])) + U64
        return None


def decide(prog, r):
    enc = prog.fn("varisat_internal_proof::binary_format::write_step")
    dec = prog.fn("binary_format::Parser::parse_step")
    from rules.c09 import max_dimacs
    MAXI = max_dimacs(prog) - 1
    MAXC = 2 * MAXI + 1
    viol = {}
    self0 = ("a", "Parser", tuple(None for _ in prog.adt("varisat_internal_proof::binary_format::Parser")["variants"][0]["fields"]))

    def bad(k, t):
        viol.setdefault(k, t)

    def common(ip, c, args, mem, gh, elems):
        n = c.names[0] if c.names else ""
        w = c.name + " " + n
        a0 = ip.deref(mem, args[0]) if args else None
        if "varisat_formula::lit::" in w:
            ln = last(c.name)
            if ln == "index" and a0 and a0[0] == "var":
                return [(("t", ("idx", a0[1]), 0, MAXI), mem, gh)]
            if ln == "code" and a0 and a0[0] == "lit":
                return [(("t", ("code", a0[1]), 0, MAXC), mem, gh)]
            if ln in ("from_index", "from_code"):
                lim, tag, kind = (MAXI, "idx", "var") if ln == "from_index" else (MAXC, "code", "lit")
                if a0 and a0[0] == "t" and a0[1][0] == tag:
                    return [((kind, a0[1][1]), mem, gh)]
                if a0 is None or a0[0] not in "it" or a0[-1] > lim:
                    bad("range/%s" % kind, "a %s out of the supported range is constructed at %s" % ("variable" if kind == "var" else "literal", c.span()))
                return [((kind, "?"), mem, gh)]
            if ln in ("max_var", "negative", "positive", "max_count"):
                if ln == "max_var":
                    return [(("maxvar",), mem, gh)]
                if ln == "max_count":
                    return [(I(MAXI + 1), mem, gh)]
                if a0 == ("maxvar",):
                    return [(("maxlit", ln), mem, gh)]
            if a0 == ("maxvar",) and ln == "index":
                return [(I(MAXI), mem, gh)]
            if a0 and a0[0] == "maxlit" and ln == "code":
                return [(I(MAXC if a0[1] == "negative" else MAXC - 1), mem, gh)]
            return [(None, mem, gh)]
        if n.startswith("core::num::") and last(n) in ("count_ones", "leading_zeros") and a0 and exact(a0) is not None:
            x = exact(a0)
            return [(I(bin(x).count("1") if last(n) == "count_ones" else 64 - x.bit_length()), mem, gh)]
        if n in ("core::slice::impl::iter",):
            return [(args[0], mem, gh)]
        if n.endswith("::len") and a0 and a0[0] == "sl":
            return [(ip.length(a0), mem, gh)]
        if n == "alloc::vec::Vec::push" and args[0] and args[0][0] == "p":
            v = ip.deref(mem, args[0])
            x = args[1]
            new = ("vl", x) if v == ("v", 0) or v == ("vl", x) else None
            ip.write(mem, args[0][1], args[0][2], new)
            return [(None, mem, gh)]
        if n == "alloc::vec::Vec::clear" and args[0] and args[0][0] == "p":
            ip.write(mem, args[0][1], args[0][2], ("v", 0))
            return [(None, mem, gh)]
        return None

    is_write = lambda c: any(re.search(r"vli_enc::write_u64$", x) for x in c.names)
    is_read = lambda c: any(re.search(r"vli_enc::read_u64$", x) for x in c.names)
    OPQ = lambda b: b.crate != "varisat_internal_proof"
    ERR, OK = ("a", "Err", (None,)), lambda v: ("a", "Ok", (v,))

    # ------------------------------------------------------------ encoder
    r.rule("the encoder writes a code, then every field; the decoder reads the same integers and rebuilds the same step")
    codes = {}
    table = steps(prog)
    r.floor("step kinds", len(table), 19)
    pairs = 0
    for name, step, elems in table:
        def hook(ip, c, args, mem, gh):
            if is_write(c):
                items, st = gh
                v = args[1]
                if v is None or v[0] not in "it":
                    bad("write/" + name, "%s: the encoder writes a value the analysis cannot follow at %s" % (name, c.span()))
                if items and items[-1][0] == "open":
                    items = items[:-1] + (("open", items[-1][1], items[-1][2] + (v,)),)
                else:
                    items = items + (("u", v),)
                return [(OK(("a", None, ())), mem, (items, st)), (ERR, mem, (items, "failed"))]
            if c.names and last(c.names[0]) == "next" and args:
                a0 = ip.deref(mem, args[0])
                if a0 and a0[0] == "sl":
                    items, st = gh
                    if items and items[-1][0] == "open" and items[-1][1] == a0[1]:
                        lp = ("loop", a0[1], items[-1][2])
                        items = items[:-1]
                        items = items if items and items[-1] == lp else items + (lp,)
                    e = elems[a0[1]]
                    item = ("p", ("K", "elem", e), ()) if "Option<&" in c.ret_ty else e
                    return [(("a", "None", ()), mem, (items, st)), (("a", "Some", (item,)), mem, (items + (("open", a0[1], ()),), st))]
            return common(ip, c, args, mem, gh, elems)
        ip = Codec(prog, hook, OPQ)
        seqs = set()
        for kind, v, objs, gh in ip.run(enc, [None, ("p", ("o", "step"), ())], {("o", "step"): step}, ((), "ok")):
            res = v[1] if kind == "ret" and v and v[0] == "a" else None
            if gh[1] == "failed":
                if res != "Err":
                    bad("write-error/" + name, "%s: a write error is not reported" % name)
            elif res != "Ok":
                bad("write-fails/" + name, "%s: the encoder fails or panics without a write error" % name)
            else:
                seqs.add(gh[0])
        for i in ip.bodies:
            r.saw(prog.bodies[i])
        if not seqs:
            bad("write/" + name, "%s: the encoder never finishes" % name)
            continue
        full = max(seqs, key=lambda q: len(q))
        loops = [x[1] for x in full if x[0] == "loop"]
        strip = lambda q: tuple(x for x in q if x[0] != "loop")
        if any(strip(q) != strip(full) or not set(q) <= set(full) for q in seqs) or any(x[0] == "open" for q in seqs for x in q):
            bad("write/" + name, "%s: the encoding is not uniform: %s" % (name, [seq(q) for q in seqs]))
            continue
        missing = [s for s in elems if s not in loops]
        if missing:
            bad("write/" + name, "%s: the elements of %s are not written" % (name, missing))
            continue
        c0 = exact(full[0][1]) if full and full[0][0] == "u" else None
        if c0 is None:
            bad("code/" + name, "%s: the encoding does not start with a constant code" % name)
            continue
        if c0 in codes:
            bad("code/" + name, "%s and %s share the code %d" % (name, codes[c0], c0))
        codes[c0] = name

        # -------------------------------------------------------- decoder on this encoding
        def dhook(ip, c, args, mem, gh):
            pos, sub, it, st = gh
            if is_read(c):
                if pos >= len(full):
                    bad("decode/" + name, "%s: the decoder reads more than was written (%s)" % (name, c.span()))
                    return []
                x = full[pos]
                if x[0] == "u":
                    return [(OK(x[1]), mem, (pos + 1, None, it, st)), (ERR, mem, (pos, sub, it, "failed"))]
                if sub is None or sub >= len(x[2]):
                    bad("decode/" + name, "%s: the decoder reads something else where the elements of `%s` were written (%s)" % (name, x[1], c.span()))
                    return []
                return [(OK(x[2][sub]), mem, (pos, sub + 1, it, st)), (ERR, mem, (pos, sub, it, "failed"))]
            if c.names and last(c.names[0]) == "next" and args:
                a0 = ip.deref(mem, args[0])
                if a0 and a0[0] == "a" and a0[1] == "Range":
                    x = full[pos] if pos < len(full) else None
                    hi = a0[2][1]
                    if x is None or x[0] != "loop" or exact(a0[2][0]) != 0 or hi is None or hi[0] != "t" or hi[1] != ("len", x[1]) or sub not in (None, len(x[2])):
                        bad("decode/" + name, "%s: the decoder's loop at %s does not match the sequence written" % (name, c.span()))
                        return []
                    return [(("a", "None", ()), mem, (pos + 1, None, it, st)), (("a", "Some", (None,)), mem, (pos, 0, it | {x[1]}, st))]
            return common(ip, c, args, mem, gh, elems)
        ip = Codec(prog, dhook, OPQ)
        good = 0
        for kind, v, objs, gh in ip.run(dec, [("p", ("o", "self"), ()), None], {("o", "self"): self0}, (0, None, frozenset(), "ok")):
            mem = dict(objs)
            if kind == "panic":
                bad("decode-panic/" + name, "%s: the decoder panics at %s" % (name, v))
                continue
            res = v[1] if v and v[0] == "a" else None
            if gh[3] == "failed":
                if res != "Err":
                    bad("read-error/" + name, "%s: a read error is not reported" % name)
                continue
            if res != "Ok":
                bad("decode/" + name, "%s: the decoder rejects what the encoder wrote" % name)
                continue
            if gh[0] != len(full):
                bad("decode/" + name, "%s: the decoder leaves written data unread: %s" % (name, seq(full[gh[0]:])))
                continue
            got = resolve(ip, mem, v[2][0])
            w = matches(got, step, elems, gh[2])
            if w:
                bad("decode/" + name, "%s decodes to a different step: %s" % (name, w))
            good += 1
        if good == 0:
            bad("decode/" + name, "%s is never decoded" % name)
        for i in ip.bodies:
            r.saw(prog.bodies[i])
        pairs += 1
        if not any(k.endswith("/" + name) for k in viol):
            r.ok("roundtrip/" + name, "%s <-> %s" % (name, seq(full)))

    # ------------------------------------------------------------ decoder on arbitrary input
    r.rule("the decoder rejects unknown codes and values out of range without panicking and without allocating ahead")
    cuts = [(0, 0), (1, 64), (65, MAXI), (MAXI + 1, MAXC), (MAXC + 1, U64[1])]
    pts = sorted(codes)
    first, prev = [], 0
    for p in pts:
        if p > prev:
            first.append((prev, p - 1))
        first.append((p, p))
        prev = p + 1
    first.append((prev, U64[1]))

    def ahook(ip, c, args, mem, gh):
        if is_read(c):
            if gh[0] is None:
                return [(OK(("i",) + x), mem, (x,) + gh[1:]) for x in first] + [(ERR, mem, ((-1, -1), "failed"))]
            return [(OK(("i",) + x), mem, gh) for x in cuts] + [(ERR, mem, (gh[0], "failed"))]
        n = c.names[0] if c.names else ""
        if re.search(r"::(with_capacity\w*|reserve\w*|try_reserve\w*|resize\w*|from_elem|repeat|set_len|take)$", n) or "from_elem" in n:
            for a in args[1:] if "from_elem" not in n and "with_capacity" not in n else args:
                if a is None or a[0] not in "i" or a[-1] > 2 ** 20:
                    bad("allocate/%s" % c.span().split(":")[0], "the decoder allocates an amount taken from the input at %s" % c.span())
        if c.names and last(n) == "next" and args:
            a0 = ip.deref(mem, args[0])
            if a0 and a0[0] == "a" and a0[1] == "Range":
                return [(("a", "None", ()), mem, gh), (("a", "Some", (None,)), mem, gh)]
        return common(ip, c, args, mem, gh, {})
    ip = Codec(prog, ahook, OPQ)
    n = 0
    for kind, v, objs, gh in ip.run(dec, [("p", ("o", "self"), ()), None], {("o", "self"): self0}, (None, "ok")):
        n += 1
        if kind == "panic":
            bad("panic", "malformed input makes the decoder panic at %s" % v)
            continue
        res = v[1] if v and v[0] == "a" else None
        known = gh[0] and gh[0][0] in codes and gh[0][0] == gh[0][1]
        if gh[1] == "failed" and res != "Err":
            bad("truncated", "truncated input is accepted")
        elif res == "Ok":
            if not known:
                bad("unknown-code", "an unknown step code (%d..%d) is accepted" % gh[0])
            st = v[2][0]
            if st and st[0] == "a" and st[1] == "ChangeHashBits":
                b = st[2][0]
                if b is None or b[0] != "i" or b[1] < 1 or b[2] > 64:
                    bad("range/bits", "a hash width out of range is accepted")
        elif res is None:
            bad("result", "the decoder returns an unrecognisable result")
    for k, t in viol.items():
        r.fail(k, t)
    r.floor("encodings compared", pairs, 19)
    r.floor("outcomes on arbitrary input", n, 30)
    for _ in range(n):
        r.ok("arbitrary", "arbitrary input")


def seq(q):
    def t(v):
        if v is None:
            return "?"
        if v[0] == "i":
            return str(v[1]) if v[1] == v[2] else "%d..%d" % v[1:]
        if v[0] == "t":
            return "%s(%s)" % (v[1][0], v[1][1] if isinstance(v[1][1], str) else v[1][1][0])
        return str(v)
    return " ".join(t(x[1]) if x[0] == "u" else "[%s]*" % " ".join(t(y) for y in x[2]) for x in q)


def resolve(ip, mem, v):
    if v is None:
        return None
    if v[0] == "p":
        x = ip.deref(mem, v)
        return resolve(ip, mem, x) if x is not None else None
    if v[0] == "a":
        return ("a", v[1], tuple(resolve(ip, mem, x) for x in v[2]))
    return v


def matches(got, step, elems, iterated):
    if got is None or got[0] != "a" or got[1] != step[1]:
        return "variant %s" % (got[1] if got else "?")
    for x, y in zip(got[2], step[2]):
        if y[0] == "p":
            s = y[1][2][1]
            want = ("vl", elems[s]) if s in iterated else ("v", 0)
            if x != want:
                return "field `%s` is not the sequence written" % s
        elif y[0] == "t":
            if x is None or x[:2] != y[:2]:
                return "field %s" % (y[1],)
        elif x != y:
            return "field value %s instead of %s" % (x, y)
    return None
