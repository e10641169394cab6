"""C27 — variable length integers in native proofs round-trip for every 64-bit value."""
from vlib.common import *
from vlib.absint import Interp, I, exact, Stuck, norm_bits, to_bits

EXPLANATION = ("Known-bits abstract interpretation (every bit is 0, 1 or a named bit of the input): for each of the 65 possible bit lengths the writer is interpreted on a value whose "
               "lower bits are names, giving the exact bits of every byte written; the reader is interpreted on these bytes followed by unknown ones, with enough and with too little "
               "lookahead, and must return every named bit in its place, consume exactly the bytes written, and report every read error.")


def run(prog, r):
    try:
        decide(prog, r)
    except Stuck as e:
        r.fail("undecided", str(e))


def decide(prog, r):
    wr = unique(prog, r"vli_enc::write_u64$")
    rd = unique(prog, r"vli_enc::read_u64$")
    viol = {}

    def bad(k, t):
        viol.setdefault(k, t)
    UNKNOWN = ("b", (None,) * 8)

    def slices(ip, c, args, mem, gh):
        """Sub-slices of arrays with known bounds."""
        n = c.names[0] if c.names else ""
        if n in INDEX and len(args) == 2:
            a, rg = ip.deref(mem, args[0]), ip.deref(mem, args[1])
            if rg and rg[0] == "a" and rg[1] == "RangeFull":
                return [(args[0], mem, gh)]
            if a and a[0] == "buf" and rg and rg[0] == "a" and rg[1] == "RangeTo" and exact(rg[2][0]) is not None and a[1] == "big":
                k = exact(rg[2][0])
                if k > 16:
                    return None
                bs, pos = gh[0], gh[1]
                return [(("p", ("K", "bytes", ("a", "array", tuple((bs + (UNKNOWN,) * 32)[pos:pos + k]))), ()), mem, gh)]
            if a and a[0] == "a" and a[1] == "array" and rg and rg[0] == "a" and rg[1] in ("RangeTo", "RangeFrom", "Range"):
                xs = [exact(x) for x in rg[2]]
                if None in xs:
                    return None
                lo, hi = (0, xs[0]) if rg[1] == "RangeTo" else (xs[0], len(a[2])) if rg[1] == "RangeFrom" else xs
                if not 0 <= lo <= hi <= len(a[2]):
                    bad("bounds", "slice bounds %d..%d of %d bytes at %s" % (lo, hi, len(a[2]), c.span()))
                    return []
                return [(("p", ("K", "bytes", ("a", "array", a[2][lo:hi])), ()), mem, gh)]
        if last(n) in ("try_into", "try_from") and args:
            return [(("a", "Ok", (args[0],)), mem, gh)]
        if n.endswith("::len") and args:
            a = ip.deref(mem, args[0])
            if a and a[0] == "buf":
                return [(("i", 16, 2 ** 62) if a[1] == "big" else ("i", 0, 15), mem, gh)]
        return None

    class Bits(Interp):
        def length(self, v):
            if v and v[0] == "buf":
                return ("i", 16, 2 ** 62) if v[1] == "big" else ("i", 0, 15)
            if v and v[0] == "a" and v[1] == "array":
                return I(len(v[2]))
            return None

        def builtin(self, m, c, args):
            n = c.names[0] if c.names else ""
            if n.startswith("core::intrinsics::") and last(n) == "transmute":
                from vlib.absint import transmute
                return True, transmute(args[0], c.arg_types()[0], c.ret_ty) if args[0] else None
            return Interp.builtin(self, m, c, args)

    UNIT, ERR = ("a", "Ok", (("a", None, ()),)), ("a", "Err", (None,))
    done = 0
    r.rule("write_u64 and read_u64 are inverse for every bit length, buffered or not")
    for nb in range(65):
        bits = tuple("b%d" % i for i in range(nb - 1)) + ((1,) if nb else ()) + (0,) * (64 - nb)
        val = norm_bits(bits)

        def whook(ip, c, args, mem, gh):
            if c.names and last(c.names[0]) in ("write_all", "write"):
                a = ip.deref(mem, args[1])
                if last(c.names[0]) == "write" or a is None or a[0] != "a" or a[1] != "array":
                    bad("write/%d" % nb, "the bytes written for %d-bit values cannot be followed at %s" % (nb, c.span()))
                    return []
                return [(UNIT, mem, (gh[0] + a[2], gh[1])), (ERR, mem, (gh[0], "failed"))]
            return slices(ip, c, args, mem, gh)
        ip = Bits(prog, whook, lambda b: b.crate != "varisat_internal_proof")
        outs = set()
        for kind, v, objs, gh in ip.run(wr, [None, val], {}, ((), "ok")):
            res = v[1] if kind == "ret" and v and v[0] == "a" else kind
            if gh[1] == "failed":
                if res != "Err":
                    bad("write-error", "a write error is not reported for %d-bit values" % nb)
            elif res != "Ok":
                bad("write/%d" % nb, "writing %d-bit values fails (%s)" % (nb, res))
            else:
                outs.add(gh[0])
        for i in ip.bodies:
            r.saw(prog.bodies[i])
        if len(outs) != 1:
            bad("write/%d" % nb, "writing %d-bit values is not deterministic or not decidable" % nb)
            continue
        enc = outs.pop()
        if len(enc) != max(1, -(-nb // 7)) and not (nb == 64 and len(enc) == 10):
            r.count("longer encodings")
        for mode in ("big", "small"):
            def rhook(ip, c, args, mem, gh):
                n = last(c.names[0]) if c.names else ""
                if n == "fill_buf":
                    return [(("a", "Ok", (("p", ("K", "buf", ("buf", mode)), ()),)), mem, gh), (ERR, mem, gh[:2] + ("failed",))]
                if n == "consume":
                    k = exact(args[1])
                    if k is None:
                        bad("consume/%d" % nb, "%d-bit values: unknown number of bytes consumed" % nb)
                        return []
                    return [(None, mem, (gh[0], gh[1] + k, gh[2]))]
                if n == "read_exact" and args[1] and args[1][0] == "p":
                    a = ip.deref(mem, args[1])
                    if a is None or a[0] != "a":
                        return None
                    k = len(a[2])
                    m2 = dict(mem)
                    ip.write(m2, args[1][1], args[1][2], ("a", a[1], tuple((gh[0] + (UNKNOWN,) * 32)[gh[1]:gh[1] + k])))
                    return [(UNIT, m2, (gh[0], gh[1] + k, gh[2])), (ERR, mem, gh[:2] + ("failed",))]
                return slices(ip, c, args, mem, gh)
            ip = Bits(prog, rhook, lambda b: b.crate != "varisat_internal_proof")
            good = 0
            for kind, v, objs, gh in ip.run(rd, [None], {}, (enc, 0, "ok")):
                res = v[1] if kind == "ret" and v and v[0] == "a" else kind
                if gh[2] == "failed":
                    if res != "Err":
                        bad("read-error", "a read error is not reported for %d-bit values (%s)" % (nb, mode))
                    continue
                if res != "Ok":
                    bad("read/%d/%s" % (nb, mode), "reading %d-bit values fails (%s, %s lookahead)" % (nb, res, mode))
                    continue
                good += 1
                if v[2][0] != val:
                    bad("value/%d/%s" % (nb, mode), "%d-bit values read back differently (%s lookahead): %s" % (nb, mode, diff(v[2][0], bits)))
                if gh[1] != len(enc):
                    bad("length/%d/%s" % (nb, mode), "%d-bit values: %d bytes written, %d consumed (%s lookahead)" % (nb, len(enc), gh[1], mode))
            if not good:
                bad("read/%d/%s" % (nb, mode), "%d-bit values are never read back (%s lookahead)" % (nb, mode))
            for i in ip.bodies:
                r.saw(prog.bodies[i])
            done += 1
            if not any("/%d" % nb in k for k in viol):
                r.ok("roundtrip/%d/%s" % (nb, mode), "%d-bit values, %s lookahead: %d bytes" % (nb, mode, len(enc)))
    for k, t in sorted(viol.items())[:12]:
        r.fail(k, t)
    r.floor("bit lengths times lookahead", done, 130)


def unique(prog, rx):
    r = [b for b in prog.local_fns() if re.search(rx, b.path)]
    if len(r) != 1:
        raise Missing("function /%s/: %d candidates" % (rx, len(r)))
    return r[0]


def diff(v, bits):
    x = to_bits(v, 64) if v else None
    if x is None:
        return "unknown"
    return ", ".join("bit %d is %s" % (i, a) for i, (a, b) in enumerate(zip(x, bits)) if a != b)[:200]
