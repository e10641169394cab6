"""C28 — variable and literal conversions are mutually consistent."""
from vlib.common import *
from vlib.absint import Stuck, exact, I
from vlib.linear import Linear, lin
from vlib.outputs import tokens, events
from vlib.terms import REF, GH0

EXPLANATION = ("Every conversion of Var and Lit is interpreted over linear forms a*v+b of one unknown variable index v that ranges over all indices up to Var::max_var(), for both signs; the result is "
               "read back with every observer, and each observer must give the expected linear form for the whole range. Values that leave the range of their integer type count as unknown.")

V = "varisat_formula::lit::"


def run(prog, r):
    r.rule("observer(constructor(x)) is the expected linear form of x, for every representable variable and both signs")
    try:
        decide(prog, r)
    except Stuck as e:
        r.fail("undecided", str(e))


def decide(prog, r):
    def fn(name, trait=None, self_ty=None):
        if trait:
            bs = [b for b in prog.bodies.values() if b.raw.get("trait") and re.sub(r"<.*", "", b.raw["trait"]).endswith(trait) and (b.raw.get("self_ty") or "") == V + self_ty and last(b.path) == name]
        else:
            bs = [b for b in prog.bodies.values() if b.path == V + name]
        if len(bs) != 1:
            raise Missing("%s%s" % (trait + " for " + self_ty + "::" if trait else "", name))
        r.saw(bs[0])
        return bs[0]

    def call(f, *args):
        """The single value `f` returns, with the events; None when it is not unique or `f` may panic."""
        outs = ip.run(f, list(args), {}, GH0)
        if len(outs) != 1:
            return None
        kind, v, objs, g = next(iter(outs))
        return None if kind == "panic" else (ip.close(dict(objs), v), g)

    ip = Linear(prog, {})
    mv = call(fn("Var::max_var"))
    mv = mv and mv[0]
    mi = call(fn("Var::index"), mv)
    M = exact(mi[0]) if mi else None
    r.check(M is not None and M >= 1, "max_var", "the largest variable is a constant", "the index of Var::max_var() is not a known constant")
    if M is None:
        return
    mc = call(fn("Var::max_count"))
    r.check(mc and exact(mc[0]) == M + 1, "max_count", "max_count = max index + 1", "Var::max_count() is not one more than the largest index (%s)" % (mc and mc[0],))

    def hook(ip, c, args, mem, gh):
        if c.names and c.names[0].startswith("core::ops::function::") and args and ip.deref(mem, args[0]) == ("mapper",):
            a = ip.deref(mem, args[1])
            a = ip.close(mem, a[2][0] if a is not None and a[0] == "a" else a)
            if a == other["var"]:
                return [(other["to"], mem, gh)]
            return [(None, mem, gh)]
        return None
    other = {}
    ip = Linear(prog, {"v": M, "w": M}, hook)
    v, w = lin("v", 1, 0), lin("w", 1, 0)
    done = 0

    def want(key, got, exp, what):
        nonlocal done
        done += 1
        r.check(got is not None and got[0] == exp, key, what, "%s is %s instead of %s" % (what, show(got and got[0]), show(exp)))

    def mk(f, *args):
        x = call(f, *args)
        return x and x[0]

    x = mk(fn("Var::from_index"), v)
    y = mk(fn("Var::from_index"), w)
    if x is None or y is None:
        r.fail("from_index", "Var::from_index is not defined for every index up to Var::max_var()")
        return
    other.update(var=x, to=y)

    def look_var(k, z, n, what):
        if z is None:
            r.fail(k, "%s is not defined for every representable variable" % what)
            return
        want(k + "/index", call(fn("Var::index"), z), lin(n, 1, 0), "index of " + what)
        want(k + "/dimacs", call(fn("Var::to_dimacs"), z), lin(n, 1, 1), "DIMACS number of " + what)
        for tr in ("Display", "Debug"):
            look_fmt(k, z, "Var", tr, lin(n, 1, 1), what)

    def look_fmt(k, z, ty, tr, num, what):
        nonlocal done
        done += 1
        f = fn("fmt", "fmt::" + tr, ty)
        ok = [o for o in ip.run(f, [REF(z), ("fmt",)], {}, GH0) if o[3][1] != "failed"]
        good = bool(ok)
        for o in ok:
            good = good and o[0] != "panic" and flat(tokens(events(o[3]))) == [num]
        r.check(good, k + "/" + tr, "%s prints the DIMACS number" % tr, "%s of %s does not print exactly its DIMACS number" % (tr, what))

    def look_lit(k, z, n, neg, what):
        if z is None:
            r.fail(k, "%s is not defined for every representable variable" % what)
            return
        want(k + "/code", call(fn("Lit::code"), z), lin(n, 2, neg), "code of " + what)
        want(k + "/index", call(fn("Lit::index"), z), lin(n, 1, 0), "index of " + what)
        want(k + "/var", call(fn("Lit::var"), z), x if n == "v" else y, "variable of " + what)
        want(k + "/neg", call(fn("Lit::is_negative"), z), I(neg), "is_negative of " + what)
        want(k + "/pos", call(fn("Lit::is_positive"), z), I(1 - neg), "is_positive of " + what)
        d = lin(n, -1, -1) if neg else lin(n, 1, 1)
        want(k + "/dimacs", call(fn("Lit::to_dimacs"), z), d, "DIMACS number of " + what)
        for tr in ("Display", "Debug"):
            look_fmt(k, z, "Lit", tr, d, what)

    look_var("from_index", x, "v", "Var::from_index(v)")
    look_var("from_dimacs", mk(fn("Var::from_dimacs"), lin("v", 1, 1)), "v", "Var::from_dimacs(v + 1)")
    lits = {}
    for neg in (0, 1):
        p = I(1 - neg)
        s = "-" if neg else "+"
        z = lits[neg] = mk(fn("Var::lit"), x, p)
        name = "negative" if neg else "positive"
        for k, l in (("Var::lit", z), ("Lit::from_var", mk(fn("Lit::from_var"), x, p)), ("Lit::from_index", mk(fn("Lit::from_index"), v, p)),
                     ("Lit::from_code", mk(fn("Lit::from_code"), lin("v", 2, neg))), ("Lit::from_dimacs", mk(fn("Lit::from_dimacs"), lin("v", -1, -1) if neg else lin("v", 1, 1))),
                     ("Lit::" + name, mk(fn("Lit::" + name), x)), ("Var::" + name, mk(fn("Var::" + name), x))):
            look_lit(k + s, l, "v", neg, "%s(%sv)" % (k, s))
        if z is None:
            continue
        look_lit("not" + s, mk(fn("not", "ops::bit::Not", "Lit"), z), "v", 1 - neg, "the negation of a %s literal" % name)
        look_lit("xor0" + s, mk(fn("bitxor", "ops::bit::BitXor", "Lit"), z, I(0)), "v", neg, "a %s literal xor false" % name)
        look_lit("xor1" + s, mk(fn("bitxor", "ops::bit::BitXor", "Lit"), z, I(1)), "v", 1 - neg, "a %s literal xor true" % name)
        look_lit("map_var" + s, mk(fn("Lit::map_var"), z, ("mapper",)), "w", neg, "map_var of a %s literal" % name)
    look_lit("from", mk(fn("from", "convert::From", "Lit"), x), "v", 0, "Lit::from(Var)")
    for ty, a, b in [("Var", x, y)] + [("Lit", lits[s], mk(fn("Var::lit"), y, I(1 - t))) for s in (0, 1) for t in (0, 1)]:
        if a is None or b is None:
            continue
        ca, cb = (call(fn(ty + "::" + ("code" if ty == "Lit" else "index")), q) for q in (a, b))
        if not ca or not cb:
            continue
        want(ty + "/eq", call(fn("eq", "cmp::PartialEq", ty), REF(a), REF(b)), ("cmp", "Eq", ca[0], cb[0]), "equality of two " + ty + "s")
        want(ty + "/cmp", call(fn("cmp", "cmp::Ord", ty), REF(a), REF(b)), ("cmp", "Ord", ca[0], cb[0]), "order of two " + ty + "s")
        want(ty + "/partial_cmp", call(fn("partial_cmp", "cmp::PartialOrd", ty), REF(a), REF(b)), ("a", "Some", (("cmp", "Ord", ca[0], cb[0]),)), "partial order of two " + ty + "s")
    r.count("largest variable index", M)
    r.floor("observations", done, 100)


def flat(toks):
    out = []
    for t in toks or [None]:
        if isinstance(t, tuple) and t and t[0] in ("disp", "dec", "disp1", "display", "debug"):
            t = t[1]
            if isinstance(t, tuple) and t and t[0] == "dec":
                t = t[1]
        out.append(t)
    return out


def show(v):
    if v is None:
        return "unknown"
    if v[0] == "lin":
        return "%d*%s%+d" % (v[2], v[1], v[3])
    if v[0] == "i" and v[1] == v[2]:
        return str(v[1])
    return str(v)
