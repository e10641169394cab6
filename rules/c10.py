"""C10 — configuration updates are range checked and all-or-nothing."""
import os, re as _re
from vlib.common import *
from vlib import facts
from vlib.absint import Stuck, exact, I, float_bits, floatop, binop
from vlib.outputs import struct
from vlib.terms import GH0, T, SOME, NONE, OK, ERR, emit, user
from vlib.outputs import Out, events

EXPLANATION = ("Term-based abstract interpretation of the macro-expanded SolverConfigUpdate::apply, merge and SolverConfig::default with every option absent or set to an arbitrary number (floats as bit "
               "patterns; NaN, negative and infinite values are interpreted separately): on success every present value is within the range its documentation gives and exactly these values are stored, "
               "on failure some present value is outside and nothing is stored. Solver::config and config_changed are interpreted with the stored configuration; each option must be read by the solver.")

CFG, UPD = "varisat::config::SolverConfig", "varisat::config::SolverConfigUpdate"


def run(prog, r):
    r.rule("apply: success <=> every present value in its documented range, and then the configuration holds exactly the present values; failure changes nothing")
    try:
        decide(prog, r)
    except Stuck as e:
        r.fail("undecided", str(e))


def documented(prog):
    """{option: (type, default text, range text)} from the documentation of the configuration struct."""
    a = prog.adt(CFG)
    text = open(os.path.join(facts.REPO, "varisat/src/config.rs")).read()
    m = _re.search(r"pub struct SolverConfig\s*\{(.*?)\n\}", text, _re.S)
    if not m:
        raise Missing("documentation of SolverConfig in varisat/src/config.rs")
    out, doc = {}, ""
    for line in m.group(1).splitlines():
        line = line.strip()
        if line.startswith("///"):
            doc += line[3:] + "  "
        f = _re.match(r"pub (\w+): (\w+)", line)
        if f:
            rg = _re.search(r"\[range: (.+?)\]", doc)
            df = _re.search(r"\[default: (.+?)\]", doc)
            out[f.group(1)] = (f.group(2), df and df.group(1), rg and rg.group(1))
            doc = ""
    return out, [f["name"] for f in a["variants"][0]["fields"]]


def number(text, ty):
    text = text.strip().replace("_", "")
    return float_bits(float(text), ty) if ty[0] == "f" else int(text, 0)


def interval(text, ty):
    """Inclusive range of values (bit patterns for floats)."""
    m = _re.match(r"^(.*?)\.\.(=?)(.*)$", text.strip())
    top = float_bits(float("inf"), ty) if ty[0] == "f" else 2 ** 64 - 1
    lo = number(m.group(1), ty) if m.group(1).strip() else 0
    hi = (number(m.group(3), ty) - (0 if m.group(2) else 1)) if m.group(3).strip() else top
    return lo, hi


def contains(ip, c, args, mem, gh):
    """Range::contains as two comparisons."""
    n = c.names[0] if c.names else ""
    if not (n.startswith("core::ops::range::") and last(n) == "contains"):
        return None
    rg, x = ip.close(mem, args[0]), ip.deref(mem, args[1])
    if rg is None or rg[0] != "a" or x is None:
        return None
    ty = base_type(c.arg_types()[1])
    kind = rg[1]
    lo = rg[2][0] if kind in ("Range", "RangeFrom", "RangeInclusive") else None
    hi = rg[2][1] if kind in ("Range", "RangeInclusive") else rg[2][0] if kind in ("RangeTo", "RangeToInclusive") else None
    states = [(True, mem, gh)]
    for bound, op in ((lo, "Ge"), (hi, "Le" if "Inclusive" in kind else "Lt")):
        if bound is None:
            continue
        nxt = []
        for ok, m, g in states:
            if not ok:
                nxt.append((ok, m, g))
                continue
            v = from_bin(ip, m, op, x, bound, ty)
            nxt += ip.branch(v, m, g)
        states = nxt
    return [(I(1 if ok else 0), m, g) for ok, m, g in states]


def from_bin(ip, mem, op, a, b, ty):
    if a[0] == "t" or b[0] == "t":
        return ip.compare(mem, op, a, b)
    return binop(op, a, b, ty)


def decide(prog, r):
    docs, names = documented(prog)
    r.check(set(docs) == set(names), "options", "all options documented", "the documented options %s are not the fields of SolverConfig %s" % (sorted(docs), sorted(names)))
    ups = [f["name"] for f in prog.adt(UPD)["variants"][0]["fields"]]
    r.check(set(ups) == set(names), "update options", "an update can set every option", "a configuration update has the options %s, the configuration %s" % (sorted(ups), sorted(names)))
    rng = {}
    for f in names:
        ty, df, rg = docs.get(f, (None, None, None))
        r.check(df is not None, f + "/default documented", "default documented", "no default is documented for `%s`" % f)
        top = float_bits(float("inf"), ty) if ty and ty[0] == "f" else 2 ** 64 - 1
        rng[f] = interval(rg, ty) if rg else (0, top)
    ty = {f: docs[f][0] for f in names}
    top = {f: float_bits(float("inf"), ty[f]) if ty[f][0] == "f" else 2 ** 64 - 1 for f in names}

    def saw(ip):
        for b in ip.bodies:
            r.saw(prog.bodies[b])

    # defaults
    fn = [b for b in prog.bodies.values() if b.raw.get("trait") and "default::Default" in b.raw["trait"] and b.raw.get("self_ty") == CFG and last(b.path) == "default"]
    fn = fn or [b for b in prog.bodies.values() if b.path.endswith("for %s>::default" % CFG)]
    if len(fn) != 1:
        raise Missing("Default for SolverConfig")
    ip = Out(prog)
    outs = ip.run(fn[0], [], {}, GH0)
    saw(ip)
    v = next(iter(outs))[1] if len(outs) == 1 else None
    for i, f in enumerate(names):
        got = exact(v[2][i]) if v is not None and v[0] == "a" else None
        r.check(got is not None and docs[f][1] is not None and got == number(docs[f][1], ty[f]), f + "/default", "default is the documented one", "the default of `%s` is not the documented %s" % (f, docs[f][1]))
        r.check(got is not None and rng[f][0] <= got <= rng[f][1], f + "/default range", "default within range", "the default of `%s` is outside its documented range" % f)

    # apply
    ap = prog.fn("varisat::config::SolverConfigUpdate::apply")
    old = struct(prog, CFG, **{f: T("old." + f, 0, top[f]) for f in names})
    val = {f: T("new." + f, 0, top[f]) for f in names}
    special = [("NaN", "nan"), ("a negative number", -1.0), ("infinity", "inf")]
    cases = [("numbers", {f: ("u", ("set", f), (("None", ()), ("Some", (val[f],)))) for f in names})]
    cases += [("%s for `%s`" % (what, f), {g: SOME(I(float_bits(float(x), ty[f]))) if g == f else NONE for g in names}) for f in names if ty[f][0] == "f" for what, x in special]
    n = good = bad = 0
    for what, fields in cases:
        ip = Out(prog, contains)
        outs = ip.run(ap, [("p", ("o", "update"), ()), ("p", ("o", "config"), ())], {("o", "config"): old, ("o", "update"): struct(prog, UPD, **fields)}, GH0)
        saw(ip)
        for kind, v, objs, g in outs:
            mem = dict(objs)
            n += 1
            new = mem.get(("o", "config"))
            v = ip.close(mem, v)
            res = v[1] if kind == "ret" and v is not None and v[0] == "a" else "panic" if kind == "panic" else None
            if res not in ("Ok", "Err"):
                r.fail("apply/" + what, "applying an update with %s ends with %s" % (what, res))
                continue
            setp, outside = {}, []
            for f in names:
                s = fields[f]
                if s[0] == "u":
                    st = state_of(mem, "update", ups.index(f))
                    setp[f] = st
                    lo, hi = ip.interval(mem, val[f])
                    if st != "None" and (hi < rng[f][0] or lo > rng[f][1]):
                        outside.append(f)
                    if res == "Ok" and st != "None" and not (rng[f][0] <= lo and hi <= rng[f][1]):
                        r.fail("apply/%s/range" % f, "an update is accepted although `%s` may be outside its documented range %s" % (f, docs[f][2]))
                else:
                    setp[f] = s[1]
                    if s[1] == "Some":
                        outside.append(f)
                        r.check(res == "Err", "apply/%s/%s" % (f, what), "rejected", "an update with %s is accepted" % what)
            if res == "Err":
                bad += 1
                r.check(bool(outside), "apply/rejected", "only updates with a value out of range are rejected", "an update is rejected although none of its values is known to be outside its range")
                r.check(new == old, "apply/unchanged", "a rejected update changes nothing", "a rejected update changes %s" % ", ".join("`%s`" % f for i, f in enumerate(names) if new is None or new[0] != "a" or new[2][i] != old[2][i]))
            else:
                good += 1
                for i, f in enumerate(names):
                    got = new[2][i] if new is not None and new[0] == "a" else None
                    want = {"Some": [val[f]], "None": [old[2][i]]}.get(setp[f])
                    if want is None:
                        want = []
                    r.check(got in want, "apply/%s/stored" % f, "stored", "after an accepted update with `%s` %s, `%s` does not hold %s" % (f, {"Some": "present", "None": "absent"}.get(setp[f], "ignored"), f, "the new value" if setp[f] == "Some" else "the old value"))
    r.count("apply outcomes", n)
    r.floor("accepted updates", good, 16)
    r.floor("rejected updates", bad, 5)

    # merge
    mg = prog.fn("varisat::config::SolverConfigUpdate::merge")
    mine = struct(prog, UPD, **{f: ("u", ("mine", f), (("None", ()), ("Some", (T("mine." + f),)))) for f in names})
    oth = struct(prog, UPD, **{f: ("u", ("other", f), (("None", ()), ("Some", (T("other." + f),)))) for f in names})
    ip = Out(prog)
    m = 0
    for kind, v, objs, g in ip.run(mg, [("p", ("o", "update"), ()), oth], {("o", "update"): mine, ("o", "other"): oth}, GH0):
        mem = dict(objs)
        new = mem.get(("o", "update"))
        m += 1
        for i, f in enumerate(names):
            st = state_of(mem, "other", ups.index(f))
            got = ip.close(mem, new[2][i]) if new is not None and new[0] == "a" else None
            want = [SOME(T("other." + f))] if st == "Some" else [mine[2][i]] if st == "None" else []
            if st == "None" and got is not None and got[0] == "a":
                want += [NONE, SOME(T("mine." + f))]
            r.check(kind == "ret" and got is not None and got in want, "merge/" + f, "merged", "merging two updates does not give the value of the second where it is present and of the first elsewhere for `%s`" % f)
    saw(ip)
    r.floor("merge outcomes", m, 16)

    # Solver::config
    sc = prog.fn("varisat::solver::Solver::config")

    def hook(ip, c, args, mem, gh):
        nm = c.names[0] if c.names else c.name
        if c.name.endswith("SolverConfigUpdate::apply"):
            return [(OK(), mem, emit(gh, ("apply",))), (ERR, mem, user(emit(gh, ("apply",)), "rejected"))]
        if c.name.endswith("context::config_changed"):
            return [(("a", None, ()), mem, emit(gh, ("changed",)))]
        return None
    ip = Out(prog, hook)
    n = 0
    for kind, v, objs, g in ip.run(sc, [("solver",), ("update",)], {}, GH0):
        n += 1
        v = ip.close(dict(objs), v)
        res = v[1] if v is not None and v[0] == "a" else None
        evs = [e[0] for e in events(g)]
        if g[1] == "rejected":
            r.check(res == "Err" and evs == ["apply"], "config/rejected", "a rejected update has no effect and is reported", "Solver::config returns %s after a rejected update (%s)" % (res, evs))
        else:
            r.check(res == "Ok" and evs == ["apply", "changed"], "config/applied", "an applied update reaches the solver", "Solver::config: an accepted update ends with %s (%s)" % (res, evs))
    saw(ip)
    r.floor("Solver::config outcomes", n, 2)

    # config_changed: the values cached outside the configuration
    cc = prog.fn("varisat::context::config_changed")
    cached = {"varisat::decision::vsids::Vsids": "vsids_decay", "varisat::clause::activity::ClauseActivity": "clause_activity_decay"}
    cfgv = struct(prog, CFG, **{f: T("cfg." + f, rng[f][0], rng[f][1]) for f in names})
    mem0 = {("o", CFG): cfgv}
    for t in cached:
        mem0[("o", t)] = struct(prog, t, inv_decay=T("old.inv_decay"))
    ip = Out(prog)
    n = 0
    for kind, v, objs, g in ip.run(cc, [("ctx",), ("update",)], mem0, GH0):
        n += 1
        mem = dict(objs)
        r.check(kind == "ret", "config_changed/panic", "no value in range panics", "config_changed panics for a configuration within the documented ranges")
        if kind != "ret":
            continue
        for t, f in cached.items():
            st = mem.get(("o", t))
            names_t = [x["name"] for x in prog.adt(t)["variants"][0]["fields"]]
            got = st[2][names_t.index("inv_decay")] if st is not None and st[0] == "a" else None
            want = ip.arith("Div", I(float_bits(1.0, "f32")), T("cfg." + f, rng[f][0], rng[f][1]), "f32")
            r.check(got == want, "config_changed/" + f, "the new decay takes effect", "after a configuration change the decay used by %s is not the configured `%s`" % (last(t), f))
    saw(ip)
    r.floor("config_changed outcomes", n, 1)

    # a new solver starts with the default decay
    for t, f in cached.items():
        ds = [b for b in prog.bodies.values() if (b.raw.get("trait") or "").endswith("default::Default") and b.raw.get("self_ty") == t and last(b.path) == "default"]
        if len(ds) != 1:
            raise Missing("Default for " + t)
        ip = Out(prog)
        for kind, v, objs, g in ip.run(ds[0], [], {}, GH0):
            names_t = [x["name"] for x in prog.adt(t)["variants"][0]["fields"]]
            got = exact(v[2][names_t.index("inv_decay")]) if v is not None and v[0] == "a" else None
            want = floatop("Div", float_bits(1.0, "f32"), number(docs[f][1], "f32"), "f32")
            r.check(got is not None and I(got) == want, "new/" + f, "a new solver uses the default", "a new %s does not use the default `%s`" % (last(t), f))
        saw(ip)

    # every option is used, and none that may be zero is a divisor
    for b in prog.bodies.values():
        for f in divisors(b):
            r.check(rng.get(f, (0, 0))[0] >= 1, f + "/divisor", "a divisor is at least 1", "%s divides by the option `%s`, whose documented range includes zero" % (b.path, f))
    for f in names:
        users = [b for b in prog.bodies.values() if b.raw.get("self_ty") not in (CFG, UPD) and "config::" not in b.path and reads(b, f)]
        r.check(users, f + "/used", "read by the solver", "no part of the solver reads the option `%s`" % f)


def state_of(mem, obj, i):
    """Variant of field i of an update object: Some, None, or '?' when the path never looked."""
    v = mem.get(("o", obj))
    f = v[2][i] if v is not None and v[0] == "a" else None
    return f[1] if f is not None and f[0] == "a" else "?" if f is not None and f[0] == "u" else None


def divisors(body):
    """Options used as a divisor in this function."""
    loc, out = {}, set()
    for blk in body.blocks:
        for st in blk["st"]:
            if st["k"] != "=":
                continue
            rv = st["r"]
            if rv["k"] == "use" and "p" in rv["a"] and rv["a"]["p"]["p"] and not st["d"]["p"]:
                e = rv["a"]["p"]["p"][-1]
                if e != "*" and e.get("o") == CFG:
                    loc[st["d"]["l"]] = e["n"]
                elif not rv["a"]["p"]["p"] and rv["a"]["p"]["l"] in loc:
                    loc[st["d"]["l"]] = loc[rv["a"]["p"]["l"]]
            if rv["k"] == "bin" and rv["op"] in ("Rem", "Div") and "p" in rv["b"] and not rv["b"]["p"]["p"] and rv["b"]["p"]["l"] in loc:
                out.add(loc[rv["b"]["p"]["l"]])
    return out


def reads(body, f):
    def walk(x):
        if isinstance(x, dict):
            if x.get("o") == CFG and x.get("n") == f:
                return True
            return any(walk(y) for y in x.values())
        return isinstance(x, list) and any(walk(y) for y in x)
    return walk(body.blocks)
