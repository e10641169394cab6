"""C23 — solving is deterministic."""
from vlib.common import *

EXPLANATION = ("Effect analysis over every function, type and cast in the MIR of the library crates: sources of nondeterminism (clocks, random numbers, randomly "
               "seeded hashing, addresses, threads, environment, mutable global state) must not be mentioned at all.")
BAD = re.compile(r"\b(std::time|std::thread|std::env|std::process|std::net|std::fs|std::hash::random|core::sync::atomic|alloc::sync|std::sync|core::cell::(once|lazy)|"
                 r"std::sys|std::os|rand(_\w+)?|getrandom|fastrand|core::arch|core::fmt::(Pointer|pointer_fmt_inner)|core::ptr::(addr_eq|eq|fn_addr_eq|hash)|core::any::TypeId|"
                 r"std::collections::hash::map::RandomState|RandomState|core::hint::black_box|core::panic::location|alloc::rc::Rc::(as_ptr|ptr_eq)|"
                 r"core::ptr::(const_ptr|mut_ptr)::impl::(addr|expose_provenance|to_bits|guaranteed_eq|align_offset|is_aligned|is_aligned_to)|std::collections::hash::map::DefaultHasher|"
                 r"std::hash|core::mem::MaybeUninit::assume_init|core::mem::uninitialized|core::mem::maybe_uninit::MaybeUninit::assume_init\w*)\b")
CRATE_OK = re.compile(r"^(core|alloc|std|anyhow|itoa|leb128|log|partial_ref|serde|thiserror|vec_mut_scan|smallvec|hashbrown|rustc_hash|ordered_float|varisat\w*)$")


def run(prog, r):
    n = 0
    r.rule("no source of nondeterminism is used")
    for b in lib_bodies(prog):
        r.saw(b)
        for bi, names, span in callee_names(b):
            n += 1
            bad = None
            for nm in names:
                m = BAD.search(nm)
                if m:
                    bad = m.group(0)
                for p in paths_in(nm):
                    top = p.split("::")[0]
                    if re.match(r"^[a-z_][a-z0-9_]*$", top) and not CRATE_OK.match(top) and top not in ("self", "impl", "dyn"):
                        bad = p
                if nm.startswith("std::") and not re.match(r"^std::(collections::hash|panicking::begin_panic|io|error|f32|f64|num)", nm):
                    bad = nm
            r.check(bad is None, "source/%s" % b.path, "call at %s is deterministic" % span, "%s uses %s at %s" % (b.path, bad, span))
        for l in b.locals:
            for m in (re.search(r"RandomState|std::time::|std::thread::|core::cell::lazy|std::sync::|core::sync::atomic", l["t"]),):
                if m:
                    r.fail("type/%s" % b.path, "%s handles a value of type %s" % (b.path, l["t"]))
        addresses(prog, r, b)
    r.floor("functions mentioned by library code", n, 4000)

    r.rule("hash tables use a fixed hash function")
    h = 0
    seen = set()
    for b in lib_bodies(prog):
        for l in b.locals:
            for t in hash_types(l["t"]):
                if t in seen:
                    continue
                seen.add(t)
                h += 1
                a = split_top(t[t.index("<") + 1:-1])
                r.check(bool(re.search(r"BuildHasherDefault<rustc_hash::Fx|rustc_hash::Fx|FxBuildHasher", a[-1])), "hasher/%s" % b.path, "%s is hashed deterministically" % t,
                        "%s in %s is hashed with %s" % (t, b.path, a[-1]))
    r.floor("hash table types", h, 4)

    r.rule("no state is shared between solvers")
    for s in prog.statics:
        if s["crate"] in LIBS:
            ok = not s["mut"] and not re.search(r"Cell|Atomic|Mutex|RwLock|Once|Lazy|LocalKey", s["ty"])
            r.check(ok, "static/%s" % s["path"], "static %s is immutable" % s["path"], "static %s is mutable shared state (%s)" % (s["path"], s["ty"]))
    r.ok("statics", "%d statics in the program" % len(prog.statics))
    for p, a in prog.adts.items():
        if a["crate"] in LIBS:
            for v in a["variants"]:
                for f in v["fields"]:
                    r.check(not re.search(r"RandomState|std::time::|std::thread::|std::sync::|core::sync::atomic|alloc::sync::|alloc::rc::", f["ty"]), "field/%s" % p,
                            "%s.%s is not shared or ambient" % (p, f["name"]), "%s.%s has type %s" % (p, f["name"], f["ty"]))


def hash_types(t):
    for m in re.finditer(r"[\w:]*\bHash(?:Map|Set)<", t):
        d, i = 1, m.end()
        while i < len(t) and d:
            d += t[i] == "<"
            d -= t[i] == ">" and t[i - 1] != "-"
            i += 1
        yield t[m.start():i]


def addresses(prog, r, b):
    """Addresses may only be subtracted from each other."""
    ex = {}
    for bi, blk in enumerate(b.blocks):
        for si, s in enumerate(blk["st"]):
            if s["k"] == "=" and s["r"]["k"] == "cast" and "Expose" in s["r"]["c"]:
                ex[s["d"]["l"] if not s["d"]["p"] else -1] = b.span(bi, si)
            ts = [o["p"]["t"] for o in (s["r"].get("a"), s["r"].get("b")) if isinstance(o, dict) and "p" in o] if s["k"] == "=" else []
            if s["k"] == "=" and s["r"]["k"] == "bin" and s["r"]["op"] in ("Lt", "Le", "Gt", "Ge") and any(t.startswith("*") for t in ts):
                r.count("pointer order comparisons")
            if s["k"] == "=" and s["r"]["k"] == "cast" and "Transmute" in s["r"]["c"] and "p" in s["r"]["a"] and \
                    re.match(r"(&|\*)", s["r"]["a"]["p"]["t"]) and re.match(r"(u|i)(size|64|128|32)$|\[u8", s["r"]["t"]):
                r.fail("address/%s" % b.path, "%s turns a pointer into an integer at %s" % (b.path, b.span(bi, si)))
    if not ex:
        return
    for l, span in ex.items():
        uses = []
        work, seen = [l], {l}
        bad = l == -1
        while work and not bad:
            x = work.pop()
            for bi, blk in enumerate(b.blocks):
                for s in blk["st"]:
                    if s["k"] != "=":
                        continue
                    q = s["r"]
                    ops = [o for o in [q.get("a"), q.get("b")] + list(q.get("ops", [])) if isinstance(o, dict) and "p" in o and o["p"]["l"] == x]
                    if "p" in q and isinstance(q["p"], dict) and q["p"].get("l") == x:
                        bad = True
                    if not ops:
                        continue
                    if q["k"] == "use" and not s["d"]["p"]:
                        if s["d"]["l"] not in seen:
                            seen.add(s["d"]["l"])
                            work.append(s["d"]["l"])
                    elif q["k"] == "bin" and q["op"] in ("Sub", "SubWithOverflow") and is_exposed(b, q["a"], ex) and is_exposed(b, q["b"], ex):
                        uses.append(1)
                    else:
                        bad = True
                t = blk["t"]
                if t["k"] == "call" and any("p" in a and a["p"]["l"] == x for a in t["args"]) or t["k"] == "switch" and "p" in t["a"] and t["a"]["p"]["l"] == x:
                    bad = True
        r.check(not bad, "address/%s" % b.path, "the address taken at %s is only used in an address difference" % span,
                "%s uses an address as data (taken at %s)" % (b.path, span))


def is_exposed(b, o, ex):
    l = o["p"]["l"] if "p" in o else None
    for _ in range(6):
        if l in ex:
            return True
        ds = b.defs.get(l, [])
        if len(ds) != 1 or ds[0][0] != "s":
            return False
        q = b.blocks[ds[0][1]]["st"][ds[0][2]]["r"]
        if q["k"] != "use" or "p" not in q["a"]:
            return False
        l = q["a"]["p"]["l"]
    return False
