"""C24 — the libraries touch nothing but the memory, readers and writers given to them."""
from vlib.common import *

EXPLANATION = ("Effect analysis over every function mentioned in the MIR of the library crates (called, passed as a value or used in drop glue of std types): "
               "std paths are judged by an allow list, third party crates by name, and process/console/file/thread/environment types, inline assembly and "
               "foreign functions are rejected.")
STD_OK = re.compile(r"^std::(collections::hash::(map|set)|panicking::begin_panic|io::(error|impls|util|buffered|cursor|copy|Write|Read|BufRead|Seek|Error|ErrorKind|Chain|Take|default_\w+|"
                    r"sink|empty|repeat)|error|num|path::Path::(new|as_os_str)|f32|f64|ffi::os_str::OsStr::new)\b")
CORE_BAD = re.compile(r"^(core|alloc|std)::(arch|intrinsics::(abort|breakpoint)|panicking::panic_nounwind|sync::(mpsc)|io::stdio)\b")
CRATES_OK = {"core", "alloc", "anyhow", "itoa", "leb128", "log", "partial_ref", "serde", "thiserror", "vec_mut_scan", "smallvec", "hashbrown", "rustc_hash",
             "ordered_float"} | set(LIBS) | {"varisat_internal_macros"}
LOG_BAD = re.compile(r"^log::(set_\w+)")
TY_BAD = re.compile(r"\b(std::fs::|std::net::|std::process::|std::thread::|std::env::|std::io::stdio::|std::os::)")


def run(prog, r):
    n = 0
    r.rule("every function used by the library crates is free of ambient effects")
    crates = set()
    for b in lib_bodies(prog):
        r.saw(b)
        for bi, names, span in callee_names(b):
            n += 1
            bad = None
            for nm in names:
                for p in paths_in(nm):
                    top = p.split("::")[0]
                    crates.add(top)
                    if top == "std" and not STD_OK.match(p):
                        bad = p
                    elif CORE_BAD.match(p) or LOG_BAD.match(p):
                        bad = p
                    elif top not in CRATES_OK and top not in ("std",) and "::" in p and is_crate(prog, top, p):
                        bad = p
            r.check(bad is None, "effect/%s" % b.path, "call at %s has no ambient effect" % span,
                    "%s uses %s at %s" % (b.path, bad, span))
        for bi, blk in enumerate(b.blocks):
            t = blk["t"]
            if t["k"] not in ("call", "goto", "switch", "return", "drop", "assert", "resume", "unreachable"):
                r.fail("asm/%s" % b.path, "unsupported terminator `%s` (inline assembly?) at %s" % (t["k"], b.span(bi)))
            if t["k"] == "call" and t["f"]["k"] == "const" and "fn" in t["f"] and t["f"]["fn"].get("foreign"):
                r.fail("ffi/%s" % b.path, "%s calls a foreign function at %s" % (b.path, b.span(bi)))
        for l in b.locals:
            m = TY_BAD.search(l["t"])
            if m:
                r.fail("type/%s" % b.path, "%s handles a value of type %s" % (b.path, l["t"]))
    r.floor("functions mentioned by library code", n, 4000)
    r.rule("types of the library crates hold no files, sockets, processes or threads")
    k = 0
    for p, a in prog.adts.items():
        if a["crate"] not in LIBS:
            continue
        for v in a["variants"]:
            for f in v["fields"]:
                k += 1
                r.check(not TY_BAD.search(f["ty"]), "field/%s" % p, "%s.%s is plain data" % (p, f["name"]), "%s.%s has type %s" % (p, f["name"], f["ty"]))
    r.floor("fields of library types", k, 150)


def is_crate(prog, top, p):
    """Is the leading segment a crate (not a type parameter or local module)?"""
    return bool(re.match(r"^[a-z_][a-z0-9_]*$", top)) and top not in ("self", "impl", "dyn")
