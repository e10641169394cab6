"""Symbolic proof steps: one value per kind with every field arbitrary, and their translation under a variable map."""
import re
from .terms import *
from .terms import T, B, REF, NONE, SOME
from .lits import mk, parts, LIT, VAR
from .ir import base_type

STEP = "varisat_internal_proof::ProofStep"
HASH = "u64"


def shape(prog, adt=STEP):
    """{kind: [(field, type)]}"""
    return {v["name"]: [(f["name"], f["ty"]) for f in v["fields"]] for v in prog.adt(adt)["variants"]}


def field_value(prog, kind, name, ty):
    n = "%s.%s" % (kind, name)
    t = re.sub(r"^&('\w+ )?", "", ty)
    if t.startswith("["):
        return REF(("sl", n))
    if t == "bool":
        return B(n)
    if t in ("u32", "u64", "usize"):
        return T(n, 0, 2 ** (32 if t == "u32" else 64) - 1)
    if t in (VAR, LIT):
        return (("var", n) if t == VAR else ("lit0", n))
    if t.startswith("core::option::Option<"):
        return ("u", ("opt", n), (("None", ()), ("Some", (field_value(prog, kind, name, t[21:-1]),))))
    a = prog.adts.get(base_type(t))
    if a is not None and all(not v["fields"] for v in a["variants"]):
        return ("u", ("enum", n), tuple((v["name"], ()) for v in a["variants"]), base_type(t))
    return None


def build(prog, kind, adt=STEP):
    return ("a", kind, tuple(field_value(prog, kind, f, t) for f, t in shape(prog, adt)[kind]))


def element_type(prog, term, adt=STEP):
    """('lit',), ('hash',), ('pair',) for the element of the sequence `Kind.field`."""
    if not (isinstance(term, tuple) and len(term) == 2 and term[0] in ("e", "pe") and isinstance(term[1], str) and "." in term[1]):
        return None
    kind, f = term[1].split(".", 1)
    ty = dict(shape(prog, adt).get(kind, ())).get(f)
    if ty is None:
        return None
    if "(" in ty:
        return "pair"
    return "lit" if LIT in ty else "hash"


def element(prog, term, adt=STEP):
    """Representative element of a sequence field."""
    k = element_type(prog, term, adt)
    if k == "pair":
        return ("a", None, ((term[0], term[1] + "#lit"), T((term[0], term[1] + "#hash"))))
    if k == "hash":
        return T(term)
    return term


def map_lit(x, f):
    v, p = parts(x)
    return mk(f(v), p)

