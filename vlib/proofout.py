"""Interpretation of the solver's proof output for one symbolic step."""
from . import steps
from .outputs import Out, struct, tokens, events
from .terms import *
from .terms import I, T, B, REF, NONE, SOME, OK, ERR, GH0, user, emit
from .ir import last

PROOF, STATE, VARS = "varisat::proof::Proof", "varisat::state::SolverState", "varisat::variables::Variables"
MAPS = {"solver_from_global": ("solver_from_global", "global_from_solver"), "global_from_user": ("global_from_user", "user_from_global")}


class ProofOut(Out):
    def __init__(self, prog, hook=None, **kw):
        super().__init__(prog, hook=self.maps, **kw)
        self.extra = hook

    def element(self, term):
        return steps.element(self.prog, term)

    def maps(self, ip, c, args, mem, gh):
        if c.name.endswith("var_map::VarMap::get") and args:
            m = self.deref(mem, args[0])
            v = self.close(mem, args[1])
            if m is not None and m[0] == "vm" and v is not None:
                return [(("u", ("get", m[1], v), (("None", ()), ("Some", ((m[1], v),)))), mem, gh)]
            return None
        return self.extra(ip, c, args, mem, gh) if self.extra else None


def memory(prog, fmt, checker=NONE, hash_bits=64, clause_count=0, invoked=None, error=NONE):
    buf = {f["name"]: ("sl", "leftover." + f["name"]) for f in prog.adt("proof::map_step::MapStep")["variants"][0]["fields"]}
    bm = {k: struct(prog, "var_map::VarBiMap", fwd=("vm", f), bwd=("vm", b)) for k, (f, b) in MAPS.items()}
    return {("o", PROOF): struct(prog, PROOF, format=NONE if fmt is None else SOME(("a", fmt, ())), target=("sink",), checker=checker, hash_bits=I(hash_bits),
                                 clause_count=I(clause_count), map_step=struct(prog, "proof::map_step::MapStep", **buf)),
            ("o", STATE): struct(prog, STATE, solver_error=error, solver_invoked=None if invoked is None else I(invoked)),
            ("o", VARS): struct(prog, VARS, **bm)}


def run_step(prog, ip, step, solver_vars, mem):
    """[(kind, events, user ghost, solver_error, memory)] of add_step."""
    fn = prog.fn("varisat::proof::add_step")
    args = []
    for i in range(1, fn.argc + 1):
        t = fn.loc_type(i)
        args.append(I(solver_vars) if t == "bool" else REF(step) if "ProofStep" in t else ("ctx",))
    return run_fn(prog, ip, fn, args, mem)


def run_fn(prog, ip, fn, args, mem):
    out = []
    names = [f["name"] for f in prog.adt(STATE)["variants"][0]["fields"]]
    for o in ip.run(fn, args, mem, GH0):
        m = dict(o[2])
        st = m.get(("o", STATE))
        err = st[2][names.index("solver_error")] if st is not None and st[0] == "a" else None
        out.append((o[0], events(o[3]), o[3][1], err, m))
    return out


def rename_lit(solver_vars):
    """Literal as it must appear in the proof."""
    return (lambda x: steps.map_lit(x, lambda v: ("global_from_solver", v))) if solver_vars else (lambda x: x)


def length(mem, name):
    """'empty', 'nonempty' or None: what the path knows about the length of a sequence."""
    f = mem.get(("F", ("len", name)))
    if f is None:
        return None
    lo, hi = f[-2], f[-1]
    return "nonempty" if lo >= 1 else "empty" if hi == 0 else None
