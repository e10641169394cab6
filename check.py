#!/usr/bin/env python3
"""check.py <PROPERTY> — decides one property on /repo's current source tree."""
import importlib, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vlib import facts, ir, report


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        docs, key, cached = facts.load()
    except facts.FactsError as e:
        print("ERROR: cannot analyse the tree: %s" % e)
        return 2
    prog = ir.Program(docs)
    prog.key = key
    mod = importlib.import_module("rules." + pid.lower())
    r = report.Report(pid, prog, tier, seed)
    try:
        mod.run(prog, r)
    except ir.Missing as e:
        r.fail("anchor", "a construct the property rests on is gone: %s" % e)
    return r.finish(explanation=mod.EXPLANATION, assumptions=getattr(mod, "ASSUMPTIONS", ()))


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
