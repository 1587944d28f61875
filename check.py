#!/usr/bin/env python3
"""python3 check.py <property id>: decide one property of /repo from its source."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from atrcheck import common
from atrcheck.program import AnalysisBroken


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    mod = importlib.import_module("atrcheck.props." + pid.lower())
    rep = common.Report(pid, tier)
    try:
        mod.check(rep)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    need = getattr(mod, "MINIMUM", 1)
    held = sum(1 for o in set(rep.obs) if o[2] == "holds")
    rc = common.finish(rep, mod.EXPLANATION, getattr(mod, "ASSUMPTIONS", []), seed)
    if rc == 0 and held < max(1, need // 5):
        print("ANALYSIS-BROKEN property=%s only %d obligations could be decided (%d expected)" % (pid, held, need))
        return 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
