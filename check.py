#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]   -- static check of one property on /repo's current sources"""
import os, sys, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "sa"), os.path.join(HERE, "rules")]
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import report
def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    for mod in ("weakform", "protocol", "exprs", "materials", "evaluators", "outputs", "effects", "tft", "dwr", "twospace", "estimate", "tables", "couplings", "measures", "helpers"):
        if not os.path.exists(os.path.join(HERE, "rules", mod + ".py")): continue
        m = importlib.import_module(mod)
        if prop in m.RULES: return report.main(prop, m.RULES[prop], tier)
    print("unknown property", prop); return 2
if __name__ == "__main__": sys.exit(main())
