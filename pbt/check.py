#!/usr/bin/env python3-vt
"""check.py P01 [quick|thorough]   decide one property
   check.py replay P01 FILE        run a saved case three times"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine, props


def main():
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if sys.argv[1] == "replay":
        c = props.CHECKS[sys.argv[2]]
        (c.build or engine.build)()
        with open(sys.argv[3]) as f:
            text = f.read()
        vs = engine.confirm(c, text)
        for v in vs:
            print(v)
        sys.exit(1 if all(v.kind == "fail" for v in vs) else 0)
    c = props.CHECKS[sys.argv[1]]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    engine.main(c, tier, seed, c.build)


main()
