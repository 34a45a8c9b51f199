#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import os, sys, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf

def main():
    a = sys.argv[1:]
    if "--replay" in a:
        return vf.replay(a[a.index("--replay") + 1])
    prop = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    import plans
    try:
        return vf.Check(prop, tier, seed).run(plans.PLANS[prop])
    except vf.HarnessError as e:
        print("ERROR:", e)
        return 2

sys.exit(main())
