#!/usr/bin/env python3
"""Usage: run.py PROPERTY quick|thorough   (VERIF_SEED selects the random choices; default 1)"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core, checks


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx = core.Ctx(pid, tier, seed)
    try:
        fn = checks.CHECKS[pid]
        assumptions = fn(ctx) or ()
        return core.finish(ctx, assumptions)
    except core.Broken as e:
        print("BROKEN check of %s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
