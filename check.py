#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of /repo's working tree. See DESIGN.md."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vt.common import Ctx, CheckError, finish
from vt.registry import CHECKS

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed)
    try:
        for part in CHECKS[prop]: part(ctx)
    except CheckError as e:
        if ctx.violations: return finish(ctx, "model_checking")   # what was found stands
        print("CHECK ERROR:", e, flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    rc = finish(ctx, "model_checking")
    ctx.clean()
    return rc
sys.exit(main())
