#!/usr/bin/env python3
"""run.py <property id>: decides one property for /repo's working tree."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import checks


def main():
    prop = sys.argv[1]
    if prop == "setup":
        checks.setup()
        return
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx = vlib.Ctx(prop, "thorough" if tier == "thorough" else "quick", seed)
    try:
        getattr(checks, prop.lower())(ctx)
        rc = ctx.finish()
    except vlib.Stop:
        rc = ctx.finish()
    except vlib.CheckError as e:
        print("CHECK-ERROR %s: %s" % (prop, e))
        rc = 2
        if ctx.violations:
            rc = ctx.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
        if ctx.violations:
            rc = ctx.finish()
    vlib.prune_build()
    sys.exit(rc)


main()
