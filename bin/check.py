#!/usr/bin/env python3
"""bin/check.py <property id> [--tier quick|thorough]: runs one property's check."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
from checks import registry


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    ctx = vlib.Ctx(pid, tier)
    try:
        registry.CHECKS[pid](ctx)
        return ctx.finish()
    except vlib.Crash as c:
        ctx.violation("the code under test crashed or hung: %s" % c.what, {"output": c.detail})
        return ctx.finish()
    except vlib.CheckError as e:
        if ctx.violations:
            print("later part of the check failed: %s" % e)
            return ctx.finish()
        print("CHECK ERROR: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        if ctx.violations:
            return ctx.finish()
        return 2


sys.exit(main())
