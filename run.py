#!/usr/bin/env python3
"""run.py <property> [quick|thorough]     decide one property on /repo's working tree
   run.py replay <file>                   run a replay file written by a violation

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Other: error."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from lib import core

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        return core.replay(sys.argv[2])
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        core.build_java()
        core.build_harness()
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = core.Ctx(pid, tier, seed)
    try:
        mod = importlib.import_module("checks." + pid)
        mod.run(ctx)
        return ctx.finish()
    except core.ToolError as e:
        print("ERROR: %s" % e)
        return 3
    finally:
        ctx.cleanup()

if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(4)
