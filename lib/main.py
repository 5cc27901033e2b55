import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import common, checks


def main():
    if len(sys.argv) != 2 or sys.argv[1] not in checks.CHECKS:
        print("usage: check <%s>" % "|".join(sorted(checks.CHECKS)))
        return 2
    try:
        return checks.run(sys.argv[1])
    except common.ToolError as e:
        print("ERROR (no verdict): %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
