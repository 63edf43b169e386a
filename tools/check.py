#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on the tree in /repo. Exit 0 held, 1 violated, 2 no answer."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, plans


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    os.makedirs(lib.WORK, exist_ok=True)
    c = lib.Check(prop)
    try:
        try:
            plans.PLANS[prop](c)
        except lib.Broke as e:
            c.violation(str(e), str(e))
        code = c.finish()
    except lib.ToolError as e:
        print("no answer: %s" % e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        import shutil
        shutil.rmtree(c.dir, ignore_errors=True)
    sys.exit(code)


main()
