#!/usr/bin/env python3
"""run.py ID: runs the check of one property. Exit 0 held, 1 violated, 2 the check itself failed."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402


def main():
    prop = sys.argv[1]
    import registry
    try:
        return registry.check(prop)
    except common.Crashed as e:
        # the code under test took the whole executor down or hung it: never on a tree that works
        return e.run.crashed(e)
    except common.ToolError as e:
        print("TOOL ERROR in %s: %s" % (prop, str(e)[:4000]), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
