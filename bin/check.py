#!/usr/bin/env python3
"""check.py Pnn : decide one property. Exit 0, or exit 1 with a VIOLATION line."""
import importlib
import os
import sys
import traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.path.dirname(HERE), "lib"), os.path.join(os.path.dirname(HERE), "checks")]
sys.dont_write_bytecode = True
import vlib


def main():
    prop = sys.argv[1]
    ctx = vlib.Ctx(prop)
    try:
        importlib.import_module("c_" + prop.lower()).run(ctx)
        rc = ctx.finish()
    except vlib.MachineryError as x:
        if ctx.violations:
            print("note: after the violation above: %s" % str(x)[:2000])
            rc = ctx.finish()
        else:
            print("ERROR of the check itself: %s" % x)
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


main()
