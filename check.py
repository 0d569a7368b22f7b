#!/usr/bin/env python3
"""check.py PROPERTY: decide one property for the tree in /repo."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import checks
from vlib import Check, CheckError


def main():
    prop = sys.argv[1]
    c = Check(prop)
    try:
        checks.CHECKS[prop](c)
        rc = c.finish()
    except CheckError as e:
        print("CHECK-ERROR %s: %s" % (prop, e))
        rc = 2
        if c.violations:
            rc = c.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
        if c.violations:
            rc = c.finish()
    finally:
        c.close()
    sys.stdout.flush()
    os._exit(rc)


main()
