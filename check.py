#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current tree."""
import argparse, importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib, checks


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="check that the driver and the TLC extension build")
    ap.add_argument("--tier", default=None)
    a = ap.parse_args()
    if a.setup:
        c = vlib.Check("setup", a.tier)
        try:
            c.build()
            c.java()
        finally:
            c.close()
        return 0
    c = vlib.Check(a.prop, a.tier)
    try:
        getattr(checks, a.prop)(c)
        return c.finish()
    except vlib.CheckError as e:
        print("CHECK-ERROR", a.prop, e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        import shutil
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
