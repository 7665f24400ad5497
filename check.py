#!/usr/bin/env python3
"""python3 check.py <property> [quick|thorough]"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib


def main():
    prop = sys.argv[1]
    mod = importlib.import_module("c_" + prop.lower())
    chk = vlib.Check(prop, getattr(mod, "LEVEL", "exploration"))
    try:
        return mod.run(chk)
    except vlib.CheckError as e:
        print("ERROR in check %s: %s" % (prop, e))
        chk.cleanup()
        return 2
    except Exception:
        traceback.print_exc()
        chk.cleanup()
        return 2


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
