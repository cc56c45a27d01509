#!/usr/bin/env python3
"""check.py <property> quick|thorough"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

def main():
    prop, tier = sys.argv[1], sys.argv[2]
    mod = importlib.import_module("p_" + prop.lower())
    chk = vlib.Check(prop, tier, getattr(mod, "LEVEL", "model_checking"))
    try:
        mod.run(chk)
        rc = chk.finish()
    except vlib.CheckError as e:
        if chk.violations:   # what was found before the machinery failed still counts
            sys.exit(chk.finish())
        print("CHECK-ERROR property=%s %s" % (prop, e), flush=True)
        sys.exit(2)
    sys.exit(rc)

if __name__ == "__main__":
    main()
