#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]   decide one property of /repo's current tree

exit 0: no obligation of the property is violated (undecided ones are listed in the evidence)
exit 1: with a line VIOLATION property=ID replay=FILE; FILE names the construct and the rule
"""
import argparse, json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import runner

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    sys.exit(runner.main(a.prop, "thorough" if a.tier == "thorough" else "quick", a.v))
