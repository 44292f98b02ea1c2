#!/usr/bin/env python3
"""python3 checks/run.py <property>   (VERIF_SEED, VERIF_TIER)"""
import os, sys, traceback
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "lib"), os.path.join(ROOT, "checks")]
import vlib
def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"): os.environ["VERIF_TIER"] = sys.argv[2]
    import registry
    try: rc = registry.CHECKS[prop](vlib.Check(prop))
    except vlib.CheckError as e: print("ERROR of the check: %s" % e); rc = 2
    except Exception: traceback.print_exc(); rc = 2
    sys.exit(rc)
main()
