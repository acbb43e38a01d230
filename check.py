#!/usr/bin/env python3
"""check.py --property ID [--tier quick|thorough]: decide one property from /repo's current source."""
import argparse
import importlib
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "rules")]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--only", default=None)
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    import facts
    import ir
    import ctx as C
    t0 = time.time()
    try:
        mod = importlib.import_module(a.property.lower())
        prog = ir.Program()
        c = C.Ctx(a.property, prog, a.tier)
        mod.check(c)
        if a.tier == "thorough":
            import selftest
            selftest.run(c)
    except (C.Broken, facts.AnalysisError) as e:
        print("ERROR property=%s %s" % (a.property, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s analysis failed" % a.property)
        return 2
    if a.only:
        c.findings = {k: v for k, v in c.findings.items() if k == a.only}
    if a.list:
        for o in c.obs:
            print(*o, sep=" | ")
    return C.judge(c, time.time() - t0)


if __name__ == "__main__":
    sys.exit(main())
