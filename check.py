#!/usr/bin/env python3
"""check.py <property id>: decides one property from the source of /repo."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    from sa import props
    from sa.repo import AnalysisBroken
    try:
        rc = props.run(pid, os.environ.get("VERIF_TIER", "quick"))
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        rc = 3
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
