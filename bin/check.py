#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N]

Decides one property by deterministic simulation with fault injection.
Exit 0: held on everything explored. Exit 1: violated, with a line
"VIOLATION property=<id> replay=<path>". Exit 2: the check itself failed.
"""
import argparse
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import CheckError  # noqa: E402
import dsimcheck  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--runs", type=int, default=0)
    a = ap.parse_args()
    t0 = time.time()
    try:
        if a.property in dsimcheck.PROPS:
            return dsimcheck.check(a.property, a.tier, a.seed, a.runs, t0)
        if a.property in ("C12", "C13"):
            import tsimcheck
            return tsimcheck.check(a.property, a.tier, a.seed, a.runs, t0)
        if a.property == "C17":
            import variantcheck
            return variantcheck.check(a.property, a.tier, a.seed, a.runs, t0)
        raise CheckError("no check for " + a.property)
    except CheckError as e:
        print("ERROR property=%s %s" % (a.property, e))
        return 2


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
