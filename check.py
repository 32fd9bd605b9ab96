#!/usr/bin/env python3
"""usage: check.py PROPERTY [quick|thorough]

Decides one property on /repo's current working tree: model checks the TLA+ modules it belongs to, runs the real code,
and validates what it did against the specification. Exit 0: held on everything explored; exit 1: VIOLATION."""
import os, sys, threading
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from engine import Check, VERIF
import plans


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(prop, "thorough" if tier == "thorough" else "quick")
    rule, assumptions = plans.PLANS[prop](c)
    return c.finish(rule, assumptions)


if __name__ == "__main__":
    sys.exit(main())
