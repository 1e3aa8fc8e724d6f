#!/usr/bin/env python3
"""check.py <property-id> [quick|thorough]: decide one property on /repo's
current working tree by static analysis."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import core, facts
from rules import registry


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    meta, fn = registry.get(prop)
    try:
        return core.run(prop, meta, fn, tier)
    except facts.FactsError as e:
        print("cannot extract facts: %s" % e)
        return 2


sys.exit(main())
