#!/usr/bin/env python3
"""usage: check.py ID [--tier quick|thorough]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("property")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = a.parse_args()
    from catalog import scenarios
    from claims import meta
    from symkit.runner import check_property
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = 400 if a.tier == "quick" else 6000
    limits = {"budget_s": budget, "scenario_s": 120 if a.tier == "quick" else 1200}
    return check_property(a.property, scenarios(a.property, a.tier), a.tier, seed, limits, meta(a.property))


if __name__ == "__main__":
    sys.exit(main())
