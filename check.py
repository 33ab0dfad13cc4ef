#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   |   check.py replay <file>   |   check.py setup"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from wsim import core, sim  # noqa: E402


def main():
    a = sys.argv[1:]
    if a[0] == "setup":
        sim.build(True)
        return 0
    if a[0] == "replay":
        return core.replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return core.check(a[0], tier, int(os.environ.get("VERIF_SEED", "1")))


if __name__ == "__main__":
    sys.exit(main())
