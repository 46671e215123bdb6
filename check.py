#!/usr/bin/env python3
"""Run one property check.

check.py --property C01 [--tier quick|thorough] [--replay FILE]
"""
import argparse
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=("quick", "thorough"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:        # build what the recorded run built
        with open(a.replay) as f:
            seed = json.load(f).get("run_seed", seed)
    os.environ["VERIF_SEED"] = str(seed)
    from vlib import registry
    return registry.run(a.property, a.tier, seed, a.replay)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
