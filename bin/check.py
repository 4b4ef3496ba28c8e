#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]"""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]
        elif a[i] == "--seed": seed = int(a[i + 1])
        elif a[i] == "--replay": replay = a[i + 1]
        i += 2
    import props
    fn = props.CHECKS[prop]
    if replay:
        return props.replay(prop, replay, tier, seed)
    return vlib.run_check(prop, fn, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
