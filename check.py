#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   |   check.py --replay FILE [--log]"""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import runner, specs  # noqa


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        rp, r = runner.replay_file(a[1])
        if "--log" in a:
            print("\n".join(r.get("log") or []))
        if r.get("hang"):
            print("run does not end")
            hit = rp["class"] == "hang"
        else:
            for c, t in r.get("viol") or []:
                print(f"{c}: {t}")
            print("event log", "identical" if r.get("hash") == rp["hash"] else "differs", r.get("hash"), r.get("error", ""), r.get("tb", ""))
            hit = any(v[0] == rp["class"] for v in r.get("viol") or [])
        print("reproduced" if hit else "NOT reproduced")
        return 1 if hit else 0
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    return runner.check(prop, tier, seed, specs.SPECS)


if __name__ == "__main__":
    sys.exit(main())
