#!/usr/bin/env python3
"""selftest.py: after the quick checks ran, every kind of fault a check is meant to inject was in fact injected.

A development aid (not registered in MANIFEST.json): a fault kind that silently stops being injected makes a
check weaker without making it fail.
"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NET = {"connect": ["refused", "timeout", "auth", "toomany", "down", "slow", "stall"], "query": ["reset", "timeout", "server", "denied", "slow"],
       "fetch": ["reset", "timeout"], "http": ["reset", "timeout", "s500", "s503", "s429", "s401", "s404html", "s503list", "s404doc",
                                               "s302", "truncated", "garbage", "empty"],
       "httpconn": ["refused", "timeout", "down"], "rpc": ["reset", "timeout", "eof", "server"],
       "sqlite": ["ioerr", "busy", "corrupt", "nomem"], "sqlite_open": ["cantopen"], "open_r": ["EIO", "EACCES", "EMFILE"],
       "read": ["EIO"], "listdir": ["EIO", "EACCES"]}
SOME = {k: v[:2] for k, v in NET.items()}
REG = {"read": ["EIO"], "write": ["EIO", "ENOSPC", "short"], "close": ["EIO"], "open_r": ["EIO"], "open_w": ["EIO", "ENOSPC"],
       "listdir": ["EIO"], "rename": ["EIO"], "mkdir": ["EIO"]}
CRASH = {"write": ["torn"], "rename": ["crash"], "open_w": ["crash"], "obj_put": ["crash"]}
OBJ = {"obj_put": ["oserror", "timeout"], "obj_get": ["oserror", "eof"], "obj_list": ["oserror", "throttle"]}
WANT = {"C06": [NET], "C07": [SOME], "C08": [NET], "C09": [SOME], "C10": [{"connect": ["stall"]}], "C11": [SOME],
        "C01": [CRASH], "C02": [{}], "C03": [REG, OBJ], "C04": [{}], "C05": [{}], "C12": [REG, OBJ], "C13": [REG, OBJ, CRASH]}
bad = 0
for p, wants in sorted(WANT.items()):
    try:
        with open(f"{HERE}/evidence/{p}.json") as f:
            got = json.load(f)["coverage"]["faults_injected"]
    except OSError:
        print(p, "no evidence")
        bad = 1
        continue
    miss = [f"{s}:{k}" for w in wants for s, ks in w.items() for k in ks if not got.get(f"{s}:{k}")]
    print(p, sum(got.values()), "faults of", len(got), "kinds", "MISSING " + " ".join(miss) if miss else "")
    bad |= bool(miss)
raise SystemExit(bad)
