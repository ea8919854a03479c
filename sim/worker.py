"""Worker process: runs plans given on stdin (JSON lines), answers on stdout."""
from __future__ import annotations

import json
import os
import sys
import time
import traceback

from . import env

GATEWAY = {"C06", "C07", "C08", "C09", "C10", "C11"}


def mod(prop):
    if prop in GATEWAY:
        from . import gwsim
        return gwsim
    from . import regsim
    return regsim


def summary(run, plan, wall, full):
    s = run.sim
    out = {
        "viol": s.violations[:5], "known": run.known[:3], "hash": s.hash.hexdigest()[:24],
        "ihash": s.ihash.hexdigest()[:16], "steps": s.steps, "switches": s.switches,
        "simtime": round(s.now, 3), "counts": s.counts, "nops": len(run.ops),
        "nfaults": len(s.fault_log) + sum(v for k, v in s.counts.get("fault", {}).items() if ":" not in k),
        "overlap": run.overlaps(), "wall": wall, "procs": len(s.procs),
    }
    if s.violations or full:
        out["decisions"] = s.decisions()
    if full == 2:
        out["log"] = s.log
    return out


def one(prop, msg):
    m = mod(prop)
    plan = msg.get("plan") or m.make_plan(prop, msg["seed"])
    t0 = time.process_time()
    run = m.run_plan(plan, msg.get("decisions"), keep_log=msg.get("full") == 2)
    out = summary(run, plan, time.process_time() - t0, msg.get("full"))
    if out["viol"] or msg.get("full"):
        out["plan"] = plan
    return out


def main():
    prop = sys.argv[1]
    out = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, "w")
    env.install(gateway=prop in GATEWAY)
    out.write(json.dumps({"ready": True}) + "\n")
    try:
        for line in sys.stdin:
            msg = json.loads(line)
            try:
                res = one(prop, msg)
            except BaseException as e:  # noqa
                res = {"error": f"{e!r}", "tb": traceback.format_exc()[-3000:]}
            res["i"] = msg.get("i")
            out.write(json.dumps(res) + "\n")
            out.flush()
            if "error" in res:
                break   # state unknown: the parent starts a new worker
    finally:
        env.cleanup()
    os._exit(0)


if __name__ == "__main__":
    main()
