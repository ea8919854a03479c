"""Seeded search over simulated runs: workers, minimiser, replay, evidence."""
from __future__ import annotations

import copy
import json
import os
import selectors
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RECAP_REPO", "/repo")
PY = "/opt/venv/bin/python"
HANG_CPU = 90.0      # CPU seconds without an answer: the run does not end
HANG_WALL = 400.0


class Worker:
    def __init__(self, prop, base, n, hashseed="0"):
        self.prop = prop
        env = dict(os.environ, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1",
                   RECAP_SIM_BASE=os.path.join(base, f"w{n}"), RECAP_REPO=REPO, TZ="UTC", LC_ALL="C.UTF-8")
        os.makedirs(env["RECAP_SIM_BASE"], exist_ok=True)
        self.err = open(os.path.join(base, f"w{n}.err"), "w+b")
        self.p = subprocess.Popen([PY, "-m", "sim.worker", prop], cwd=HERE, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err)
        self.buf = b""
        self.job = None
        self.since = time.monotonic()
        self.cpu0 = 0.0
        self.ready = False

    def cpu(self):
        try:
            with open(f"/proc/{self.p.pid}/stat") as f:
                x = f.read().rsplit(")", 1)[1].split()
            return (int(x[11]) + int(x[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError):
            return 0.0

    def send(self, msg):
        self.job = msg
        self.since = time.monotonic()
        self.cpu0 = self.cpu()
        self.p.stdin.write(json.dumps(msg).encode() + b"\n")
        self.p.stdin.flush()

    def hung(self):
        return self.job is not None and (self.cpu() - self.cpu0 > HANG_CPU or time.monotonic() - self.since > HANG_WALL)

    def lines(self):
        """Non-blocking after select: complete lines; None at EOF."""
        data = os.read(self.p.stdout.fileno(), 1 << 20)
        if not data:
            return None
        self.buf += data
        *ls, self.buf = self.buf.split(b"\n")
        return [json.loads(x) for x in ls if x]

    def call(self, msg):
        """Blocking call; {'hang':True} / {'died':..}."""
        sel = selectors.DefaultSelector()
        sel.register(self.p.stdout, selectors.EVENT_READ)
        sent = self.ready
        if sent:
            self.send(msg)
        t0 = time.monotonic()
        while True:
            ev = sel.select(1.0)
            if ev:
                ls = self.lines()
                if ls is None:
                    return {"died": self.stderr()}
                for m in ls:
                    if m.get("ready"):
                        self.ready = True
                        self.send(msg)
                        sent = True
                    else:
                        self.job = None
                        return m
            if sent and self.hung():
                self.kill()
                return {"hang": True}
            if not sent and time.monotonic() - t0 > 300:
                return {"died": "worker does not start"}

    def stderr(self):
        try:
            self.err.seek(0)
            return self.err.read()[-3000:].decode("utf-8", "replace")
        except Exception:
            return ""

    def kill(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            self.kill()
        self.err.close()


class Pool:
    """Runs jobs on n workers, calling back with (job, result)."""

    def __init__(self, prop, base, n, hashseed="0"):
        self.prop, self.base, self.n, self.hs = prop, base, n, hashseed
        self.k = 0
        self.ws = []

    def spawn(self):
        w = Worker(self.prop, self.base, f"{self.hs}-{self.k}", self.hs)
        self.k += 1
        return w

    def run(self, jobs, on_result, stop):
        jobs = iter(jobs)
        sel = selectors.DefaultSelector()
        live = {}

        def add():
            w = self.spawn()
            sel.register(w.p.stdout, selectors.EVENT_READ, w)
            live[w] = True

        def drop(w):
            sel.unregister(w.p.stdout)
            live.pop(w, None)

        def feed(w):
            if stop():
                drop(w)
                w.close()
                return
            try:
                j = next(jobs)
            except StopIteration:
                drop(w)
                w.close()
                return
            w.send(j)

        for _ in range(self.n):
            add()
        fails = 0
        while live:
            for key, _ in sel.select(0.5):
                w = key.data
                ls = w.lines()
                if ls is None:
                    job = w.job
                    drop(w)
                    err = w.stderr()
                    w.kill()
                    fails += 1
                    if job is not None:
                        on_result(job, {"died": err})
                    if fails < 20 and not stop():
                        add()
                    elif not live:
                        break
                    continue
                for m in ls:
                    if m.get("ready"):
                        w.ready = True
                        feed(w)
                    else:
                        job, w.job = w.job, None
                        on_result(job, m)
                        if "error" not in m:
                            feed(w)
            for w in list(live):
                if w.hung():
                    job = w.job
                    drop(w)
                    w.kill()
                    on_result(job, {"hang": True})
                    if not stop():
                        add()
                elif stop() and w.job is None and w.ready:
                    drop(w)
                    w.close()
            if stop() == "now":
                for w in list(live):
                    drop(w)
                    w.kill()


# ------------------------------------------------------------ minimiser
class Minimiser:
    def __init__(self, prop, base, cls, deadline):
        self.prop, self.base, self.cls, self.deadline = prop, base, cls, deadline
        self.w = None
        self.k = 0
        self.trials = 0

    def call(self, msg):
        if self.w is None:
            self.w = Worker(self.prop, self.base, f"min{self.k}")
            self.k += 1
        r = self.w.call(msg)
        if "viol" not in r:
            self.w.kill()
            self.w = None
        return r

    def bad(self, plan, dec):
        self.trials += 1
        r = self.call({"plan": plan, "decisions": dec, "full": 1})
        if any(v[0] == self.cls for v in r.get("viol") or ()):
            return r
        return None

    def late(self):
        return time.monotonic() > self.deadline

    def shrink(self, plan, dec):
        best = self.bad(plan, dec)
        if best is None:
            return None
        dec = best["decisions"]
        changed = True
        while changed and not self.late():
            changed = False
            for name, cand in self.candidates(plan):
                if self.late():
                    break
                r = self.bad(cand, dec)
                if r is not None:
                    plan, dec, best, changed = cand, r["decisions"], r, True
                    break
            if changed:
                continue
            for part in ("faults", "sched"):
                keys = list(dec[part])
                size = max(1, len(keys) // 2)
                while keys and not self.late():
                    i = 0
                    hit = False
                    while i < len(keys) and not self.late():
                        cut = set(keys[i:i + size])
                        d2 = {**dec, part: {k: v for k, v in dec[part].items() if k not in cut}}
                        r = self.bad(plan, d2)
                        if r is not None:
                            dec, best, hit = r["decisions"], r, True
                            keys = [k for k in keys if k in dec[part]]
                            changed = changed or size > 1 or part == "faults"
                        else:
                            i += size
                    if size == 1 and not hit:
                        break
                    if size == 1 and hit:
                        continue
                    size = max(1, size // 2)
        return plan, dec, best

    def candidates(self, plan):
        cl = plan["clients"]
        for i in range(len(cl)):
            if len(cl) > 1:
                c = copy.deepcopy(plan)
                del c["clients"][i]
                yield f"client {i}", c
        for i in range(len(cl)):
            for j in reversed(range(len(cl[i]["ops"]))):
                c = copy.deepcopy(plan)
                del c["clients"][i]["ops"][j]
                yield f"op {i}.{j}", c
        for lst in ("actors",):
            for i in range(len(plan.get(lst) or ())):
                c = copy.deepcopy(plan)
                del c[lst][i]
                yield f"{lst} {i}", c
                for j in reversed(range(len(plan[lst][i].get("ops") or ()))):
                    c = copy.deepcopy(plan)
                    del c[lst][i]["ops"][j]
                    yield f"{lst} {i}.{j}", c
        used = {o.get("up") for x in cl for o in x["ops"]} | {"ref"} if "ups" in plan else set()
        for i, u in enumerate(plan.get("ups") or ()):
            if u["id"] not in used and plan["prop"] != "C09":
                c = copy.deepcopy(plan)
                del c["ups"][i]
                c["actors"] = [a for a in c["actors"] if a["up"] != u["id"]]
                yield "upstream", c
            for k in ("down", "stalls"):
                if u.get(k):
                    c = copy.deepcopy(plan)
                    del c["ups"][i][k]
                    yield k, c
        for i, x in enumerate(cl):
            for j, op in enumerate(x["ops"]):
                for m in reversed(range(len(op.get("more") or ()))):
                    c = copy.deepcopy(plan)
                    del c["clients"][i]["ops"][j]["more"][m]
                    yield "more", c
        cfg = plan["cfg"]
        for k, v in (("kills", []), ("final_restart", False), ("line", False), ("bufsize", 8192)):
            if k in cfg and cfg[k] != v:
                c = copy.deepcopy(plan)
                c["cfg"][k] = v
                yield k, c
        for i, x in enumerate(cl):
            for j, op in enumerate(x["ops"]):
                if op.get("chunks") and len(op["chunks"]) > 1:
                    c = copy.deepcopy(plan)
                    o = c["clients"][i]["ops"][j]
                    o["chunks"] = [sum(o["chunks"])]
                    o["gaps"] = [0]
                    yield "chunks", c
                if op.get("pre"):
                    c = copy.deepcopy(plan)
                    c["clients"][i]["ops"][j]["pre"] = 0
                    yield "pre", c

    def close(self):
        if self.w is not None:
            self.w.close()


# --------------------------------------------------------------- checks
def load_findings():
    p = os.path.join(HERE, "known_findings.json")
    with open(p) as f:
        return json.load(f)


def replay_file(path, verbose=True):
    """Reproduce a replay file; returns the result."""
    with open(path) as f:
        rp = json.load(f)
    base = tempfile.mkdtemp(prefix="recap-sim-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        w = Worker(rp["property"], base, "replay")
        msg = {"plan": rp["plan"], "full": 2}
        if rp.get("decisions") is not None:
            msg["decisions"] = rp["decisions"]
        r = w.call(msg)
        w.close()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return rp, r


def write_replay(prop, cls, text, plan, dec, hash_, seed, note=""):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    n = 0
    while os.path.exists(os.path.join(d, f"{prop}-{cls}-{n}.json")):
        n += 1
    path = os.path.join(d, f"{prop}-{cls}-{n}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "class": cls, "violation": text, "seed": seed, "hash": hash_,
                   "plan": plan, "decisions": dec, "note": note,
                   "reproduce": f"{PY} /verif/check.py --replay {path}"}, f, indent=1)
    return path


def check(prop, tier, seed, info):
    t0 = time.monotonic()
    spec = info[prop]
    quick = tier == "quick"
    budget = spec["quick_s"] if quick else spec["thorough_s"]
    if os.environ.get("VERIF_BUDGET_S"):
        budget = float(os.environ["VERIF_BUDGET_S"])
    nw = min(8, os.cpu_count() or 1)
    base = tempfile.mkdtemp(prefix="recap-sim-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    st = {"runs": 0, "steps": 0, "switches": 0, "simtime": 0.0, "ops": 0, "faults": {}, "probes": {}, "nontrivial": set(),
          "ihash": set(), "errors": [], "viol": [], "known": {}, "hang": [], "samples": [], "overlap": 0, "faulted": 0,
          "crashes": 0}
    firsts = {}
    deadline = t0 + budget

    def stop():
        if st["viol"] or st["hang"]:
            return "now"
        if len(st["errors"]) > 10:
            return "now"
        return time.monotonic() > deadline

    def on_result(job, r):
        if "hang" in r:
            st["hang"].append(job)
            return
        if "viol" not in r:
            st["errors"].append((job.get("seed"), r.get("error"), r.get("tb") or r.get("died")))
            return
        st["runs"] += 1
        st["steps"] += r["steps"]
        st["switches"] += r["switches"]
        st["simtime"] += r["simtime"]
        st["ops"] += r["nops"]
        for k, n in r["counts"].get("fault", {}).items():
            st["faults"][k] = st["faults"].get(k, 0) + n
        for k, n in r["counts"].get("probe", {}).items():
            st["probes"][k] = st["probes"].get(k, 0) + n
        st["ihash"].add(r["ihash"])
        if r["overlap"]:
            st["overlap"] += 1
        if r["nfaults"]:
            st["faulted"] += 1
        if r["nops"] >= 2 and (r["overlap"] or r["nfaults"] or r.get("nontrivial")):
            st["nontrivial"].add(r["hash"])
        for k, text in r["known"]:
            st["known"].setdefault(k, (job.get("seed"), text))
        if 0 <= job["i"] < 12:
            firsts[job["i"]] = (job, r)
        if r["viol"]:
            st["viol"].append((job, r))

    canned = list(spec.get("canned", []))

    def jobs():
        i = 0
        for c in canned:
            yield {"i": -1, "seed": c["seed"], "full": 0}
        while True:
            yield {"i": i, "seed": f"{seed}.{i}", "full": 1 if i < 12 else 0}
            i += 1

    code = 0
    lines = []
    det = {"replayed": 0, "same": 0}
    try:
        pool = Pool(prop, base, nw)
        pool.run(jobs(), on_result, stop)
        search_s = time.monotonic() - t0
        if st["viol"] or st["hang"]:
            code, lines = report(prop, base, st, seed, quick)
        elif not st["runs"] or len(st["errors"]) > max(3, st["runs"] // 200):
            code = 2
        else:
            # determinism: the first runs again, replayed from their recorded
            # decisions, in other processes with another hash seed
            todo = [firsts[i] for i in sorted(firsts)][:8 if quick else 12]

            def on2(job, r):
                det["replayed"] += 1
                if r.get("hash") == job["want"]:
                    det["same"] += 1

            def jobs2():
                for job, r in todo:
                    yield {"i": 0, "plan": r["plan"], "decisions": r["decisions"], "want": r["hash"]}

            Pool(prop, base, min(nw, 4), hashseed="77").run(jobs2(), on2, lambda: False)
        for i in sorted(firsts)[:3]:
            job, r = firsts[i]
            st["samples"].append({"seed": job["seed"], "cfg": r["plan"]["cfg"],
                                  "clients": [[brief(o) for o in c["ops"]] for c in r["plan"]["clients"]],
                                  "faults": r["decisions"]["faults"], "preemptions": len(r["decisions"]["sched"]),
                                  "event_log_hash": r["hash"], "steps": r["steps"], "simulated_s": r["simtime"]})
    finally:
        shutil.rmtree(base, ignore_errors=True)
    known = [k for k in load_findings()["known"] if k["property"] == prop]
    unlisted = [k for k in st["known"] if k not in {x["class"] for x in known}]
    if unlisted and code == 0:
        k = unlisted[0]
        path = write_replay(prop, k, st["known"][k][1], None, None, None, st["known"][k][0])
        lines.append(f"VIOLATION property={prop} replay={path}")
        code = 1
    for k in known:
        if k["class"] in st["known"]:
            lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    wall = time.monotonic() - t0
    ev = {
        "property": prop, "tier": tier, "seed": int(seed) if str(seed).lstrip("-").isdigit() else 0,
        "level": "exploration",
        "coverage": {
            "evaluations": st["runs"], "distinct_nontrivial": len(st["nontrivial"]), "rule": spec["rule"],
            "samples": st["samples"], "simulated_runs_per_hour": int(st["runs"] / max(search_wall(wall, locals()), 1e-9) * 3600),
            "seeds": f"{prop}/{seed}.0 .. {prop}/{seed}.{max(st['runs'] - 1, 0)}", "client_operations": st["ops"],
            "simulated_seconds": round(st["simtime"], 1), "scheduler_steps": st["steps"],
            "context_switches": st["switches"], "distinct_interleavings": len(st["ihash"]),
            "interleaving_measure": "hash of the sequence of tasks given the processor, one per run",
            "runs_with_overlapping_operations": st["overlap"], "runs_with_faults": st["faulted"],
            "faults_injected": dict(sorted(st["faults"].items())), "probes": dict(sorted(st["probes"].items())),
            "determinism_selftest": det, "harness_errors": len(st["errors"]),
            "real_components": spec["real"], "stubbed_components": spec["stub"],
            "known_findings_seen": sorted(st["known"]),
        },
        "assumptions": spec["assumptions"], "wall_s": round(wall, 2), "violations": len(st["viol"]) + len(st["hang"]),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for e in st["errors"][:3]:
        print(f"harness error, seed {e[0]}: {e[1]}\n{e[2]}", file=sys.stderr)
    for ln in lines:
        print(ln)
    print(f"{prop} {tier}: {st['runs']} simulated runs ({st['simtime']:.0f} simulated s, {st['steps']} steps, "
          f"{sum(st['faults'].values())} faults) in {wall:.1f} s; exit {code}")
    return code


def search_wall(wall, loc):
    return loc.get("search_s", wall)


def brief(o):
    o = dict(o)
    if "body" in o:
        o["body"] = o["body"][:80]
    return {k: v for k, v in o.items() if k not in ("gaps",)}


def report(prop, base, st, seed, quick):
    """Minimise, write the replay file, confirm it in a fresh process."""
    lines = []
    if st["viol"]:
        job, r = min(st["viol"], key=lambda x: (len(x[1]["viol"]) == 0, x[1]["steps"]))
        cls, text = r["viol"][0]
        m = Minimiser(prop, base, cls, time.monotonic() + (90 if quick else 300))
        res = m.shrink(r["plan"], r["decisions"])
        trials = m.trials
        m.close()
        tries = []
        if res is not None:
            plan, dec, best = res
            t2 = [v for v in best["viol"] if v[0] == cls][0][1]
            tries.append((t2, plan, dec, best["hash"], f"minimised in {trials} runs"))
        tries.append((text, r["plan"], r["decisions"], r["hash"], "not minimised"))
        tries.append((text, r["plan"], None, r["hash"], "seed replay: decisions from the seed"))
        for t2, plan, dec, h, note in tries:
            path = write_replay(prop, cls, t2, plan, dec, h, job["seed"], note)
            _, rr = replay_file(path)
            if any(v[0] == cls for v in rr.get("viol") or ()):
                same = rr["hash"] == h
                lines.append(f"violation ({cls}): {t2[:1500]}")
                lines.append(f"seed {job['seed']}; {note}; replayed in a fresh process: "
                             f"{'identical event log' if same else 'same violation'}")
                lines.append(f"VIOLATION property={prop} replay={path}")
                return 1, lines
            os.remove(path)
        lines.append(f"harness error: violation {cls} of seed {job['seed']} does not reproduce: {text[:500]}")
        return 2, lines
    job = st["hang"][0]
    w = Worker(prop, base, "hang")
    r = w.call({k: v for k, v in job.items()})
    w.kill()
    if "hang" in r:
        plan = job.get("plan")
        if plan is None:
            plan = make_plan(prop, job["seed"])
        path = write_replay(prop, "hang", f"the run does not end ({HANG_CPU} s of processor time in one step)", plan, None, None, job["seed"])
        lines.append(f"violation (hang): code spins without end, seed {job['seed']}")
        lines.append(f"VIOLATION property={prop} replay={path}")
        return 1, lines
    lines.append(f"harness error: seed {job['seed']} hung once, not again")
    return 2, lines


def make_plan(prop, seed):
    code = ("import sys,json; sys.path.insert(0, %r)\nfrom sim.worker import mod\n"
            "print(json.dumps(mod(%r).make_plan(%r, %r)))" % (HERE, prop, prop, seed))
    return json.loads(subprocess.run([PY, "-c", code], capture_output=True, text=True, check=True,
                                     env=dict(os.environ, PYTHONHASHSEED="0")).stdout)
