"""Deterministic simulator: scheduler, simulated clock, processes, fault points.

Real OS threads carry the code under test, but exactly one of them owns the
baton at any moment and every hand-over is decided here: from a seeded PRNG
while searching, from the recorded decisions while replaying.  A run is a pure
function of (plan, decisions, code).
"""
from __future__ import annotations

import _thread
import contextvars
import hashlib
import heapq
import random
import sys

_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_ident = _thread.get_ident


class SimCrash(BaseException):
    """The simulated process this code runs in has been killed."""


class SimAbort(BaseException):
    """The run is over; unwind."""


class HarnessError(Exception):
    """The simulator itself is wrong (never a verdict about the code)."""


RUNNABLE, BLOCKED, DONE = 0, 1, 2

# id of the client operation on whose behalf code runs (follows asyncio tasks
# and worker threads); fault points are numbered per operation, so that a
# recorded fault keeps its meaning when other operations are removed.
REQ: contextvars.ContextVar = contextvars.ContextVar("sim_req", default=None)

TASKS: dict[int, "Task"] = {}  # real thread ident -> Task (current carriers)
SIM: "Sim | None" = None


def cur() -> "Task | None":
    return TASKS.get(_real_ident())


class Task:
    __slots__ = (
        "sim", "label", "proc", "fn", "idx", "state", "go", "yields",
        "ident", "foreground", "exc", "done_cbs", "no_preempt", "timer_seq",
        "timed_out", "started", "wait_what", "opcount", "result", "muted",
    )

    def __init__(self, sim, label, fn, proc, foreground, ident=None):
        self.sim = sim
        self.label = label
        self.fn = fn
        self.proc = proc
        self.idx = len(sim.all_tasks)
        self.state = RUNNABLE
        self.go = _allocate()
        self.go.acquire()
        self.yields = 0
        self.ident = ident if ident is not None else 1000 + self.idx
        self.foreground = foreground
        self.exc = None
        self.result = None
        self.done_cbs = []
        self.no_preempt = 0
        self.timer_seq = 0
        self.timed_out = False
        self.started = False
        self.wait_what = None
        self.opcount = {}
        self.muted = 0


class SimProcess:
    """One simulated OS process: own module instances, pid, tasks; may be killed."""

    def __init__(self, sim, slot, incarnation):
        self.sim = sim
        self.slot = slot
        self.incarnation = incarnation
        self.label = f"{slot}.{incarnation}"
        self.pid = 4000 + len(sim.procs)
        self.ospid = sim.container_pid or self.pid    # in containers every server has the same pid
        self.dead = False
        self.modules = {}
        self.fscache = None
        self.tasks = []
        self.conns = []
        self.loop = None
        self.ready = False
        self.crash_seq = None
        self.on_kill = []
        sim.procs.append(self)

    def kill(self, why):
        if self.dead:
            return
        self.dead = True
        sim = self.sim
        self.crash_seq = sim.event(f"KILL {self.label} {why}")
        sim.count("fault", "process_crash")
        for t in self.tasks:
            if t.state == BLOCKED:
                sim._make_runnable(t)
        for cb in self.on_kill:
            cb()


class Sim:
    def __init__(self, seed, decisions=None, max_steps=60000, p_switch=0.25,
                 policy="random", line_preempt=False, keep_log=False):
        self.seed = seed
        self.replay = decisions is not None
        self.sched_dec = dict(decisions["sched"]) if decisions else {}
        self.fault_dec = dict(decisions["faults"]) if decisions else {}
        self.now = 0.0
        self.container_pid = None
        self.wall_skew = 0.0
        self.rng_sched = random.Random(f"{seed}/sched")
        self.rng_fault = random.Random(f"{seed}/fault")
        self.rng_misc = random.Random(f"{seed}/misc")
        self.p_switch = p_switch
        self.policy = policy
        self.prio = {}
        self.line_preempt = line_preempt
        self.p_line = 0.02
        self.max_steps = max_steps
        self.line_steps = 0
        self.steps = 0
        self.seq = 0
        self.all_tasks: list[Task] = []
        self.labels: dict[str, int] = {}
        self.runnable: list[Task] = []
        self.timers = []
        self.tseq = 0
        self.current: Task | None = None
        self.main_go = _allocate()
        self.main_go.acquire()
        self.foreground_left = 0
        self.procs: list[SimProcess] = []
        self.mod_owner: SimProcess | None = None
        self.outcome = None  # None | 'done' | 'stuck' | 'steps' | ('error', exc)
        self.aborting = False
        self.rec_sched: dict[str, str] = {}
        self.rec_faults: dict[str, object] = {}
        self.hash = hashlib.sha256()
        self.ihash = hashlib.sha256()  # interleaving: context switches only
        self.keep_log = keep_log
        self.log: list[str] = []
        self.counts: dict[str, dict[str, int]] = {}
        self.switches = 0
        self.fault_policy = None   # fn(key, site, path, task) -> decision | None
        self.violations: list[tuple[str, str]] = []
        self.escapes: list[str] = []
        self.mutations: list = []   # (request, site, path) of every change to watched files
        self.step_hooks = []
        self.scrub = None   # text replaced in events (scratch directory)

    # ---- bookkeeping -------------------------------------------------
    def count(self, group, name, n=1):
        g = self.counts.setdefault(group, {})
        g[name] = g.get(name, 0) + n

    def event(self, text):
        self.seq += 1
        if self.scrub is not None and self.scrub in text:
            text = text.replace(self.scrub, "@ROOT")
        line = f"{self.seq} {self.now:.6f} {self.current.label if self.current else '-'} {text}"
        self.hash.update(line.encode("utf-8", "backslashreplace") + b"\n")
        if self.keep_log:
            self.log.append(line)
        return self.seq

    def violation(self, cls, text):
        self.violations.append((cls, text))
        self.event(f"VIOLATION {cls} {text}")

    # ---- tasks -------------------------------------------------------
    def spawn(self, label, fn, proc=None, foreground=False, ident=None):
        n = self.labels.get(label, 0)
        self.labels[label] = n + 1
        if n:
            label = f"{label}~{n}"
        t = Task(self, label, fn, proc, foreground, ident)
        self.all_tasks.append(t)
        if foreground:
            self.foreground_left += 1
        if proc is not None:
            proc.tasks.append(t)
        self.runnable.append(t)
        if self.policy == "pct":
            self.prio[t.label] = self.rng_sched.random()
        _real_start(self._carrier, (t,))
        return t

    def _carrier(self, t: Task):
        t.go.acquire()
        ident = _real_ident()
        TASKS[ident] = t
        try:
            if self.aborting:
                return
            t.started = True
            if t.proc is not None and t.proc.dead:
                return
            t.result = t.fn()
        except SimCrash:
            pass
        except SimAbort:
            pass
        except BaseException as e:  # noqa
            t.exc = e
            if t.foreground and not self.aborting:
                self.outcome = ("error", e)
        finally:
            try:
                if not self.aborting:
                    for cb in t.done_cbs:
                        cb(t)
            except BaseException as e:  # noqa
                self.outcome = ("error", e)
            TASKS.pop(ident, None)
            self._finish(t)

    def _finish(self, t):
        t.state = DONE
        if t in self.runnable:
            self.runnable.remove(t)
        if self.aborting:
            self.main_go.release()
            return
        if t.foreground:
            self.foreground_left -= 1
        if self.outcome is not None or self.foreground_left == 0:
            if self.outcome is None:
                self.outcome = "done"
            self.current = None
            self.main_go.release()
            return
        self._dispatch_from(t)

    def _set_current(self, t):
        self.current = t
        p = t.proc
        if p is not None and p is not self.mod_owner:
            swap_modules(self, p)

    def _dispatch_from(self, t, finished=True):
        """Current task cannot continue: hand the baton to somebody."""
        nxt = self._pick_blocked(t)
        if nxt is None:
            self.outcome = "stuck"
            self.current = None
            self.main_go.release()
            return None
        self._hand(nxt)
        return nxt

    def _hand(self, nxt):
        self.switches += 1
        self.ihash.update(nxt.label.encode() + b";")
        self._set_current(nxt)
        nxt.go.release()

    def _pick_blocked(self, t):
        while not self.runnable:
            if not self._advance():
                return None
        c = self.runnable
        default = min(c, key=lambda x: x.idx)
        if len(c) == 1:
            return c[0]
        key = f"{t.label}#b{t.yields}"
        if self.replay:
            want = self.sched_dec.get(key)
            for x in c:
                if x.label == want:
                    self.rec_sched[key] = want
                    return x
            return default
        pick = self._policy_pick(c)
        if pick is not default:
            self.rec_sched[key] = pick.label
        return pick

    def _policy_pick(self, c):
        if self.policy == "pct":
            pr = self.prio
            return max(c, key=lambda x: (pr[x.label], -x.idx))
        cs = sorted(c, key=lambda x: x.idx)
        return cs[self.rng_sched.randrange(len(cs))]

    def _advance(self):
        """Jump the clock to the next timer; False if there is none."""
        while self.timers:
            at, seq, fn = heapq.heappop(self.timers)
            if at > self.now:
                self.now = at
            if fn():
                return True
        return False

    def _fire_due(self):
        while self.timers and self.timers[0][0] <= self.now:
            _, _, fn = heapq.heappop(self.timers)
            fn()

    def at(self, when, fn):
        """fn() -> bool (True if it made something runnable)."""
        self.tseq += 1
        heapq.heappush(self.timers, (when, self.tseq, fn))

    def _make_runnable(self, t):
        if t.state == BLOCKED:
            t.state = RUNNABLE
            t.timer_seq += 1
            self.runnable.append(t)
            return True
        return False

    wake = _make_runnable

    # ---- called by running tasks ------------------------------------
    def check_alive(self, t):
        if self.aborting:
            raise SimAbort()
        if t.proc is not None and t.proc.dead:
            raise SimCrash()

    def step(self, t, line=False):
        if line:
            # source lines: only a bound against loops that never end
            self.line_steps += 1
        else:
            self.steps += 1
        if (self.steps > self.max_steps or self.line_steps > 3000000) and self.outcome is None:
            self.outcome = "steps"
            self.current = None
            self.main_go.release()
            t.go.acquire()
            self.check_alive(t)

    def yield_point(self, dt=0.0001, p=None):
        t = cur()
        if t is None:
            return
        self.check_alive(t)
        if t.no_preempt:
            return
        self.now += dt
        self.step(t, p is not None)
        if self.timers and self.timers[0][0] <= self.now:
            self._fire_due()
        t.yields += 1
        c = self.runnable
        if len(c) <= 1:
            return
        key = f"{t.label}#{t.yields}"
        if self.replay:
            want = self.sched_dec.get(key)
            pick = None
            if want is not None:
                for x in c:
                    if x.label == want:
                        pick = x
                        break
            if pick is None or pick is t:
                return
            self.rec_sched[key] = want
        else:
            r = self.rng_sched
            if self.policy == "pct":
                if r.random() < (self.p_switch if p is None else p) * 0.3:
                    self.prio[t.label] = -r.random()
                pick = self._policy_pick(c)
                if pick is t:
                    return
            else:
                if r.random() >= (self.p_switch if p is None else p):
                    return
                others = sorted((x for x in c if x is not t), key=lambda x: x.idx)
                pick = others[r.randrange(len(others))]
            self.rec_sched[key] = pick.label
        self._hand(pick)
        t.go.acquire()
        self.check_alive(t)

    def block(self, what, timeout=None):
        """Block the current task until wake()d or timeout; True if woken."""
        t = cur()
        if t is None:
            raise HarnessError("block() outside a simulated task: " + what)
        self.check_alive(t)
        self.step(t)
        if t.no_preempt:
            raise HarnessError(f"blocking operation in a non-preemptible section: {what}")
        t.yields += 1
        t.state = BLOCKED
        t.wait_what = what
        t.timed_out = False
        self.runnable.remove(t)
        t.timer_seq += 1
        if timeout is not None:
            my = t.timer_seq

            def fire():
                if t.state == BLOCKED and t.timer_seq == my:
                    t.timed_out = True
                    self._make_runnable(t)
                    return True
                return False

            self.at(self.now + max(timeout, 0.0), fire)
        nxt = self._pick_blocked(t)
        if nxt is None:
            self.outcome = "stuck"
            self.current = None
            self.main_go.release()
            t.go.acquire()
        elif nxt is t:
            self._set_current(t)
        else:
            self._hand(nxt)
            t.go.acquire()
        t.wait_what = None
        self.check_alive(t)
        return not t.timed_out

    def sleep(self, d):
        end = self.now + max(d, 1e-6)
        while self.now < end - 1e-9:
            self.block("sleep", end - self.now)

    # ---- faults ------------------------------------------------------
    def fault(self, site, path=""):
        """Decide whether a fault fires at this seam operation."""
        t = cur()
        if t is None or t.no_preempt or t.muted:
            return None
        base = REQ.get() or t.label
        k = f"{base}@{site}"
        oc = self.opcounts
        n = oc.get(k, 0) + 1
        oc[k] = n
        key = f"{k}#{n}"
        if self.replay:
            d = self.fault_dec.get(key)
        elif self.fault_policy is not None:
            d = self.fault_policy(base, site, n, path, t)
        else:
            d = None
        if d is not None:
            self.rec_faults[key] = d
            kind = d["kind"]
            self.count("fault", f"{site}:{kind}")
            self.fault_log.append((self.seq, base, site, kind))
            self.event(f"FAULT {key} {kind}")
        return d

    # ---- top level ---------------------------------------------------
    def run(self):
        """Run until all foreground tasks are done.  Called from the main thread."""
        global SIM
        self.opcounts = getattr(self, "opcounts", {})
        self.fault_log = getattr(self, "fault_log", [])
        if not self.runnable:
            raise HarnessError("nothing to run")
        self.outcome = None
        first = min(self.runnable, key=lambda x: x.idx)
        self._set_current(first)
        first.go.release()
        self.main_go.acquire()
        out = self.outcome
        if isinstance(out, tuple):
            self.teardown()
            raise out[1]
        return out

    def teardown(self):
        self.aborting = True
        for t in list(self.all_tasks):
            if t.state != DONE:
                if t.state == BLOCKED:
                    t.state = RUNNABLE
                t.go.release()
                self.main_go.acquire()
        restore_modules(self)

    def decisions(self):
        return {"sched": dict(self.rec_sched), "faults": dict(self.rec_faults)}

    def stuck_report(self):
        return "; ".join(f"{t.label}:{t.wait_what}" for t in self.all_tasks
                         if t.state == BLOCKED)


# ---- module instances ------------------------------------------------
RECAP_NAMES: set[str] = set()  # filled by loader.py
FS_CLASSES: list = []  # fsspec file systems: their instance caches are per process


def swap_modules(sim, proc):
    mods = sys.modules
    old = {}
    for k in RECAP_NAMES:
        m = mods.pop(k, None)
        if m is not None:
            old[k] = m
    if sim.mod_owner is not None:
        sim.mod_owner.modules = old
        sim.mod_owner.fscache = [(c, c._cache) for c in FS_CLASSES]
    mods.update(proc.modules)
    for c, cache in proc.fscache or [(c, {}) for c in FS_CLASSES]:
        c._cache, c._pid = cache, proc.ospid
    sim.mod_owner = proc


def restore_modules(sim):
    for k in RECAP_NAMES:
        sys.modules.pop(k, None)
    for c in FS_CLASSES:
        c._cache = {}
    sim.mod_owner = None
