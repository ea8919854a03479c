"""Linearizability of per-name registry histories against the reference model.

Reference model of one name: a map version -> schema.
  post(s)      -> v = max+1 (1 if empty); map[v] = s
  put(v, s)    -> v if v not in map (map[v] = s), else conflict
  latest       -> (map[max], max) | none
  get(v)       -> (map[v], v)     | none
  versions     -> sorted keys     | none
  listed       -> whether there is any version (the name listing, seen per name)

An operation is a dict: id, kind, arg, res, start, end, plus
  maybe: the client does not know the outcome (crash, error answer, hang-up);
         it may take effect once between start and end, or not at all.
`split` additionally lets an operation of a concurrent writer choose its
version at one instant and publish at a later one (both within the call).
"""
from __future__ import annotations


class Budget(Exception):
    pass


def apply(op, state):
    """-> new state if `op` may take effect in `state` with its result, else None."""
    k = op["kind"]
    res = op.get("res")
    maybe = op.get("maybe")
    if k == "post":
        v = max(state) + 1 if state else 1
        if not maybe and res != ("ok", v):
            return None
        n = dict(state)
        n[v] = op["val"]
        return n
    if k == "put":
        v = op["ver"]
        if v in state:
            return state if (maybe or res == ("conflict",)) else None
        if not maybe and res != ("ok", v):
            return None
        n = dict(state)
        n[v] = op["val"]
        return n
    if maybe:
        return state
    if k == "latest":
        want = ("none",) if not state else ("ok", max(state), state[max(state)])
    elif k == "get":
        v = op["ver"]
        want = ("ok", v, state[v]) if v in state else ("none",)
    elif k == "versions":
        want = ("ok", tuple(sorted(state))) if state else ("none",)
    elif k == "listed":
        want = bool(state)
    else:
        raise ValueError(k)
    return state if res == want else None


def check(ops, init=None, budget=200000):
    """True iff the history is linearizable.  Raises Budget if undecided."""
    ops = [o for o in ops if not (o.get("maybe") and o["kind"] not in ("post", "put"))]
    n = len(ops)
    order = sorted(range(n), key=lambda i: ops[i]["start"])
    ops = [ops[i] for i in order]
    full_required = 0
    for i, o in enumerate(ops):
        if not o.get("maybe"):
            full_required |= 1 << i
    seen = set()
    cnt = [0]

    def key(state):
        return tuple(sorted(state.items()))

    def rec(done, state):
        if (done & full_required) == full_required:
            return True
        k = (done, key(state))
        if k in seen:
            return False
        seen.add(k)
        cnt[0] += 1
        if cnt[0] > budget:
            raise Budget()
        # earliest end among the not-yet-done required operations bounds candidates
        minend = min(o["end"] for i, o in enumerate(ops)
                     if not done >> i & 1 and not o.get("maybe"))
        for i, o in enumerate(ops):
            if done >> i & 1 or o["start"] > minend:
                continue
            ns = apply(o, state)
            if ns is None:
                continue
            if o.get("maybe") and not _fits(o, ops, done):
                continue
            if rec(done | 1 << i, ns):
                return True
        return False

    return rec(0, dict(init or {}))


def _fits(o, ops, done):
    """A maybe-op may only be placed now if no already placed op began after its end."""
    return not any(done >> j & 1 and p["start"] > o["end"] for j, p in enumerate(ops))


def check_split(ops, loose, init=None, budget=400000):
    """As check(), but the writers whose id is in `loose` take two steps: choose a
    version, publish it later.

    Models writers that overlap without mutual exclusion; nothing else is
    relaxed: non-overlapping operations remain strictly ordered, every read
    returns what is stored, every acknowledged schema is published."""
    ops = [o for o in ops if not (o.get("maybe") and o["kind"] not in ("post", "put"))]
    ops = sorted(ops, key=lambda o: o["start"])
    n = len(ops)
    seen = set()
    cnt = [0]

    def steps(o, st, state):
        """Possible (newst, newstate) moves of op o in private status st (None, ('c',v), 'done')."""
        k, maybe, res = o["kind"], o.get("maybe"), o.get("res")
        if k in ("post", "put") and o["id"] not in loose:
            ns = apply(o, state)
            if ns is not None:
                yield "done", ns
        elif k in ("post", "put"):
            if st is None:
                if k == "post":
                    v = max(state) + 1 if state else 1
                    if maybe or res == ("ok", v):
                        yield ("c", v), state
                else:
                    v = o["ver"]
                    if v in state:
                        if maybe or res == ("conflict",):
                            yield "done", state
                    elif maybe or res == ("ok", v):
                        yield ("c", v), state
            else:
                ns = dict(state)
                ns[st[1]] = o["val"]
                yield "done", ns
        elif k == "latest":
            # version from the listing, content read afterwards
            if st is None:
                if not state:
                    if res == ("none",):
                        yield "done", state
                elif res[0] == "ok" and res[1] == max(state):
                    yield ("c", max(state)), state
            else:
                if res == ("ok", st[1], state.get(st[1])):
                    yield "done", state
        else:
            if apply(o, state) is not None:
                yield "done", state

    def rec(sts, state):
        k = (sts, tuple(sorted(state.items())))
        if k in seen:
            return False
        seen.add(k)
        cnt[0] += 1
        if cnt[0] > budget:
            raise Budget()
        open_req = [o["end"] for o, s in zip(ops, sts) if s != "done" and not o.get("maybe")]
        if not open_req:
            return True
        minend = min(open_req)
        begun = max([p["start"] for q, p in zip(sts, ops) if q is not None], default=-1)
        for i, o in enumerate(ops):
            if sts[i] == "done" or o["start"] > minend:
                continue
            if o.get("maybe") and begun > o["end"]:
                continue
            for nst, ns in steps(o, sts[i], state):
                if rec(sts[:i] + (nst,) + sts[i + 1:], ns):
                    return True
        return False

    return rec((None,) * n, dict(init or {}))
