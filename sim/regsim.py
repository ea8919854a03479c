"""Registry simulation: plans, execution and oracles for C01-C05 (and part of C10)."""
from __future__ import annotations

import base64
import json
import os
import random
from urllib.parse import quote, quote_plus, unquote_plus

from . import asgi, canon, core, env, lin, loader, seams
from .core import REQ, Sim, SimProcess, cur, HarnessError

# ---------------------------------------------------------------- plans
PLAIN = ["alpha", "beta", "gamma"]
ODD = [
    "..", ".", "...", "a.b", "a/b", "a%2Fb", "a b", "a+b", "a%20b", "größe", "日本", "x\u0301",
    "versions", "1", "1.json", "a.json", "~", "~root", "-", "*", "a*b", "[ab]", "a?b", "#x", "a&b=c",
    "C:\\x", "con", "a'b", 'a"b', "{x}", "$HOME", "\U0001f600", ".hidden", "..a", "a..", "%", "%25",
    "A", "a", "&", ";", "a:b", "@", "x" * 60, "file://x", "..%2f", "%2e%2e", "tab\tx", "new\nline", "__init__",
]
# names that a careless comparison or encoding takes for one another
ALIKE = [
    ["\u00e9", "e\u0301", "e"], ["a", " a", "a ", "a\t"], ["\u00c5", "\u212b", "A\u030a"], ["\ufb01", "fi"], ["n" * 240 + "1", "n" * 240 + "2"],
    ["m" * 100, "m" * 101], ["\u00df", "ss", "SS"], ["\u0130", "i", "I", "\u0131"], ["a.json", "a", "a.JSON"], ["a+b", "a b", "a%20b", "a%2Bb"],
    ["%61", "a", "A"], ["x.tmp", "x"], ["a\u200b", "a"], ["1", "01", "\uff11"], ["k", "K", "\u212a"], ["a\x00", "a"],
    ["\U0001f600", "\U0001f601"], ["..", ".", "..."], ["a.", "a", "a.."], ["a\\b", "a/b", "a_b", "a-b"], ["None", "null", "none"],
    ["\u65e5" * 28, "\u65e5" * 27 + "\u672c"], ["a/b", "a%2Fb", "a%2fb"], ["v/1", "v"], ["Order", "order", "ORDER"], [".", "%2E", "%2e"],
    ["a\nb", "a b", "ab"], ["_a", "a", "a_"], ["a,b", "a;b", "a:b"], ["~a", "a~", "a"], [".a", "a"], ["a'", "a", 'a"'],
]


def chunks(rng, n):
    """Split n bytes of body into chunk sizes."""
    k = rng.random()
    if k < 0.5 or n == 0:
        return [n]
    if k < 0.6:
        return [0, n]
    out, left = [], n
    parts = rng.randrange(2, 6)
    while left > 0 and len(out) < parts - 1:
        c = rng.randrange(0, left + 1)
        out.append(c)
        left -= c
    out.append(left)
    return out


BAD = [
    b'{"type": "int"}', b"{not json", b"[", b'{"type": "struct", "fields": [', b"42", b"null", b"true",
    b'{"typ": "int32"}', b'{"type": "int", "bits": 0}', b'{"type": "int", "bits": 2147483648}',
    b'{"type": "list"}', b'{"type": "map", "keys": "int32"}', b'{"type": "enum"}', b'{"type": "union"}',
    b'{"type": "string", "variable": false}', b'{"type": "string", "bytes": 0}',
    b'{"type": "int", "bits": 32, "alias": "nodots"}', b'{"type": 3}', b'{}', b"", b"\xff\xfe\x00", b'"\xc3\x28"',
    b'{"type": "int", "bits": 32, "default": NaN}', b'{"type": "int", "bits": 32, "low": -Infinity}',
    b'{"type": "float", "bits": 64, "default": 1e999}', b'{"type": "int", "bits": 32, "doc": "\\ud800"}',
    b'{"type": "struct", "fields": [{"type": "int", "bits": 8, "alias": "a.B"}, {"type": "int", "bits": 9, "alias": "a.B"}]}',
    b'{"type": "list", "values": "int32", "length": 0}', b'{"type": "int", "bits": "x"}', b"no such type",
    b'{"type": "int", "bits": 32, "doc": "caf\xe9"}', b'{"type": "int", "bits": 32, "doc": "\xed\xa0\x80"}',
    b'{"type": "struct", "doc": "a\xc3", "fields": []}', '{"type": "int", "bits": 32}'.encode("utf-16"), b'\xff{"type": "int", "bits": 32}',
    b'{"type": ["null", 5]}', b'[null]', b'{"type": [true]}', b'{"type": "struct", "fields": {"a": "int32"}}', b'{"type": "struct", "fields": "ab"}',
    b'{"type": "union", "types": {"int32": 1}}', b'{"type": "union", "types": "null"}', b'{"type": "union", "types": null}',
    b'{"type": "list", "values": null}', b'{"type": "map", "keys": "string", "values": 1}', b'{"type": "struct", "fields": [[1]]}',
    b'{"type": "int", "bits": 32} trailing', b'{"type": "int", "bits": 32',
]


PLAINTYPES = ["string", "bool", "bytes", "null"] + sorted(canon.BUILTIN)


class PlanGen:
    def __init__(self, prop, seed):
        self.rng = random.Random(f"{prop}/{seed}/plan")
        self.prop, self.seed = prop, seed
        self.tag = 0

    def payload(self, rich):
        self.tag += 1
        s = canon.schema(self.rng, f"t{self.tag}", rich)
        r = self.rng
        txt = json.dumps(s, ensure_ascii=r.random() < 0.5)
        return txt

    def store(self, opid, name, kind, rich, big=False):
        r = self.rng
        txt = self.payload(rich)
        if big:
            d = json.loads(txt)
            d["pad"] = "p" * r.choice([300, 3000, 20000])
            txt = json.dumps(d)
        op = {"id": opid, "kind": kind, "name": name, "body": txt}
        n = len(txt.encode())
        if rich and r.random() < 0.06:
            # types without a struct: a union, or an alias as JSON or by itself
            op["body"] = txt = r.choice(['["null", "int32"]', '["string", "int64", "bool"]'] + ['"%s"' % b for b in PLAINTYPES])
            raw = txt.encode()
            if txt[0] == '"' and txt != '"null"' and r.random() < 0.6:
                raw = txt.strip('"').encode()
                op["raw"] = base64.b64encode(raw).decode()
            n = len(raw)
        op["chunks"] = chunks(r, n)
        op["gaps"] = [r.choice([0, 0, 0.001, 0.01, 0.5]) for _ in op["chunks"]]
        if r.random() < 0.3:
            op["ctype"] = None
        return op

    def build(self):
        r, prop = self.rng, self.prop
        cfg = {
            "backend": "local", "bufsize": r.choice([16, 64, 512, 8192, 8192]),
            "p_switch": r.choice([0.05, 0.15, 0.3, 0.5]), "policy": r.choice(["random", "random", "pct"]),
            "line": False, "slots": ["p0"], "api": [], "final_restart": r.random() < 0.5,
            "restart_delay": r.choice([0.01, 0.5, 5.0]),
        }
        faults = None
        rich = False
        nclients = r.randrange(1, 4)
        nops = r.randrange(2, 7)
        names = PLAIN[: r.choice([1, 1, 2, 3])]
        mix = {"post": 5, "put": 3, "latest": 3, "get": 3, "versions": 2, "ls": 1}
        bad = 0.0
        abort = 0.0
        if prop == "C01":
            cfg["backend"] = r.choice(["local"] * 5 + ["obj", "objcache"])
            faults = {"budget": r.choice([1, 1, 2, 3]), "p": r.choice([0.02, 0.06, 0.15]), "crash": True,
                      "err": False, "only": r.choice(["any", "any", "mut", "write"])}
            cfg["kills"] = [round(r.uniform(0.001, 3), 4) for _ in range(r.choice([0, 0, 1, 2]))]
            mix = {"post": 6, "put": 4, "latest": 2, "get": 2, "versions": 1, "ls": 1}
            cfg["line"] = r.random() < 0.15
            rich = r.random() < 0.2
            if r.random() < 0.25:
                cfg["api"] = ["a0"]
        elif prop == "C02":
            nclients = r.randrange(2, 6)
            nops = r.randrange(1, 5)
            mix = r.choice([
                {"post": 4, "put": 5, "latest": 2, "get": 2, "versions": 1, "ls": 1},
                {"put": 6, "get": 2}, {"post": 6, "latest": 2, "versions": 1}, {"post": 3, "put": 3}])
            abort = r.choice([0, 0, 0.15])
            cfg["backend"] = r.choice(["local", "local", "local", "obj", "objcache"])
            cfg["line"] = r.random() < 0.15
            bad = r.choice([0, 0.1])
        elif prop == "C03":
            cfg["backend"] = r.choice(["local", "local", "local", "obj", "objcache"])
            faults = {"budget": r.choice([1, 1, 2, 4]), "p": r.choice([0.03, 0.08, 0.2]), "crash": False,
                      "err": True, "only": r.choice(["any", "any", "mut", "read"])}
            nclients = r.choice([1, 1, 2, 3])
            nops = r.randrange(3, 8)
            if r.random() < 0.25:
                cfg["api"] = ["a0"]
            rich = r.random() < 0.2
        elif prop == "C04":
            cfg["backend"] = r.choice(["local", "local", "obj", "objcache", "objnames"])
            rich = r.random() < 0.8
            nclients = r.choice([1, 1, 2])
            nops = r.randrange(3, 8)
            k = r.random()
            if k < 0.5:
                names = r.sample(ODD, r.randrange(1, 5)) + PLAIN[: r.randrange(2)]
            elif k < 0.8:
                names = list(r.choice(ALIKE))
            bad = r.choice([0, 0.3, 0.6])
            abort = r.choice([0, 0.2])
            if r.random() < 0.3:
                cfg["api"] = ["a0"]
        elif prop == "C05":
            cfg["backend"] = r.choice(["local", "local", "obj", "objcache", "objcache"])
            cfg["slots"] = ["p0", "p1", "p2"][: r.choice([1, 2, 2, 3])]
            if r.random() < 0.4:
                cfg["api"] = ["a0", "a1"][: r.randrange(1, 3)]
            cfg["serial"] = r.random() < 0.6   # clients take turns: nothing overlaps
            nclients = r.randrange(2, 5)
            nops = r.randrange(2, 5)
            names = PLAIN[: r.choice([1, 1, 2, 3])]
            mix["ls"] = r.choice([1, 3])
            cfg["kills"] = [round(r.uniform(0.001, 3), 4) for _ in range(r.choice([0, 0, 1]))]
            cfg["line"] = r.random() < 0.15
        elif prop == "C12":
            # the same thing goes wrong again and again: what a request leaves behind adds up
            cfg["backend"] = r.choice(["local", "local", "local", "obj", "objcache"])
            faults = {"budget": r.choice([4, 8, 12]), "p": r.choice([0.05, 0.1, 0.2]), "crash": False, "err": True,
                      "only": r.choice(["any", "mut", "mut", "write", "read"]), "sticky": r.choice([0.3, 0.7, 0.9])}
            nclients = r.choice([1, 1, 2, 3])
            nops = r.randrange(6, 14)
            names = PLAIN[: r.choice([1, 1, 2])] if r.random() < 0.8 else r.sample(ODD, 2)
            mix = r.choice([{"post": 6, "put": 4, "latest": 2, "get": 2, "versions": 1, "ls": 1}, {"post": 6, "put": 6, "latest": 1},
                            {"post": 2, "put": 2, "latest": 3, "get": 4, "versions": 2, "ls": 2}])
            bad = r.choice([0, 0.2, 0.4])
            abort = r.choice([0, 0.2, 0.4])
            if r.random() < 0.25:
                cfg["api"] = ["a0"]
            rich = r.random() < 0.2
        elif prop == "C13":
            cfg["backend"] = r.choice(["local", "local", "obj", "objcache", "objnames"])
            cfg["slots"] = ["p0", "p1"][: r.choice([1, 1, 2])]
            if r.random() < 0.4:
                cfg["api"] = ["a0"]
            cfg["serial"] = len(cfg["slots"]) > 1
            rich = r.random() < 0.6
            k = r.random()
            pool = PLAIN + ["a b", "db.table", "größe", "x-1"]
            names = (r.sample(ODD, r.randrange(1, 4)) + PLAIN[: r.randrange(2)] if k < 0.4 else list(r.choice(ALIKE)) if k < 0.6
                     else r.sample(pool, r.randrange(1, 4)))
            names = [n for n in names if n not in (".", "..") and "\x00" not in n] or ["alpha"]
            nops = r.randrange(2, 7)
            cfg["kills"] = [round(r.uniform(0.001, 3), 4) for _ in range(r.choice([0, 0, 1, 2]))]
            if r.random() < 0.4:
                faults = {"budget": r.choice([1, 2]), "p": 0.05, "crash": r.random() < 0.5, "err": False, "only": r.choice(["any", "read", "mut"])}
                faults["err"] = not faults["crash"]
            old = cfg["legacy"] = []
            for n in names:
                if r.random() < 0.85:
                    vs = r.choice([[1], [1, 2], [1, 2, 3], [2], [1, 5], [3, 10], [9, 10, 11], [1, 100], [7, 2**31], [0, 1], list(range(1, 13))])
                    old.append([n, [[v, self.payload(rich)] for v in r.sample(vs, len(vs))]])
        if prop in ("C01", "C02", "C03", "C05") and r.random() < 0.06:
            # a name with a long history
            cfg["preload"] = [r.choice(names), r.choice([9, 10, 12, 25, 99, 100, 120])]
        if cfg["backend"] == "objcache":
            cfg["inv"] = r.choice(["parents", "exact"])
        # how the storage is named: with a slash at the end, a whole bucket, by a path
        cfg["tail"] = "/" if r.random() < 0.15 else ""
        if cfg["backend"] == "local" and r.random() < 0.1:
            cfg["default"] = True
        if cfg["backend"] != "local" and r.random() < 0.2:
            cfg["whole"] = True
        if r.random() < 0.3:
            cfg["apitail"] = r.choice(["", "/"])
        if cfg["backend"] == "local" and r.random() < 0.15:
            cfg["apipath"] = True
        if cfg["api"] and prop != "C05":
            cfg["serial"] = True   # overlapping writers in several threads: see C05
        total = 0
        clients = []
        for ci in range(nclients):
            slot = r.choice(cfg["slots"])
            pin = r.random() < 0.6
            use_api = bool(cfg["api"]) and r.random() < 0.5
            ops = []
            for oi in range(nops):
                if total >= 22:
                    break
                total += 1
                oid = f"c{ci}.{oi}"
                name = r.choice(names)
                kinds = list(mix)
                kind = r.choices(kinds, [mix[k] for k in kinds])[0]
                api = use_api and r.random() < 0.8
                if not api and "/" in name:
                    name = PLAIN[0] if not cfg["api"] else name
                    api = bool(cfg["api"])
                if api and kind == "put":
                    kind = "post"
                if kind in ("post", "put"):
                    op = self.store(oid, name, kind, rich, big=(prop in ("C01", "C03") and r.random() < 0.2))
                    if kind == "put":
                        op["ver"] = r.choice([1, 1, 2, 2, 3, 5, 0, 10, 2**31, 10**20]) if r.random() < 0.7 else r.randrange(1, 5)
                    k = r.random()
                    if not api and k < bad:
                        if r.random() < 0.15:
                            op["ctype"] = r.choice(["application/json", "text/plain", "application/avro+json"])
                        elif r.random() < 0.5:
                            raw = op["body"].encode()
                            raw = raw[: r.randrange(1, len(raw))]
                            op["raw"] = base64.b64encode(raw).decode()
                            op["chunks"] = chunks(r, len(raw))
                        else:
                            raw = r.choice(BAD)
                            op["raw"] = base64.b64encode(raw).decode()
                            op["chunks"] = chunks(r, len(raw))
                        op["gaps"] = [0] * len(op["chunks"])
                        op["bad"] = True
                        if r.random() < 0.3:
                            op["name"] = "never stored"
                    elif not api and k < bad + abort:
                        # hang up after that many chunks (len = after the whole body)
                        op["abort"] = r.randrange(0, len(op["chunks"]) + 1)
                else:
                    op = {"id": oid, "kind": kind, "name": name}
                    if kind == "get":
                        op["ver"] = r.choice([1, 1, 2, 2, 3, 4, 0, 10, 99])
                if api:
                    op["api"] = r.choice(cfg["api"])
                op["slot"] = slot if pin else r.choice(cfg["slots"])
                op["pre"] = r.choice([0, 0, 0, 0.001, 0.05, 1.0])
                ops.append(op)
            clients.append({"id": f"c{ci}", "ops": ops})
        if prop == "C05" and len(cfg["slots"]) + len(cfg["api"]) > 1 and r.random() < 0.35:
            clients = [self.relay(cfg, names)]
        elif prop == "C05" and len(cfg["slots"]) + len(cfg["api"]) > 1 and r.random() < 0.25:
            cfg["serial"] = False
            clients = self.together(cfg, names)
        if r.random() < 0.25:
            cfg["pid"] = 7
        if r.random() < 0.25:
            self.same(clients, r.choice([0.4, 0.8]))
        return {"prop": prop, "seed": self.seed, "kind": "reg", "cfg": cfg, "faults": faults, "clients": clients}

    def same(self, clients, p):
        """The same schema stored more than once, under one name or several."""
        r = self.rng
        stores = [o for c in clients for o in c["ops"] if o["kind"] in ("post", "put") and not {"bad", "abort", "raw"} & set(o)]
        if len(stores) < 2:
            return
        bodies = [o["body"] for o in r.sample(stores, r.choice([1, 1, 2]) if len(stores) > 2 else 1)]
        for o in stores:
            if r.random() < p:
                o["body"] = r.choice(bodies)
                o["chunks"] = chunks(r, len(o["body"].encode()))
                o["gaps"] = [0] * len(o["chunks"]) if not any(o["gaps"]) else [r.choice([0, 0, 0.001, 0.01, 0.5]) for _ in o["chunks"]]

    def together(self, cfg, names):
        """Rounds in which every process stores at the same moment, in one name or several, then somebody looks."""
        r = self.rng
        where = [{"slot": x} for x in cfg["slots"]] + [{"slot": cfg["slots"][0], "api": a} for a in cfg["api"]]
        if cfg["api"] and r.random() < 0.5:
            where.append(where[-1])     # two threads of a process
        out = []
        rounds = r.randrange(1, 4)
        one = r.random() < 0.6
        for i, w in enumerate(where):
            ops = []
            for j in range(rounds):
                name = names[0] if one else r.choice(names)
                if j and r.random() < 0.2:
                    op = {"kind": r.choice(["ls", "latest", "versions"]), "name": name}
                else:
                    op = self.store("x", name, "post" if "api" in w or r.random() < 0.7 else "put", False)
                    op["gaps"] = [0] * len(op["chunks"])
                    if op["kind"] == "put":
                        op["ver"] = r.choice([1, 2, 3])
                ops.append({**op, "id": f"c{i}.{j}", "pre": 1.0, **w})
            out.append({"id": f"c{i}", "ops": ops})
        return out

    def relay(self, cfg, names):
        """One process looks, another one stores, the first one looks again (or stores itself)."""
        r = self.rng
        ops = []

        def at(op):
            op["id"] = f"c0.{len(ops)}"
            op["pre"] = r.choice([0, 0, 0.001, 0.05])
            ops.append(op)

        where = [{"slot": x} for x in cfg["slots"]] + [{"slot": cfg["slots"][0], "api": a} for a in cfg["api"]]
        for _ in range(r.randrange(2, 6)):
            a, b = r.sample(where, 2)
            name = r.choice(names)
            kind = r.choice(["ls", "ls", "latest", "versions", "get"])
            look = {"kind": kind, "name": name, **a}
            if kind == "get":
                look["ver"] = r.choice([1, 2, 3, 4])
            at(dict(look))
            st = self.store("x", name, "post" if "api" in b or r.random() < 0.7 else "put", False)
            if st["kind"] == "put":
                st["ver"] = r.choice([1, 2, 3, 5, 9, 10])
            at({**st, **b})
            at(dict(look))
            if r.random() < 0.4:
                at({**self.store("x", name, "post", False), **a})
        return {"id": "c0", "ops": ops}


# --------------------------------------------------------------- faults
ERRS = ["EIO", "ENOSPC", "EACCES", "EDQUOT", "EROFS", "EMFILE", "ESTALE", "ETIMEDOUT", "ENOMEM"]
BY_SITE = {
    "read": ["EIO", "ESTALE", "ETIMEDOUT", "ENOMEM"], "write": ["EIO", "ENOSPC", "EDQUOT", "ESTALE"],
    "close": ["EIO", "ENOSPC", "EDQUOT"], "open_r": ["EIO", "EACCES", "EMFILE", "ESTALE", "ENOMEM", "ETIMEDOUT"],
    "open_w": ["EIO", "EACCES", "EMFILE", "EROFS", "ENOSPC", "EDQUOT"],
    "mkdir": ["EIO", "EACCES", "EROFS", "ENOSPC", "EDQUOT"], "listdir": ["EIO", "EACCES", "EMFILE", "ESTALE", "ETIMEDOUT"],
    "rename": ["EIO", "EACCES", "ENOSPC", "EROFS", "ESTALE"], "stat": ["EIO", "EACCES", "ESTALE"],
    "link": ["EIO", "EACCES", "ENOSPC", "EROFS"], "unlink": ["EIO", "EACCES", "EROFS"],
    "fsync": ["EIO", "ENOSPC"], "truncate": ["EIO", "ENOSPC"], "meta": ["EIO", "EACCES"], "rmdir": ["EIO"],
}
MUT = {"write", "close", "open_w", "mkdir", "rename", "link", "unlink", "obj_put", "truncate", "fsync"}
OBJ = ["oserror", "timeout", "denied", "sdk", "throttle"]
BENIGN = {"short", "stall"}


def fault_policy(sim, spec, active):
    st = {"left": spec["budget"]}
    rng = sim.rng_fault
    only = spec["only"]
    hot = set()

    def policy(base, site, n, path, t):
        if st["left"] <= 0 or not active() or t.proc is None:
            return None
        if site not in BY_SITE and not site.startswith("obj_"):
            return None
        if only == "mut" and site not in MUT:
            return None
        if only == "read" and site in MUT:
            return None
        if only == "write" and site not in ("write", "close", "rename", "link", "obj_put"):
            return None
        r = rng.random()
        if spec["err"] and r > 0.97 and site in ("read", "write"):
            return {"kind": "short", "arg": rng.choice([1, 3, 10])}
        if spec["err"] and r > 0.94 and site in ("read", "obj_get") and only != "mut":
            st["left"] -= 1
            return {"kind": "eof", "arg": rng.choice([0.0, 0.3, 0.7])}
        p = spec["p"] * (3 if only in ("write", "read") else 2 if only == "mut" else 1)
        if site in hot:
            p = spec["sticky"]
        if r >= p:
            return None
        st["left"] -= 1
        if spec.get("sticky"):
            hot.add(site)
        if spec["crash"]:
            if site == "write" and rng.random() < 0.6:
                return {"kind": "torn", "arg": rng.choice([0.0, 0.2, 0.5, 0.9, 1.0])}
            return {"kind": "crash", "when": rng.choice(["before", "after"])}
        if site.startswith("obj_"):
            d = {"kind": rng.choice(OBJ)}
            if site == "obj_put" and rng.random() < 0.3:
                d["ambig"] = True
            return d
        d = {"kind": rng.choice(BY_SITE[site])}
        if site == "write" and rng.random() < 0.6:
            d["partial"] = True
            d["arg"] = rng.choice([0.0, 0.3, 0.7])
        return d

    return policy


# ------------------------------------------------------------ execution
class RegRun:
    def __init__(self, plan, decisions=None, keep_log=False):
        self.plan = plan
        cfg = plan["cfg"]
        self.cfg = cfg
        self.sim = Sim(f"{plan['prop']}/{plan['seed']}", decisions, p_switch=cfg["p_switch"],
                       policy=cfg["policy"], line_preempt=cfg["line"], keep_log=keep_log,
                       max_steps=40000)
        self.sim.container_pid = cfg.get("pid")
        self.ops = []
        self.vals = {}
        self.valrepr = []
        self.slots = {}
        self.incs = {}
        self.apis = {}
        self.faults_on = True
        self.turn = 0
        self.known = []

    # values
    def val(self, payload):
        k = json.dumps(canon.canon(payload), sort_keys=True)
        if k not in self.vals:
            self.vals[k] = len(self.vals)
            self.valrepr.append(payload)
        return self.vals[k]

    def val_of_read(self, payload):
        try:
            k = json.dumps(canon.canon(payload), sort_keys=True)
        except Exception as e:
            return f"unreadable:{e!r}:{str(payload)[:80]}"
        return self.vals.get(k, f"unknown:{json.dumps(payload)[:200]}")

    # processes
    def boot(self, slot):
        n = self.incs.get(slot, 0) + 1
        self.incs[slot] = n
        p = asgi.boot(self.sim, slot, n)
        p.on_kill.append(lambda: self.schedule_restart(slot))
        self.slots[slot] = p
        return p

    def boot_api(self, slot):
        n = self.incs.get(slot, 0) + 1
        self.incs[slot] = n
        p = SimProcess(self.sim, slot, n)
        p.ready = True
        p.storage = {}
        p.on_kill.append(lambda: self.schedule_restart(slot, True))
        self.slots[slot] = p
        return p

    def schedule_restart(self, slot, api=False):
        def fn():
            if api:
                self.boot_api(slot)
            else:
                self.boot(slot)
            self.sim.count("fault", "process_restart")
            return True
        self.sim.at(self.sim.now + self.cfg["restart_delay"], fn)

    def alive(self, slot, tries=200):
        for _ in range(tries):
            p = self.slots[slot]
            if p.ready and not p.dead:
                return p
            self.sim.sleep(0.1)
        return None

    # one operation
    def do(self, op):
        sim = self.sim
        if op.get("pre"):
            sim.sleep(op["pre"])
        rec = {"id": op["id"], "kind": op["kind"], "name": op.get("name"), "ver": op.get("ver"),
               "bad": op.get("bad", False)}
        if op["kind"] in ("post", "put") and not op.get("bad"):
            rec["val"] = self.val(json.loads(op["body"]))
        if op.get("api"):
            self.do_api(op, rec)
        else:
            self.do_http(op, rec)
        if rec.get("res") == "refused":
            return
        self.ops.append(rec)

    def do_http(self, op, rec):
        sim = self.sim
        proc = self.alive(op["slot"])
        if proc is None:
            sim.violation("unavailable", f"{op['id']}: server {op['slot']} does not come up")
            rec["res"] = "refused"
            return
        kind = op["kind"]
        name = op.get("name")
        qn = quote(name, safe="") if name is not None else None
        # dots and unreserved characters may or may not be escaped by clients
        if name in (".", ".."):
            qn = name.replace(".", "%2e")
        if kind == "ls":
            method, path = "GET", "/registry/"
        elif kind == "latest":
            method, path = "GET", f"/registry/{qn}"
        elif kind == "versions":
            method, path = "GET", f"/registry/{qn}/versions"
        elif kind == "get":
            method, path = "GET", f"/registry/{qn}/versions/{op['ver']}"
        elif kind == "post":
            method, path = "POST", f"/registry/{qn}"
        else:
            method, path = "PUT", f"/registry/{qn}/versions/{op['ver']}"
        headers = []
        body = b""
        if kind in ("post", "put"):
            ct = op.get("ctype", "application/x-recap+json")
            if ct:
                headers.append(("content-type", ct))
            body = base64.b64decode(op["raw"]) if "raw" in op else op["body"].encode()
        rec["proc"] = proc.label
        rec["start"] = sim.event(f"INV {op['id']} {method} {path}")
        c = asgi.request(proc, op["id"], method, path, headers, raw_path=path.encode(), length=len(body) if kind in ("post", "put") else None)
        if c is None:
            rec["res"] = "refused"
            return
        sizes = op.get("chunks") or [len(body)]
        gaps = op.get("gaps") or [0] * len(sizes)
        pos = 0
        aborted = False
        for i, n in enumerate(sizes):
            if "abort" in op and op["abort"] == i:
                aborted = True
                break
            g = gaps[i] if i < len(gaps) else 0
            if g:
                asgi.wait(c, g)
                if c.complete or c.reset:
                    break
            sim.yield_point()
            asgi.push(c, body[pos:pos + n], i + 1 < len(sizes))
            pos += n
        if "abort" in op and not c.complete:
            aborted = True
        if aborted and not c.complete and not c.reset:
            sim.yield_point()
            full = c.sent_all
            asgi.hangup(c)
            sim.count("fault", "client_disconnect")
            st = asgi.wait(c, 1000.0, until=lambda: c.app_done)
            if st == "timeout":
                sim.violation("stuck", f"{op['id']}: request of a vanished client never ends")
            rec["end"] = proc.crash_seq if c.reset else sim.event(f"GONE {op['id']} full={full}")
            if full:
                rec["maybe"] = True
                rec["why"] = "hangup"
                rec["had"] = c.status
            else:
                rec["noeffect"] = True
            return
        st = asgi.wait(c, 1000.0)
        if st == "reset":
            rec["end"] = proc.crash_seq
            rec["maybe"] = True
            rec["why"] = "crash"
            sim.event(f"RST {op['id']}")
            return
        if st == "timeout":
            rec["end"] = sim.event(f"TMO {op['id']}")
            sim.violation("stuck", f"{op['id']} {method} {path}: no answer within 1000 simulated seconds")
            rec["maybe"] = True
            return
        rec["status"] = c.status
        rec["end"] = sim.event(f"RET {op['id']} {c.status} {c.body[:200]!r}")
        self.classify(op, rec, c.status, c.body)

    def classify(self, op, rec, status, body):
        kind = op["kind"]
        rec["text"] = body[:300].decode("utf-8", "replace")
        if status >= 500:
            rec["maybe"] = True
            rec["error"] = True
            return
        if rec["bad"]:
            if 200 <= status < 300:
                self.sim.violation("accepted-malformed", f"{op['id']}: malformed body accepted with {status}: "
                                   f"{base64.b64decode(op['raw'])[:100] if 'raw' in op else op.get('ctype')!r}")
            if status == 409 and kind == "put":
                rec["res"] = ("conflict",)
            else:
                rec["noeffect"] = True
            return
        if status == 200:
            try:
                data = json.loads(body)
            except ValueError:
                self.sim.violation("garbled", f"{op['id']}: 200 with a body that is not JSON: {body[:100]!r}")
                rec["maybe"] = True
                return
            self.result(rec, kind, data)
        elif status == 409 and kind == "put":
            rec["res"] = ("conflict",)
        elif status == 404 and kind in ("latest", "get", "versions"):
            rec["res"] = ("none",)
        else:
            rec["maybe"] = True
            rec["oddstatus"] = status

    def result(self, rec, kind, data):
        sim = self.sim
        if kind in ("post", "put"):
            rec["res"] = ("ok", data)
        elif kind in ("latest", "get"):
            if not (isinstance(data, (list, tuple)) and len(data) == 2):
                sim.violation("garbled", f"{rec['id']}: read returned {str(data)[:200]}")
                rec["maybe"] = True
                return
            rec["res"] = ("ok", data[1], self.val_of_read(data[0]))
        elif kind == "versions":
            if not isinstance(data, list):
                sim.violation("garbled", f"{rec['id']}: versions returned {str(data)[:200]}")
                rec["maybe"] = True
                return
            rec["res"] = ("ok", tuple(data))
        else:
            rec["res"] = ("ok", data)

    def do_api(self, op, rec):
        sim = self.sim
        proc = self.alive(op["api"])
        if proc is None:
            rec["res"] = "refused"
            return
        me = cur()
        kind, name = op["kind"], op.get("name")
        rec["proc"] = proc.label
        rec["api"] = True
        rec["start"] = sim.event(f"INV {op['id']} api {kind} {name!r} {op.get('ver')}")
        url, args = self.url, self.url_args
        if self.cfg.get("apipath"):
            url = self.store_dir
        if "apitail" in self.cfg:
            url = url.rstrip("/") + self.cfg["apitail"]
        out = {}

        def body():
            REQ.set(op["id"])
            try:
                from recap.storage.registry import RegistryStorage
                from recap.types import from_dict, to_dict
                key = op["id"].split(".")[0] if self.cfg.get("api_shared") is False else "s"
                st = proc.storage.get(key)
                if st is None:
                    st = RegistryStorage(url, **args)
                    proc.storage[key] = st
                if kind == "post":
                    out["r"] = st.put(name, from_dict(json.loads(op["body"])))
                elif kind == "latest":
                    r = st.get(name)
                    out["r"] = None if r is None else [to_dict(r[0]), r[1]]
                elif kind == "get":
                    r = st.get(name, op["ver"])
                    out["r"] = None if r is None else [to_dict(r[0]), r[1]]
                elif kind == "versions":
                    r = st.versions(name)
                    out["r"] = r or None
                elif kind == "ls":
                    out["r"] = st.ls()
                out["ok"] = True
            except Exception as e:
                out["exc"] = e

        t = sim.spawn(f"{proc.label}.{op['id']}", body, proc=proc)
        t.done_cbs.append(lambda _: sim.wake(me))
        while t.state != core.DONE and not proc.dead and not out.get("ok") and "exc" not in out:
            if not sim.block(f"api {op['id']}", 1000.0) and t.state != core.DONE:
                sim.violation("stuck", f"{op['id']}: API call does not return")
                break
        if proc.dead and "ok" not in out and "exc" not in out:
            rec["maybe"] = True
            rec["why"] = "crash"
            rec["end"] = proc.crash_seq
            return
        if "exc" in out:
            rec["end"] = sim.event(f"RET {op['id']} raised {out['exc']!r:.160}")
            rec["maybe"] = True
            rec["error"] = True
            rec["text"] = repr(out["exc"])[:300]
            return
        if "ok" not in out:
            rec["maybe"] = True
            rec["end"] = sim.seq
            return
        r = out["r"]
        rec["end"] = sim.event(f"RET {op['id']} {json.dumps(r)[:200]}")
        if r is None:
            rec["res"] = ("none",)
        else:
            self.result(rec, kind, r)

    def overlaps(self):
        """Number of pairs of operations that were in progress at the same time."""
        iv = sorted((o["start"], o["end"]) for o in self.ops if "start" in o and o.get("end"))
        n = 0
        for i, (a, b) in enumerate(iv):
            for c, d in iv[i + 1:]:
                if c >= b:
                    break
                n += 1
        return n

    def preload(self, name, n):
        self.faults_on = False
        for i in range(n):
            body = json.dumps({"type": "struct", "doc": f"old {i}", "fields": []})
            self.do({"id": f"old.{i}", "kind": "post", "name": name, "body": body, "slot": self.cfg["slots"][0]})
        self.faults_on = True
        self.sim.event("PRELOADED")

    def client(self, c):
        while self.loading:
            self.sim.sleep(0.01)
        for op in c["ops"]:
            if self.cfg.get("serial"):
                me = cur()
                while self.busy:
                    self.waiters.append(me)
                    self.sim.block("turn")
                self.busy = True
            try:
                self.do(op)
            finally:
                if self.cfg.get("serial"):
                    self.busy = False
                    ws, self.waiters = self.waiters, []
                    for w in ws:
                        self.sim.wake(w)
            self.sim.yield_point()

    # whole run
    def setup(self):
        sim, cfg = self.sim, self.cfg
        root = env.fresh_scratch()
        seams.SCRATCH["root"] = root
        # without RECAP_REGISTRY_STORAGE_URL, the schemas are in RECAP_HOME
        store = root + ("/home/schemas" if cfg.get("default") else "/data/store")
        os.makedirs(root + "/data")
        os.makedirs(root + "/home")
        # things next to the storage root that no request may read or touch
        for p in ("data/1.json", "data/2.json", "1.json"):
            with open(f"{root}/{p}", "w") as f:
                f.write('{"type": "struct", "doc": "CANARY"}')
        seams.SCRATCH["watch"] = (store,)
        seams.BUFSIZE["n"] = cfg["bufsize"]
        os.environ["RECAP_HOME"] = root + "/home"
        os.environ.pop("RECAP_SECRETS", None)
        self.store_dir = store
        b = cfg["backend"]
        self.objroot = "bucket" if cfg.get("whole") else "bucket/reg"
        can = "bucket2" if cfg.get("whole") else "bucket"
        sim.objstore = {f"{can}/1.json": b'{"type": "struct", "doc": "CANARY"}',
                        f"{can}/reg2/x/1.json": b'{"type": "struct", "doc": "CANARY"}'}
        self.objcanary = dict(sim.objstore)
        sim.objopen = []
        self.url_args = {}
        if b == "local":
            self.url = f"file://{store}" + cfg.get("tail", "")
        else:
            self.url = ("simobjn" if b == "objnames" else "simobj") + "://" + self.objroot + cfg.get("tail", "")
            if b == "objcache":
                self.url_args = {"cache": True, "inv": cfg.get("inv", "parents")}
        for i, (n, vs) in enumerate(cfg.get("legacy") or []):
            for j, (v, body) in enumerate(vs):
                self.legacy(n, v, json.loads(body), -100000 + 200 * i + 2 * j)
        os.environ["RECAP_REGISTRY_STORAGE_URL"] = self.url
        os.environ["RECAP_REGISTRY_STORAGE_URL_ARGS"] = json.dumps(self.url_args)
        if cfg.get("default"):
            del os.environ["RECAP_REGISTRY_STORAGE_URL"], os.environ["RECAP_REGISTRY_STORAGE_URL_ARGS"]
        self.busy = False
        self.waiters = []

    def legacy(self, name, ver, payload, seq):
        """A version as every earlier release wrote it: ROOT/quote_plus(NAME)/VERSION.json."""
        data = json.dumps(payload)
        if self.cfg["backend"] == "local":
            d = f"{self.store_dir}/{quote_plus(name)}"
            os.makedirs(d, exist_ok=True)
            with open(f"{d}/{ver}.json", "w") as f:
                f.write(data)
        else:
            self.sim.objstore[f"{self.objroot}/{quote_plus(name)}/{ver}.json"] = data.encode()
        self.ops.append({"id": f"old.{seq}", "kind": "put", "name": name, "ver": ver, "bad": False, "val": self.val(payload),
                         "res": ("ok", ver), "start": seq, "end": seq + 1, "proc": "old"})

    def tree(self):
        out = {}
        root = seams.SCRATCH["root"]
        for d, dirs, files in os.walk(root):
            if d == self.store_dir or d.startswith(self.store_dir + "/"):
                continue
            for f in files:
                with open(os.path.join(d, f), "rb") as fh:
                    out[os.path.join(d, f)[len(root):]] = fh.read()
            for x in dirs:
                if os.path.join(d, x) != self.store_dir:
                    out[os.path.join(d, x)[len(root):] + "/"] = b""
        return out

    def run(self):
        loader.lines(bool(self.plan["cfg"]["line"]))
        random.seed(f"{self.plan['seed']}/glob")
        self.setup()
        sim, cfg, plan = self.sim, self.cfg, self.plan
        before = self.tree()
        if plan["faults"] and not sim.replay:
            sim.fault_policy = fault_policy(sim, plan["faults"], lambda: self.faults_on and REQ.get() is not None)
        for s in cfg["slots"]:
            self.boot(s)
        for s in cfg["api"]:
            self.boot_api(s)
        self.loading = False
        if cfg.get("preload"):
            self.loading = True

            def load():
                self.preload(*cfg["preload"])
                self.loading = False
            sim.spawn("pre", load, foreground=True)
        for c in plan["clients"]:
            sim.spawn(c["id"], lambda c=c: self.client(c), foreground=True)
        for i, at in enumerate(cfg.get("kills") or []):
            slots = cfg["slots"]

            def kill(i=i):
                p = self.slots[slots[i % len(slots)]]
                if p.ready and not p.dead and self.faults_on:
                    p.kill("timed")
                    return True
                return False
            sim.at(at, kill)
        try:
            out = sim.run()
            self.end(out, "workload")
            if out == "done":
                self.faults_on = False
                sim.fault_policy = None
                sim.event("FAULTS-OFF")
                sim.line_preempt = False
                self.nops_main = len(self.ops)
                sim.spawn("final", self.final, foreground=True)
                out = sim.run()
                self.end(out, "final")
        finally:
            sim.teardown()
            env.end_run()
        if out == "done":
            self.check(before)
        return self

    def end(self, out, phase):
        sim = self.sim
        if out == "stuck":
            sim.violation("stuck", f"{phase}: nothing can run any more: {sim.stuck_report()}")
        elif out == "steps":
            sim.violation("stuck", f"{phase}: no end after {sim.steps} steps")

    def final(self):
        """Faults have stopped: everything must be readable and writable again."""
        sim, cfg = self.sim, self.cfg
        if cfg["final_restart"]:
            for s in list(self.slots):
                p = self.slots[s]
                if not p.dead:
                    p.kill("final restart")
        names = [n for n, _ in cfg.get("legacy") or []]
        for c in self.plan["clients"]:
            for op in c["ops"]:
                if op.get("name") is not None and op["name"] not in names:
                    names.append(op["name"])
        if self.plan["prop"] == "C12":
            self.at_rest(names)
        if self.plan["prop"] in ("C04", "C12") and cfg["backend"] == "local":
            self.no_trace()
        k = [0]

        def oid():
            k[0] += 1
            return f"z.{k[0]}"

        slots = cfg["slots"]
        i = 0
        self.do({"id": oid(), "kind": "ls", "slot": slots[0]})
        for n in names:
            i += 1
            via = {"slot": slots[i % len(slots)]}
            if "/" in n:
                if not cfg["api"]:
                    continue
                via["api"] = cfg["api"][0]
            self.do({"id": oid(), "kind": "versions", "name": n, **via})
            self.do({"id": oid(), "kind": "latest", "name": n, **via})
            vs = set()
            for o in self.ops:
                if o["name"] == n:
                    r = o.get("res")
                    if r and r[0] == "ok" and o["kind"] in ("post", "put"):
                        vs.add(r[1])
                    if r and r[0] == "ok" and o["kind"] == "versions":
                        vs.update(r[1])
                    if o.get("ver") is not None:
                        vs.add(o["ver"])
            for v in sorted(v for v in vs if isinstance(v, int))[-30:]:
                self.do({"id": oid(), "kind": "get", "name": n, "ver": v, **via})
            body = json.dumps({"type": "struct", "doc": f"final {n}", "fields": []})
            self.do({"id": oid(), "kind": "post", "name": n, "body": body, **via})
            self.do({"id": oid(), "kind": "latest", "name": n, **via})
            self.do({"id": oid(), "kind": "versions", "name": n, **via})
        self.do({"id": oid(), "kind": "ls", "slot": slots[-1]})

    def files(self):
        """Everything the storage holds, below the registry's root."""
        if self.cfg["backend"] != "local":
            return {k: v for k, v in self.sim.objstore.items() if k.startswith(self.objroot + "/")}
        out = {}
        t = cur()
        t.no_preempt += 1
        try:
            for d, ds, fs in seams.REAL["os.walk"](self.store_dir):
                for x in ds:
                    out[os.path.join(d, x)[len(self.store_dir) + 1:] + "/"] = b""
                for f in fs:
                    with seams.REAL["open"](os.path.join(d, f), "rb") as fh:
                        out[os.path.join(d, f)[len(self.store_dir) + 1:]] = fh.read()
        finally:
            t.no_preempt -= 1
        return out

    def no_trace(self):
        """A name that only ever met refused, malformed or cut-short stores, or reads, isn't there."""
        stored, other = set(), set()
        for o in self.ops:
            well = o["kind"] in ("post", "put") and not o["bad"] and not o.get("noeffect")
            (stored if well else other).add(o["name"])
        for d in sorted(self.files()):
            n = unquote_plus(d.rstrip("/"))
            if d.count("/") == 1 and n in other and n not in stored:
                self.sim.violation("left-over", f"directory {d} for {n!r}, of which nothing was ever stored")
                break

    def at_rest(self, names):
        """Nothing is in progress any more: only the versions may remain."""
        sim, cfg = self.sim, self.cfg
        sim.sleep(100.0)        # what a request started and did not wait for
        via = {}
        for n in names:
            via[n] = {"slot": cfg["slots"][0]}
            if "/" in n:
                via[n]["api"] = cfg["api"][0] if cfg["api"] else None
        names = [n for n in names if via[n].get("api", True)]
        left = [p for p in seams.FDS.values() if seams.watched(p)]
        left += [w().path for w in sim.objopen if w() is not None and not w().closed]
        if len(left) > 1:       # one may be a lock held for the life of the process
            sim.violation("left-open", f"{len(left)} files still open after all requests ended: {sorted(map(seams.rel, left))[:4]}")
        total = 0
        k = 0
        for n in names:
            for _ in range(2):
                k += 1
                self.do({"id": f"y.{k}", "kind": "versions", "name": n, **via[n]})
            r = self.ops[-1].get("res") or ("none",)
            total += len(r[1]) if r[0] == "ok" else 0
        before = self.files()
        slack = len(names) + 1      # a lock file per name and one for the root are none of our business
        slack += sum(1 for _, base, site, _ in sim.fault_log if site == "unlink")
        have = sorted(f for f in before if not f.endswith("/"))
        if len(have) > total + slack:
            sim.violation("left-over", f"{len(have)} files in the storage for {total} versions: {have[:8]}")
        for n in names:
            for kind, ver in (("versions", None), ("latest", None), ("get", 1), ("get", 77)):
                k += 1
                self.do({"id": f"y.{k}", "kind": kind, "name": n, "ver": ver, **via[n]})
        for n in ("no such name", None):
            k += 1
            self.do({"id": f"y.{k}", "kind": "latest" if n else "ls", "name": n, "slot": cfg["slots"][0]})
        aft = self.files()
        if aft != before:
            d = sorted({x for x, _ in set(aft.items()) ^ set(before.items())})[:4]
            sim.violation("read-changed", f"reading changed the storage: {d}")

    # ------------------------------------------------------------ oracles
    def check(self, before):
        sim, plan = self.sim, self.plan
        faulted = {}
        for seq, base, site, kind in sim.fault_log:
            if kind not in BENIGN:
                faulted.setdefault(base, []).append((site, kind))
        for o in self.ops:
            if o.get("error") and not faulted.get(o["id"]) and not o.get("bad"):
                sim.violation("error-without-cause",
                              f"{o['id']} {o['kind']} {o['name']!r} v={o.get('ver')}: {o.get('status', 'raised')} {o.get('text')!r} "
                              "although nothing failed during this request")
            if "oddstatus" in o:
                sim.violation("bad-status", f"{o['id']} {o['kind']} {o['name']!r}: unexpected status {o['oddstatus']} {o.get('text')!r}")
        reads = {o["id"] for o in self.ops if o["kind"] in ("latest", "get", "versions", "ls")}
        for req, site, p in sim.mutations:
            if req in reads and site in ("unlink", "rename", "truncate", "rmdir", "obj_rm"):
                sim.violation("read-changed", f"{req}, a read, did {site} {seams.rel(p)}")
                break
        if sim.escapes:
            sim.violation("escape", "touched outside the storage: " + "; ".join(sim.escapes[:3]))
        aft = self.tree()
        if aft != before:
            diff = sorted(set(aft.items()) ^ set(before.items()))[:3]
            sim.violation("escape", f"files outside the storage root changed: {diff}")
        for k, v in self.objcanary.items():
            if sim.objstore.get(k) != v:
                sim.violation("escape", f"object {k} outside the registry prefix changed")
        for k in sim.objstore:
            if not k.startswith(self.objroot + "/") and k not in self.objcanary:
                sim.violation("escape", f"object {k} created outside the registry prefix")
        by = {}
        for o in self.ops:
            if o.get("noeffect") or o["kind"] == "ls":
                continue
            if o["bad"] and o.get("res") != ("conflict",):
                continue
            by.setdefault(o["name"], []).append(o)
        for o in self.ops:
            if o["kind"] == "ls" and not o.get("maybe") and isinstance(o["res"][1], list):
                for name in by:
                    by[name].append({**o, "kind": "listed", "name": name, "res": name in o["res"][1]})
        for name, ops in by.items():
            try:
                ok = lin.check(ops)
            except lin.Budget:
                sim.count("probe", "lin_budget")
                continue
            sim.count("probe", "lin_checked")
            if not ok:
                cls = "history"
                if plan["prop"] == "C05":
                    try:
                        loose = overlapping_writers(ops)
                        if loose and lin.check_split(ops, loose):
                            self.known.append(("overlapping-writers", describe(name, ops)))
                            continue
                    except lin.Budget:
                        sim.count("probe", "lin_budget")
                        continue
                sim.violation(cls, f"no one-at-a-time execution explains: {describe(name, ops)}")
        self.check_ls()

    def check_ls(self):
        stores = [o for o in self.ops if o["kind"] in ("post", "put")]
        for o in self.ops:
            if o["kind"] != "ls" or o.get("maybe"):
                continue
            r = o["res"][1]
            if not isinstance(r, list) or len(r) != len(set(r)):
                self.sim.violation("listing", f"{o['id']}: listing is not a list of distinct names: {r}")
                continue
            # names with a history of their own are judged there, see check()
            can = {s["name"] for s in stores if not s["bad"] and not s.get("noeffect") and s["start"] < o["end"]}
            if not set(r) <= can:
                self.sim.violation("listing", f"{o['id']}: listing {r} shows names never stored {sorted(set(r) - can)}")


def overlapping_writers(ops):
    """Ids of the stores that overlap a store of the same name made elsewhere: in
    another process, or in another thread of a process that uses the Python API."""
    w = [o for o in ops if o["kind"] in ("post", "put")]
    return {a["id"] for a in w for b in w
            if a is not b and a["start"] < b["end"] and b["start"] < a["end"]
            and (a["proc"] != b["proc"] or a.get("api"))}


def describe(name, ops):
    out = []
    for o in sorted(ops, key=lambda o: o["start"]):
        r = "?" if o.get("maybe") else o.get("res")
        out.append(f"[{o['start']}-{o['end']} {o['id']}@{o.get('proc')} {o['kind']}"
                   f"{'' if o.get('ver') is None else ' v%s' % o['ver']}{' s%s' % o['val'] if 'val' in o else ''} -> {r}]")
    return f"name {name!r}: " + " ".join(out)


def canned_overlap():
    """Two processes store the same new name at the same time (the known finding of C05)."""
    body = '{"type": "struct", "doc": "%s", "fields": []}'
    return {"prop": "C05", "seed": "canned-overlap", "kind": "reg", "faults": None,
            "cfg": {"backend": "local", "bufsize": 8192, "p_switch": 1.0, "policy": "random", "line": False,
                    "slots": ["p0", "p1"], "api": [], "final_restart": False, "restart_delay": 0.5},
            "clients": [{"id": f"c{i}", "ops": [
                {"id": f"c{i}.{j}", "kind": "post", "name": f"n{j}", "body": body % f"c{i}.{j}", "slot": f"p{i}"}
                for j in range(6)]} for i in range(2)]}


def make_plan(prop, seed):
    if seed == "canned-overlap":
        return canned_overlap()
    return PlanGen(prop, seed).build()


def run_plan(plan, decisions=None, keep_log=False):
    return RegRun(plan, decisions, keep_log).run()
