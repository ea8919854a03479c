"""Gateway simulation: execution and oracles for C06-C11."""
from __future__ import annotations

import base64
import copy
import hashlib
import itertools
import json
import os
import random
from urllib.parse import quote, quote_plus

from . import asgi, canon, core, env, gwplan, gwurl, loader, model, seams, upstream
from .core import REQ, Sim, SimProcess, cur, HarnessError

BENIGN = {"short", "stall", "slow"}
CTYPE = {"recap": "application/x-recap+json", "avro": "application/avro+json", "json": "application/schema+json",
         "protobuf": "application/x-protobuf"}
SYSTEM = {"pg": {"template0", "template1", "information_schema", "pg_catalog", "pg_toast"},
          "mysql": {"information_schema", "mysql", "performance_schema", "sys"}, "snow": {"INFORMATION_SCHEMA"}}
FS_SITES = {"open_r": ["EIO", "EACCES", "EMFILE", "ESTALE"], "read": ["EIO", "ESTALE", "ETIMEDOUT"],
            "listdir": ["EIO", "EACCES", "EMFILE", "ESTALE"]}
LATE = {"fetch", "commit", "http", "rpc", "sqlite", "read", "query"}
BOUND = 10.0        # simulated seconds a request may take when nothing it needs is stalled


def fault_policy(sim, spec, active):
    st = {"left": spec["budget"]}
    rng = sim.rng_fault

    def policy(base, site, n, path, t):
        if st["left"] <= 0 or not active() or t.proc is None:
            return None
        kinds = upstream.KINDS.get(site) or FS_SITES.get(site)
        if not kinds:
            return None
        only = spec["only"]
        if only == "late" and site not in LATE:
            return None
        if only == "connect" and site not in ("connect", "httpconn", "sqlite_open", "open_r", "listdir"):
            return None
        if only == "query" and site not in ("query", "fetch", "http", "rpc", "sqlite", "read"):
            return None
        if spec.get("sites") and site not in spec["sites"]:
            return None
        r = rng.random()
        if r > 0.98:
            return {"kind": "slow", "arg": rng.choice([0.01, 0.3, 2.0])} if site in upstream.KINDS else None
        p = spec["p"] * (1 if only == "any" else 2)
        if site == "commit":
            p *= 2
        if r >= p:
            return None
        st["left"] -= 1
        d = {"kind": rng.choice(kinds)}
        if d["kind"] == "eof":
            d["arg"] = rng.choice([0.0, 0.3, 0.6, 0.95])
        return d

    return policy


class Boom(Exception):
    pass


def sqlite_ddl(t, o):
    cols = []
    for c in o["cols"]:
        x = f'"{c["n"]}" {c["k"]}'
        if c.get("pk"):
            x += " PRIMARY KEY"
        elif not c["null"]:
            x += " NOT NULL"
        if c.get("def") is not None:
            x += f" DEFAULT {c['def']}"
        cols.append(x)
    return f'CREATE TABLE "{t}" ({", ".join(cols)})'


def sqlite_image(ddl):
    """The bytes of a database file with these tables."""
    con = upstream._sqlite_connect(":memory:", isolation_level=None)
    try:
        con.execute("BEGIN")
        con.execute('CREATE TABLE "_x" (a)')      # a file without tables is a database all the same
        con.execute('DROP TABLE "_x"')
        for x in ddl:
            con.execute(x)
        con.execute("COMMIT")
        return con.serialize()
    finally:
        con.close()


class GwRun:
    def __init__(self, plan, decisions=None, keep_log=False):
        self.plan, self.cfg = plan, plan["cfg"]
        cfg = self.cfg
        self.sim = Sim(f"{plan['prop']}/{plan['seed']}", decisions, p_switch=cfg["p_switch"], policy=cfg["policy"],
                       line_preempt=cfg["line"], keep_log=keep_log, max_steps=60000)
        self.sim.p_line = 0.004
        self.ops = []
        self.known = []
        self.slots = {}
        self.prop = plan["prop"]
        self.faults_on = True
        self.ncli = 0
        self.open_forever = []

    def overlaps(self):
        iv = sorted((o["start"], o["end"]) for o in self.ops if o.get("start") and o.get("end"))
        n = 0
        for i, (a, b) in enumerate(iv):
            for c, d in iv[i + 1:]:
                if c >= b:
                    break
                n += 1
        return n

    # ---------------------------------------------------------------- setup
    def setup(self):
        sim, plan = self.sim, self.plan
        root = env.fresh_scratch()
        os.chdir(root)
        seams.SCRATCH["root"] = root
        seams.BUFSIZE["n"] = 64
        self.root = root
        sim.scrub = root
        for d in ("files", "data", "home", "store"):
            os.makedirs(f"{root}/{d}", exist_ok=True)
        seams.SCRATCH["watch"] = (root + "/files",)
        os.environ["RECAP_HOME"] = root + "/home"
        os.environ["RECAP_REGISTRY_STORAGE_URL"] = f"file://{root}/store"
        os.environ["RECAP_REGISTRY_STORAGE_URL_ARGS"] = "{}"
        os.environ["RECAP_URLS"] = json.dumps([x.replace("@ROOT", root) for x in plan["urls"]])
        os.environ.pop("RECAP_SECRETS", None)
        if self.cfg.get("secrets"):
            # the settings come from a file instead of the environment
            os.environ["RECAP_SECRETS"] = root + "/home/secrets"
            os.makedirs(root + "/home/secrets")
            with open(root + "/home/secrets/recap_urls", "w") as f:
                f.write(os.environ.pop("RECAP_URLS"))
        for k in ("COLUMNS", "LINES"):
            os.environ.pop(k, None)
        os.environ["TERM"] = "dumb"
        w = self.w = upstream.World(sim)
        upstream.WORLD["w"] = w
        w.latency = self.cfg["latency"]
        self.up = {}
        for u in plan["ups"]:
            s = upstream.Server(w, u["id"], u["family"], u["host"], u["port"], copy.deepcopy(u["state"]), u.get("user"), u.get("pw"))
            s.default_db = u.get("default_db")
            s.page = u.get("page", 50)
            s.stalls = [tuple(x) for x in u.get("stalls") or ()]
            s.down = [tuple(x) for x in u.get("down") or ()]
            s.u = u
            w.servers[u["id"]] = s
            self.up[u["id"]] = s
            if u["family"] == "ref":
                w.refdocs.update(u["state"]["dbs"][""][""])
            if u["family"] == "sqlite" and not u.get("absent"):
                self.sqlite_sync(s, None, s.state)
            if u["family"] == "fs":
                self.fs_sync(s, {}, flat(s.state))
        with seams.REAL["open"](root + "/other.sqlite", "wb") as f:
            f.write(sqlite_image(("CREATE TABLE t1 (leak INTEGER)",)))
        self.tree = self.snapshot()

    def snapshot(self):
        """Everything on disk: mode and contents of the files, and the directories of the upstreams."""
        out = {}
        for d, dirs, files in os.walk(self.root):
            rel = d[len(self.root):]
            if rel.startswith(("/files", "/data")):
                out[rel + "/"] = "directory"
            for f in files:
                st = os.lstat(f"{d}/{f}")
                with seams.REAL["open"](f"{d}/{f}", "rb") as h:
                    out[f"{rel}/{f}"] = (st.st_mode, hashlib.sha1(h.read()).hexdigest())
        return out

    def sqlite_sync(self, s, old, new):
        """Bring the database file to state `new`; False if it is locked."""
        import sqlite3
        path = self.root + s.host
        n = new["dbs"][""][""]
        if old is None:
            with seams.REAL["open"](path, "wb") as f:
                f.write(sqlite_image([sqlite_ddl(t, n[t]) for t in n]))
            return True
        o = old["dbs"][""][""]
        con = upstream._sqlite_connect(path, timeout=0, isolation_level=None)
        try:
            con.execute("PRAGMA synchronous=OFF")
            con.execute("BEGIN IMMEDIATE")
            for t in o:
                if o[t] != n.get(t):
                    con.execute(f'DROP TABLE "{t}"')
            for t in n:
                if n[t] != o.get(t):
                    con.execute(sqlite_ddl(t, n[t]))
            con.execute("COMMIT")
            return True
        except sqlite3.OperationalError as e:
            if "locked" not in str(e):
                raise HarnessError(f"sqlite {e}")
            return False
        finally:
            con.close()

    def fs_sync(self, s, o, n):
        d = self.root + "/files"
        for name in o:
            if name not in n:
                os.unlink(f"{d}/{name}")
        for name in n:
            if n[name] != o.get(name):
                tmp = f"{self.root}/data/tmpfile"
                with seams.REAL["open"](tmp, "w") as f:
                    f.write("{broken" if n[name].get("broken") else model.doc_text(n[name]))
                os.makedirs(os.path.dirname(f"{d}/{name}"), exist_ok=True)
                os.replace(tmp, f"{d}/{name}")

    # ------------------------------------------------------------- processes
    def boot(self, slot):
        self.slots[slot] = asgi.boot(self.sim, slot, 1)

    def apiproc(self, slot):
        p = self.slots.get(slot)
        if p is None:
            p = SimProcess(self.sim, slot, 1)
            p.ready = True
            self.slots[slot] = p
        return p

    def alive(self, slot):
        for _ in range(100):
            p = self.slots[slot]
            if p.ready:
                return p
            self.sim.sleep(0.01)
        raise HarnessError("server does not boot")

    # ------------------------------------------------------------ operations
    def do(self, op):
        sim = self.sim
        if op.get("pre"):
            sim.sleep(op["pre"])
        rec = {"id": op["id"], "op": op, "kind": op["kind"]}
        e = op["e"]
        if op["kind"].startswith("reg_"):
            self.do_reg(op, rec)
        elif e == "http":
            self.do_http(op, rec)
        elif e == "api":
            self.do_api(op, rec)
        elif e == "cli":
            self.do_cli(op, rec)
        else:
            self.do_ctx(op, rec)
        if "start" in rec:
            self.ops.append(rec)
            self.ended(rec)

    def ended(self, rec):
        """The request is over: everything it opened has to be closed (C06)."""
        left = [c for c in self.w.conns if c.req == rec["id"] and c.closed is None]
        rec["leaked"] = [f"{c.family} {c.target}" for c in left]
        mine = [fd for fd, p in seams.FDS.items() if p and p.startswith(self.root + "/files") and seams.FDREQ.get(fd) == rec["id"]]
        for fd in mine:
            rec["leaked"].append("file " + os.path.basename(seams.FDS[fd]))
            seams.FDREQ[fd] = None
        rec["opened"] = sum(1 for c in self.w.conns if c.req == rec["id"])
        for c in left:
            c.closed = -1     # reported once

    def url(self, op):
        if "url" in op:
            return op["url"].replace("@ROOT", self.root)
        stats = "?include_stats=true" if op.get("stats") else ""
        if "own" in op:
            return self.own_url(op) + stats
        url = gwurl.url_of(self.up[op["up"]].u, op["path"], self.root).replace("@ROOT", self.root) + stats
        if op.get("opts"):
            u = self.up[op["up"]].u
            opts = u.get("opts") or (u.get("optsper") or {}).get(op["path"][0] if op["path"] else None) or {}
            # a hostname alone is what all databases are configured for
            if not ("only" in u and not op["path"]):
                url += "".join(("&" if "?" in url or i else "?") + f"{k}={quote(v, safe='')}" for i, (k, v) in enumerate(opts.items()))
        return url.replace("://", f"://{op['cred']}@", 1) if "cred" in op else url

    def own_url(self, op):
        """Complete URL of an object of an upstream that is not in the settings."""
        u, q = self.up[op["up"]].u, gwplan.q
        f = u["family"]
        if f == "fs":
            return "/".join([("" if op["own"] == "bare" else "file://") + self.root + "/files"] + op["path"])
        head = gwurl.head(u).replace("@ROOT", self.root)
        if u.get("user") and f != "bq":
            a, _, b = head.partition("://")
            head = f"{a}://{q(u['user'])}:{q(u['pw'])}@{b}"
        return "/".join([head] + op["path"])

    def do_http(self, op, rec):
        sim = self.sim
        proc = self.alive(op.get("slot", "p0"))
        kind = op["kind"]
        if kind == "root":
            raw, headers = "/gateway/ls/", []
        else:
            raw = f"/gateway/{kind}/" + quote(self.url(op), safe="/:@+,;!$&'()*=~")
            headers = []
            if kind == "schema" and not (op.get("fmt", "recap") == "recap" and op.get("noct")):
                headers = [("content-type", CTYPE[op.get("fmt", "recap")])]
        rec["proc"], rec["t0"] = proc.label, sim.now
        rec["start"] = sim.event(f"INV {op['id']} GET {raw}")
        c = asgi.request(proc, op["id"], "GET", None, headers, raw_path=raw.encode())
        asgi.push(c, b"", False)
        if "hang" in op:
            asgi.wait(c, op["hang"])
            if not c.complete:
                asgi.hangup(c)
                sim.count("fault", "client_disconnect")
                rec["gone"] = True
        st = asgi.wait(c, 20000.0, until=lambda: c.app_done)
        rec["t1"] = sim.now
        if st == "timeout":
            rec["end"] = sim.event(f"TMO {op['id']}")
            sim.violation("stuck", f"{op['id']} {raw}: no answer within 20000 simulated seconds")
            rec["gone"] = True
            return
        rec["end"] = sim.event(f"RET {op['id']} {c.status} {c.body[:300]!r}")
        if rec.get("gone"):
            return
        rec["status"], rec["raw"], rec["headers"] = c.status, c.body, c.headers
        if c.status == 200:
            try:
                rec["ok"] = json.loads(c.body)
            except ValueError:
                sim.violation("garbled", f"{op['id']}: 200 with a body that is not JSON: {c.body[:100]!r}")
        else:
            rec["err"] = f"{c.status} {c.body[:120]!r} {c.app_exc!r:.200}"
        if c.reset:
            rec["err"] = "connection reset"

    def in_proc(self, proc, op, rec, body, timeout=20000.0):
        """Run body() as a task of a simulated process and wait for it."""
        sim, me = self.sim, cur()
        out = {}

        def run():
            REQ.set(op["id"])
            try:
                out["ok"] = body()
            except (core.SimCrash, core.SimAbort):
                raise
            except BaseException as e:  # noqa
                out["exc"] = e

        t = sim.spawn(f"{proc.label}.{op['id']}", run, proc=proc)
        t.done_cbs.append(lambda _: sim.wake(me))
        while t.state != core.DONE and "ok" not in out and "exc" not in out:
            if not sim.block(f"call {op['id']}", timeout) and t.state != core.DONE:
                sim.violation("stuck", f"{op['id']}: call does not return")
                break
        return out

    def do_api(self, op, rec):
        sim = self.sim
        proc = self.apiproc(op.get("slot", "a0"))
        kind = op["kind"]
        url = None if kind == "root" else self.url(op)
        rec["proc"], rec["t0"] = proc.label, sim.now
        rec["start"] = sim.event(f"INV {op['id']} api {kind} {url}")

        def body():
            from recap import commands
            if op.get("steps") and kind != "root":
                # the documented steps commands.ls and commands.schema consist of
                from recap.clients import create_client, parse_url
                connection_url, args = parse_url(kind, url, strict="own" not in op)
                with create_client(connection_url) as client:
                    got = getattr(client, kind)(*args)
                if kind == "ls":
                    return got
                from recap.types import to_dict
                return to_dict(got)
            if kind == "root":
                return commands.ls()
            if kind == "ls":
                return commands.ls(url, strict="own" not in op)
            return commands.schema(url, commands.SchemaFormat(op.get("fmt", "recap")), strict="own" not in op)

        self.finish(op, rec, self.in_proc(proc, op, rec, body))

    def finish(self, op, rec, out):
        sim = self.sim
        rec["t1"] = sim.now
        if "exc" in out:
            rec["end"] = sim.event(f"RET {op['id']} raised {out['exc']!r:.200}")
            rec["err"] = f"{out['exc']!r:.300}"
            e = out["exc"]
            # the traceback keeps frames (and clients) alive; nothing may depend on that
            rec["exc"] = e
        elif "ok" in out:
            v = out["ok"]
            rec["end"] = sim.event(f"RET {op['id']} {json.dumps(v, default=repr)[:300]}")
            rec["ok"] = v
        else:
            rec["end"] = sim.event(f"TMO {op['id']}")
            rec["gone"] = True

    def do_cli(self, op, rec):
        sim = self.sim
        self.ncli += 1
        proc = SimProcess(sim, f"cli{self.ncli}", 1)
        kind = op["kind"]
        args = ["ls"] if kind == "root" else [kind, self.url(op)]
        if kind == "schema" and op.get("fmt", "recap") != "recap":
            args += ["--output-format", op["fmt"]]
        rec["proc"], rec["t0"] = proc.label, sim.now
        rec["start"] = sim.event(f"INV {op['id']} cli {' '.join(args)}")

        def body():
            from recap.cli import app
            try:
                app(args=args, prog_name="recap")
            except SystemExit as e:
                return e.code
            return 0

        out = self.in_proc(proc, op, rec, body)
        text = "".join(proc.__dict__.get("out", []))
        rec["cli_out"] = text
        if "ok" in out:
            code = out["ok"]
            if code not in (0, None):
                out = {"exc": Boom(f"exit {code} {''.join(proc.__dict__.get('err', []))[:200]}")}
            elif kind == "schema" and op.get("fmt") == "protobuf":
                out = {"ok": text}
            elif not text.strip():
                out = {"ok": [] if kind in ("ls", "root") else text}
            else:
                try:
                    out = {"ok": json.loads(text)}
                except ValueError:
                    out = {"ok": "not json: " + text}
        else:
            if text.strip() and "exc" in out:
                rec["cli_partial"] = text
        self.finish(op, rec, out)

    def conn_url(self, s, op):
        """Connection URL with credentials, as a user of create_client would write it."""
        u = s.u
        q = gwplan.q
        cred = f"{q(u['user'])}:{q(u['pw'])}@" if u.get("user") else ""
        f = u["family"]
        if f in ("pg", "snow"):
            d = op["path"][0] if op["path"] else (u.get("default_db") or "")
            port = f":{u['port']}" if u["port"] else ""
            return f"{gwurl.SCHEME[f]}://{cred}{u['host']}{port}/{d}"
        if f == "mysql":
            return f"mysql://{cred}{u['host']}:{u['port']}" + (f"/{op['path'][0]}" if op["path"] else "")
        if f == "fs":
            return "file:///"
        if f in ("sqlite", "bq"):
            return gwurl.head(u).replace("@ROOT", self.root)
        return f"{gwurl.scheme(u)}://{cred}{u['host']}:{u['port']}"

    def do_ctx(self, op, rec):
        """create_client(...) used directly, perhaps for several calls, perhaps failing inside the block."""
        sim = self.sim
        s = self.up[op["up"]]
        proc = self.apiproc(op.get("slot", "a0"))
        url = self.conn_url(s, op)
        calls = [[op["kind"], op["path"]]] + op.get("more", [])
        rec["proc"], rec["t0"] = proc.label, sim.now
        rec["start"] = sim.event(f"INV {op['id']} ctx {s.id} {calls}")
        fam = s.family
        res = rec["calls"] = []

        def one(client, kind, path):
            if fam == "fs":
                path = ["/".join([self.root + "/files"] + path)]
            if kind == "ls":
                return client.ls(*path)
            from recap.types import to_dict
            args = list(path)
            if fam == "hms":
                args.append(bool(op.get("stats")))
            return to_dict(client.schema(*args))

        def body():
            from recap.clients import create_client
            with create_client(url) as client:
                for i, (kind, path) in enumerate(calls):
                    if i and op.get("gap"):
                        sim.sleep(op["gap"])
                    a = sim.event(f"CALL {op['id']} {i}")
                    try:
                        v = one(client, kind, path)
                    except Exception as e:
                        res.append({"kind": kind, "path": path, "start": a, "end": sim.event("CALLERR"), "err": f"{e!r:.200}"})
                        if op.get("more") and fam != "pg" and i + 1 < len(calls) and not s.u.get("strict"):
                            continue
                        raise
                    res.append({"kind": kind, "path": path, "start": a, "end": sim.event("CALLRET"), "ok": v})
                if op.get("raise"):
                    raise {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "StopIteration": StopIteration,
                           "GeneratorExit": GeneratorExit}[op["raise"]]("in the caller's block")
            return "left"

        out = self.in_proc(proc, op, rec, body)
        self.finish(op, rec, out)

    def do_reg(self, op, rec):
        sim = self.sim
        proc = self.alive("p0")
        k = op["kind"][4:]
        name = op.get("name")
        method, path = {"post": ("POST", f"/registry/{name}"), "put": ("PUT", f"/registry/{name}/versions/{op.get('ver', 7)}"),
                        "get": ("GET", f"/registry/{name}"), "ls": ("GET", "/registry/"),
                        "versions": ("GET", f"/registry/{name}/versions")}[k]
        rec["proc"], rec["t0"] = proc.label, sim.now
        rec["start"] = sim.event(f"INV {op['id']} {method} {path}")
        body = (op.get("body") or "").encode()
        c = asgi.request(proc, op["id"], method, None, [("content-type", CTYPE["recap"])] if body else [], raw_path=path.encode(),
                         length=len(body) if body else None)
        sizes, gaps = op.get("chunks") or [len(body)], op.get("gaps") or [0]
        pos = 0
        for i, n in enumerate(sizes):
            if gaps[i]:
                asgi.wait(c, gaps[i])
            if op.get("never") and i == len(sizes) - 1:
                self.open_forever.append(c)
                sim.count("fault", "client_never_finishes")
                rec["end"] = sim.event(f"HOLD {op['id']}")
                rec["gone"] = True
                rec["t1"] = sim.now
                return
            if i and gaps[i] >= 10:
                sim.count("fault", "client_slow_body")
            asgi.push(c, body[pos:pos + n], i + 1 < len(sizes))
            pos += n
        rec["t_sent"] = sim.now
        st = asgi.wait(c, 20000.0)
        rec["t1"] = sim.now
        rec["end"] = sim.event(f"RET {op['id']} {c.status} {c.body[:100]!r}")
        rec["status"], rec["raw"], rec["headers"] = c.status, c.body, c.headers
        if st != "ok":
            sim.violation("stuck", f"{op['id']} {method} {path}: {st}")
        if c.status is None or c.status >= 500:
            rec["err"] = f"{c.status} {c.app_exc!r:.200}"

    # ----------------------------------------------------------------- DDL
    def actor(self, a):
        sim = self.sim
        s = self.up.get(a["up"])
        if s is None:
            return
        for op in a["ops"]:
            if op.get("pre"):
                sim.sleep(op["pre"])
            for _ in range(300):
                r = self.ddl(s, op)
                if r is not None:
                    break
                sim.sleep(0.01)
            sim.yield_point()

    def ddl(self, s, op):
        d, sc, t = op["at"]
        do = op["do"]

        def fn(st):
            tabs = st["dbs"].get(d, {}).get(sc)
            if tabs is None:
                return False
            tb = tabs.get(t)
            if do == "create":
                if op["to"] in tabs:
                    return False
                tabs[op["to"]] = copy.deepcopy(op["new"])
                return True
            if tb is None or tb.get("static"):
                return False
            doc = s.family in ("csr", "fs", "ref")
            if do == "drop" and s.family != "ref":
                del tabs[t]
            elif do == "add" and not doc:
                if any(c["n"].lower() == op["col"]["n"].lower() for c in tb["cols"]):
                    return False
                tb["cols"].append(copy.deepcopy(op["col"]))
            elif do == "dropcol" and not doc:
                if len(tb["cols"]) < 2:
                    return False
                tb["cols"].pop(0)
            elif do == "alter" and not doc:
                n = tb["cols"][-1]["n"]
                tb["cols"][-1] = {**copy.deepcopy(op["col"]), "n": n}
            elif do == "reorder" and not doc and s.family in ("hms", "sqlite", "mysql"):
                tb["cols"].reverse()
            elif do == "swap" and len(tabs) > 1:
                other = next(x for x in tabs if x != t)
                if tabs[other].get("static") or (doc and tabs[other]["fmt"] != tb["fmt"]):
                    return False
                tabs[t], tabs[other] = tabs[other], tb
            else:
                new = copy.deepcopy(op["new"])
                if doc:
                    if new["fmt"] != tb["fmt"]:
                        return False
                    if s.family == "ref":
                        new["id"] = tb["id"]
                        if tb.get("$schema"):
                            new["$schema"] = True
                    if s.family == "csr":
                        new["ver"] = tb.get("ver", 1) + 1
                tabs[t] = new
            return True

        new = copy.deepcopy(s.state)
        if fn(new) is False:
            return False
        if s.u.get("absent"):
            return False
        t0 = cur()
        t0.muted += 1
        t0.no_preempt += 1
        try:
            if s.family in ("sqlite", "fs"):
                self.see_tree("before " + op["id"])
            if s.family == "sqlite":
                if not self.sqlite_sync(s, s.state, new):
                    return None
            if s.family == "fs":
                self.fs_sync(s, flat(s.state), flat(new))
            if self.prop == "C11":
                self.tree = self.snapshot()
            return s.change(fn, f"{do} {d}.{sc}.{t}")
        finally:
            t0.muted -= 1
            t0.no_preempt -= 1

    def see_tree(self, when):
        """Nothing but the harness changes what is on disk (C11)."""
        if self.prop != "C11":
            return
        now = self.snapshot()
        bad = [f"{k}: {'new' if k not in self.tree else 'gone' if k not in now else 'changed'}"
               for k in sorted(set(now) | set(self.tree)) if now.get(k) != self.tree.get(k)]
        self.sim.count("probe", "tree_compared")
        if bad:
            self.sim.violation("upstream-changed", f"{when}: {', '.join(bad[:4])}")
            self.tree = now

    # ------------------------------------------------------------ whole run
    def client(self, c):
        for op in c["ops"]:
            self.do(op)
            self.sim.yield_point()

    def run(self):
        loader.lines(bool(self.cfg["line"]))
        random.seed(f"{self.plan['seed']}/glob")
        sim, plan = self.sim, self.plan
        self.setup()
        if plan["faults"] and not sim.replay:
            sim.fault_policy = fault_policy(sim, plan["faults"], lambda: self.faults_on and REQ.get() is not None)
        self.boot("p0")
        for c in plan["clients"]:
            sim.spawn(c["id"], lambda c=c: self.client(c), foreground=True)
        for a in plan["actors"]:
            sim.spawn(a["id"], lambda a=a: self.actor(a), foreground=True)
        try:
            out = sim.run()
            self.end(out, "workload")
            self.see_tree("after the workload")
            if out == "done":
                self.faults_on = False
                sim.fault_policy = None
                self.final_seq = sim.event("FAULTS-OFF")
                sim.line_preempt = False
                for s in self.up.values():
                    s.down = []
                    s.stalls = []
                sim.spawn("final", self.final, foreground=True)
                out = sim.run()
                self.end(out, "final")
                self.see_tree("at the end")
        finally:
            sim.teardown()
            upstream.WORLD["w"] = None
            os.chdir(env.BASE)
            for con in self.w.sqlcache.values():
                con.close()
            env.end_run()
        if out == "done":
            self.check()
        for o in self.ops:
            o.pop("exc", None)
        return self

    def end(self, out, phase):
        sim = self.sim
        if out == "stuck":
            sim.violation("stuck", f"{phase}: nothing can run any more: {sim.stuck_report()}")
        elif out == "steps":
            sim.violation("stuck", f"{phase}: no end after {sim.steps} steps")

    def final(self):
        """Faults have stopped: the same requests succeed now, without a restart."""
        for c in self.open_forever:
            asgi.hangup(c)
        if self.prop not in ("C08", "C10", "C07", "C11"):
            return
        seen = set()
        n = 0
        for c in self.plan["clients"]:
            for op in c["ops"]:
                if "url" in op or op["kind"].startswith("reg_") and self.prop != "C10":
                    continue
                key = json.dumps([op["e"], op["kind"], op.get("up"), op.get("path"), op.get("fmt"), op.get("stats")])
                if key in seen or n >= 8:
                    continue
                seen.add(key)
                n += 1
                o = {k: v for k, v in copy.deepcopy(op).items() if k not in ("hang", "raise", "more", "gap", "never", "gaps", "chunks")}
                o["id"], o["pre"] = f"z.{n}", 0
                if o["kind"] == "reg_put":
                    o["ver"] = 1000 + n
                self.do(o)

    # -------------------------------------------------------------- oracles
    def expected(self, s, kind, path, fmt, a, b, stats=False):
        """All answers the upstream's states in [a, b] justify:
        list of ("ok", matcher) | ("err",) | ("any",)."""
        out = []
        fam = s.family
        sts = s.states(a, b)
        if s.u.get("absent"):
            return [("err",)]
        if kind == "ls":
            if fam == "bq":
                return self.expected_pages(s, sts, path)
            for st in sts:
                out += self.ls_of(s, st, path)
            return out
        refs = self.ref_choices(a, b)
        if stats and any(self.find(s, st, path) != self.find(s, sts[0], path) for st in sts):
            # column statistics are further calls to the metastore: the table may change between them
            return [("any",), ("err",)]
        if fam == "fs" and path and os.path.splitext(path[-1])[1].lower() not in SUFFIXES:
            # not a schema file by its name
            return [("err",), ("any",)]
        for st in sts:
            tb = self.find(s, st, path)
            if tb is None and fam == "csr" and len(path) == 1 and path[0] in st["dbs"][""][""]:
                # a subject of just that name; Recap looks for the one of the topic's values
                out.append(("any",))
            if tb is None:
                out.append(("err",))
                continue
            for rf in refs:
                try:
                    t = model.table_recap(fam, path[-1], tb, rf)
                except KeyError:
                    out.append(("err",))
                    continue
                if t is None:
                    # a column type Recap does not support: refused, or reported with every column
                    out += [("err",), ("ok", "names", [c["n"] for c in tb["cols"]])] if "cols" in tb else [("err",)]
                    continue
                if stats:
                    t = copy.deepcopy(t)
                    for f, c in zip(t["fields"], tb["cols"]):
                        if c.get("stats"):
                            f.update(upstream.hms_stats_attrs(gwplan.STATS[c["k"]], c["stats"]))
                if fmt == "recap":
                    out.append(("ok", "recap", canon.canon(t)))
                    continue
                try:
                    out.append(("ok", fmt, model.render(copy.deepcopy(canon_keep(t)), fmt)))
                except model.Unsupported:
                    out += [("err",), ("any",)]
                except model.Unknown:
                    out += [("err",), ("any",)]
        return out

    def ref_choices(self, a, b):
        s = self.up.get("ref")
        if s is None:
            return [{}]
        per = {}
        for st in s.states(a, b):
            for u, d in st["dbs"][""][""].items():
                if d not in per.setdefault(u, []):
                    per[u].append(d)
        keys = list(per)
        return [dict(zip(keys, x)) for x in itertools.islice(itertools.product(*(per[k] for k in keys)), 64)]

    def find(self, s, st, path):
        dbs = st["dbs"]
        fam = s.family
        try:
            if fam in ("pg", "snow", "bq"):
                d, sc, t = path
            elif fam == "mysql":
                d, (sc, t) = "def", path
            elif fam == "hms":
                d, (sc, t) = "", path
            elif fam == "fs":
                d, sc, t = "", "/".join(path[:-1]), path[-1]
            else:
                d, sc, (t,) = "", "", path
        except ValueError:
            return None
        tabs = dbs.get(d, {}).get(sc)
        if tabs is None:
            return None
        if fam == "csr":
            t = t if t.endswith("-key") or t.endswith("-value") else t + "-value"
        return tabs.get(t)

    def ls_of(self, s, st, path):
        fam, dbs = s.family, st["dbs"]
        sysn = SYSTEM.get(fam, set())

        def ok(names):
            return [("ok", "set", frozenset(names) - sysn)]

        gone = [("ok", "set", frozenset()), ("err",)]
        if fam == "fs":
            if not path:
                return ok(list(dbs[""][""]) + [d for d in dbs[""] if d])
            return ok(dbs[""][path[0]]) if len(path) == 1 and path[0] in dbs[""] else gone
        if fam in ("csr", "sqlite"):
            return ok(dbs[""][""]) if not path else gone
        if fam in ("mysql", "hms"):
            m = dbs["def" if fam == "mysql" else ""]
            if not path:
                return ok(m)
            if len(path) > 1:
                # Hive lists a table as itself
                if fam == "mysql" or len(path) > 2:
                    return [("err",)]
                return ok([path[1]]) if path[1] in m.get(path[0], {}) else gone
            return ok(m[path[0]]) if path[0] in m else gone
        if not path:
            return ok(dbs)
        if len(path) > 2:
            return [("err",)]
        if path[0] not in dbs:
            return gone
        if len(path) == 1:
            return ok(dbs[path[0]])
        return ok(dbs[path[0]][path[1]]) if path[1] in dbs[path[0]] else gone

    def expected_pages(self, s, sts, path):
        sets, err = [], False
        if len(path) > 2:
            return [("err",)]
        for st in sts:
            x = st["dbs"]
            for p in path:
                x = x.get(p) if x is not None else None
            if x is None:
                err = True
            else:
                sets.append(frozenset(x))
        out = [("err",)] if err else []
        if sets:
            must = frozenset.intersection(*sets) if not err else frozenset()
            out.append(("ok", "pages", (must, frozenset.union(*sets))))
        return out

    def matches(self, exp, kind, v):
        tag = exp[1]
        if tag == "set":
            return isinstance(v, list) and all(isinstance(x, str) for x in v) and len(v) == len(set(v)) and \
                frozenset(v) - ALLSYS == exp[2] - ALLSYS
        if tag == "pages":
            must, may = exp[2]
            return isinstance(v, list) and len(v) == len(set(v)) and must <= set(v) <= may
        if tag == "recap":
            try:
                return canon.canon(v) == exp[2]
            except Exception:
                return False
        if tag == "names":
            if isinstance(v, dict) and isinstance(v.get("fields"), list):
                return [f.get("name") if isinstance(f, dict) else None for f in v["fields"]] == exp[2]
            if isinstance(v, dict) and isinstance(v.get("properties"), dict):
                return list(v["properties"]) == exp[2]
            return isinstance(v, str) and all(n in v for n in exp[2])
        if tag == "protobuf":
            return isinstance(v, str) and strip_proto(model.proto_tokens(v)) == exp[2]
        return v == exp[2]

    def judge(self, what, exps, kind, r, caused):
        """One answer against the justified ones; returns (class, text) or None."""
        if "ok" in r:
            if any(e[0] == "any" for e in exps):
                return None
            if any(e[0] == "ok" and self.matches(e, kind, r["ok"]) for e in exps):
                return None
            want = [e[2] if e[0] == "ok" else "error" for e in exps][:2]
            return "wrong-answer", f"{what} answered {json.dumps(r['ok'], default=repr)[:400]} but the upstream held {str(want)[:500]}"
        if "err" in r:
            if caused or any(e[0] in ("err", "any") for e in exps):
                return None
            return "error-without-cause", f"{what} failed with {r['err']} although nothing failed and the upstream held {str([e[1:] for e in exps])[:300]}"
        return None

    def check(self):
        getattr(self, "check_" + self.prop.lower())()

    def faults_of(self):
        f = {}
        for seq, base, site, kind in self.sim.fault_log:
            if kind not in BENIGN:
                f.setdefault(base, []).append((site, kind))
        return f

    def check_c06(self):
        for o in self.ops:
            if o["leaked"]:
                self.sim.violation("leak", f"{o['id']} ({o['op']['e']} {o['kind']} {o['op'].get('up')}, "
                                   f"{'ok' if 'ok' in o else o.get('err')}) left open: {', '.join(o['leaked'])}")
            self.sim.count("probe", "closed" if o["opened"] else "no_connection", max(1, o["opened"]))

    def each(self):
        """(record, description, server, kind, path, fmt, result, start, end) of every answered call."""
        for o in self.ops:
            op = o["op"]
            if o.get("gone") or "url" in op or op["kind"].startswith("reg_") or op["kind"] == "root":
                continue
            s = self.up[op["up"]]
            if "calls" in o:
                for i, c in enumerate(o["calls"]):
                    yield o, f"{op['id']} call {i} {c['kind']} {s.id} {c['path']}", s, c["kind"], c["path"], "recap", c, c["start"], c["end"]
                if not o["calls"]:
                    yield o, f"{op['id']} open {s.id}", s, op["kind"], op["path"], "recap", o, o["start"], o["end"]
                continue
            yield o, f"{op['id']} {op['e']} {op['kind']} {s.id} {op['path']} {op.get('fmt', '')}", s, op["kind"], op["path"], \
                op.get("fmt", "recap"), o, o["start"], o["end"]

    def check_answers(self, only=None, exps_only=None):
        sim = self.sim
        f = self.faults_of()
        for o, what, s, kind, path, fmt, r, a, b in self.each():
            op = o["op"]
            if only is not None and not only(o):
                continue
            if "own" in op:
                exps = self.expected(s, kind, path, fmt, a, b, op.get("stats") and kind == "schema")
                sim.count("probe", "answers_without_settings")
            elif op["e"] in ("http", "api") and not gwurl.allowed(s.u, path):
                exps = [("err",)]
            elif op["e"] == "cli" and not gwurl.allowed(s.u, path):
                continue      # the CLI uses such URLs as they are, without credentials
            elif "calls" in o and not ctx_sees(s, op, path):
                continue
            else:
                exps = self.expected(s, kind, path, fmt, a, b, op.get("stats") and kind == "schema")
            if exps_only is not None and not exps_only(exps):
                continue
            # Snowflake lets clients connect to a database that does not exist, and fails their queries
            nodb = "calls" in o and s.family == "snow" and op["path"] and op["path"][0] not in s.u["state"]["dbs"]
            bad = self.judge(what, exps, kind, r, bool(f.get(o["id"]) or nodb))
            sim.count("probe", "answers_checked")
            if "ok" in r:
                sim.count("probe", f"ok_{s.family}_{kind}")
            if bad:
                sim.violation(*bad)
            if "err" in r and o.get("cli_partial"):
                sim.violation("partial", f"{what} failed but had already printed {o['cli_partial'][:200]!r}")

    def check_c07(self):
        self.check_answers()
        for o in self.ops:
            if o["kind"] == "root" and not o.get("gone"):
                if "ok" not in o or len(o["ok"]) != len(self.plan["urls"]):
                    self.sim.violation("wrong-answer", f"{o['id']}: root listing {o.get('ok')} {o.get('err')} for {len(self.plan['urls'])} URLs")

    def check_c08(self):
        f = self.faults_of()
        first = min((seq for seq, base, site, kind in self.sim.fault_log if kind not in BENIGN), default=None)
        # a request with a fault of its own, and everything after the first fault
        self.check_answers(lambda o: o["id"] in f or (first is not None and o["start"] > first))

    def check_c11(self):
        sim = self.sim
        byid = {o["id"]: o for o in self.ops}
        for req, fam, sid, what in self.w.writes:
            o = byid.get(req)
            d = f"{req} {o['op']['e']} {o['kind']} {o['op'].get('path') or o['op'].get('url')}" if o else f"request {req}"
            sim.violation("upstream-written", f"{d} sent {fam} {sid} a request that changes it: {what}")
        sim.count("probe", "requests_checked", len(self.ops))
        if sim.escapes:
            sim.violation("upstream-changed", "touched outside: " + "; ".join(sim.escapes[:3]))
        # a name in a request is a name, never part of a statement: nothing is found where nothing is
        self.check_answers(exps_only=lambda exps: all(e[0] == "err" or e[0] == "ok" and e[1] in ("set", "pages") and not e[2] for e in exps))

    # C09
    def secrets(self):
        out = {}
        for u in self.plan["ups"]:
            for k in ("user", "pw", "extra"):
                v = u.get(k)
                if v:
                    out[v] = f"{k} of {u['id']}"
            for d, (us, pw) in (u.get("per") or {}).items():
                out[us], out[pw] = f"user of {u['id']}/{d}", f"pw of {u['id']}/{d}"
        full = {}
        for v, n in out.items():
            core_ = v[: next((i for i, ch in enumerate(v) if not ch.isalnum()), len(v))]
            for x in {v, quote(v, safe=""), quote_plus(v), core_, v.encode().hex(), json.dumps(v)[1:-1]}:
                full[x.lower()] = n
            for i in range(3):
                b = base64.b64encode(b"x" * i + v.encode()).decode().rstrip("=")
                b = b[4 if i else 0:-2]
                if len(b) > 8:
                    full[b.lower()] = n
        return full

    def check_c09(self):
        sim = self.sim
        sec = self.secrets()
        for o in self.ops:
            op = o["op"]
            if op["e"] == "http" and o.get("raw") is not None:
                hay = o["raw"].decode("utf-8", "replace").lower() + "\n" + "\n".join(
                    f"{k.decode('latin-1')}: {v.decode('latin-1')}" for k, v in o["headers"]).lower()
                sim.count("probe", "responses_scanned")
                for x, n in sec.items():
                    if x in hay:
                        sim.violation("secret-leak", f"{o['id']} {op['kind']} {op.get('url') or op.get('path')}: response {o['status']} shows the {n}: {o['raw'][:300]!r}")
                        break
            if op.get("refuse"):
                sim.count("probe", "refusals_checked")
                if "ok" in o:
                    sim.violation("served-unconfigured", f"{o['id']} {op['kind']} {op['url']} ({op['why']}) was answered: {str(o['ok'])[:200]}")
        byid = {o["id"]: o for o in self.ops}
        conf = {}
        for s in self.up.values():
            if s.u["configured"]:
                conf.setdefault((s.family, s.host), []).append(s)
        for req, fam, host, port, user, pw, db, kw in self.w.contacts:
            o = byid.get(req)
            if o is None and fam != "ref" and not any(s.port is None or port is None or s.port == port for s in conf.get((fam, host), [])):
                sim.violation("contact-unconfigured", f"contacted {fam} {host}:{port} without a request, and it is not configured")
            if o is None or o["op"]["e"] not in ("http", "api"):
                continue
            op = o["op"]
            sim.count("probe", "contacts_checked")
            where = f"{req} {op['kind']} {op.get('url') or (op.get('up'), op.get('path'))} contacted {fam} {host}:{port}"
            if op.get("refuse"):
                sim.violation("contact-unconfigured", f"{where} although the URL is not configured ({op['why']})")
                continue
            if kw.get("ssl.ca.location") == "off":
                sim.violation("other-options", f"{where} without verifying its certificate")
            ss = [s for s in conf.get((fam, host), []) if s.port is None or port is None or s.port == port]
            if not ss and fam == "sqlite":
                # below a configured file: covered by the URL, and there is nothing
                ss = [s for (f, h), x in conf.items() if f == fam and host.startswith(h + "/") for s in x]
            if fam == "ref":
                continue
            if not ss:
                sim.violation("contact-unconfigured", f"{where}, which is not configured")
                continue
            s = ss[0]
            if op.get("up") not in (s.id,) and "url" not in op:
                sim.violation("contact-unconfigured", f"{where} for a request to {op.get('up')}")
            if fam == "csr" and s.u.get("tls") and kw.get("scheme") != "https":
                sim.violation("wrong-credentials", f"{where} without TLS")
            per = s.u.get("per") or {}
            mine = tuple(per.get(db, (s.user, s.pw)))
            if fam != "bq" and mine[0] and (user, pw) not in (mine, (None, None)):
                if "url" in op and not any(x in (user or "", pw or "") for x in [s.user, s.pw] + [y for z in per.values() for y in z]):
                    continue    # credentials of the requester's own making
                sim.violation("wrong-credentials", f"{where} with user={user!r} password={pw!r}")
            opts = s.u.get("opts") or (s.u.get("optsper") or {}).get(db) or {}
            if per:
                sim.count("probe", "contacts_per_database")
            if "url" not in op:
                for k, v in opts.items():
                    if kw.get(k) != v:
                        sim.violation("other-options", f"{where} with {k}={kw.get(k)!r}, configured is {v!r}")
                        break
                sim.count("probe", "options_checked", len(opts))
            elif "guard" in op:
                for k in op["guard"]:
                    if k in kw and kw[k] != opts.get(k):
                        sim.violation("other-options", f"{where} with {k}={kw[k]!r}, configured is {opts.get(k)!r}")
                        break
            if "only" in s.u and db is not None and db not in s.u["only"]:
                sim.violation("contact-unconfigured", f"{where} database {db!r}, configured are {s.u['only']}")
        if sim.escapes:
            sim.violation("contact-unconfigured", "touched outside: " + "; ".join(sim.escapes[:3]))

    def check_c10(self):
        sim = self.sim
        f = self.faults_of()
        for o in self.ops:
            op = o["op"]
            if o.get("gone") or "t1" not in o:
                continue
            s = self.up.get(op.get("up"))
            start = o.get("t_sent", o["t0"])
            if s is not None:
                for a, b, then in (tuple(x) for x in s.u.get("stalls") or ()):
                    if o["t0"] < b and o["id"][0] != "z" and o["t1"] >= a:
                        start = max(start, b)
            slack = BOUND
            if f.get(o["id"]) and s is not None and s.family == "bq":
                slack += 1300.0      # its client library retries for ten minutes
            if o["t1"] - start > slack:
                sim.violation("delayed", f"{o['id']} {op['kind']} {op.get('up') or op.get('name') or ''} was answered {o['t1'] - start:.1f} s late "
                              f"(asked at {o['t0']:.2f}, answered at {o['t1']:.2f}) although its own upstream was not stalled")
            sim.count("probe", "latencies_checked")
            if op["kind"].startswith("reg_") and "err" in o:
                sim.violation("error-without-cause", f"{o['id']} {op['kind']}: {o['err']}")
        self.check_answers(lambda o: not o["op"]["kind"].startswith("reg_"))


SUFFIXES = {"." + x for xs in gwplan.EXT.values() for x in xs}


def flat(state):
    """Files of a file system upstream, by path."""
    return {(f"{d}/" if d else "") + n: doc for d, docs in state["dbs"][""].items() for n, doc in docs.items()}


ALLSYS = frozenset().union(*SYSTEM.values())


def canon_keep(t):
    return t


def strip_proto(tok):
    """Tokens without the syntax declaration."""
    if tok[:1] == ["syntax"]:
        return tok[tok.index(";") + 1:]
    return tok


def ctx_sees(s, op, path):
    """Can a client connected for op['path'] answer for `path`? (databases are per connection)"""
    fam = s.family
    if fam in ("pg", "snow"):
        mine = op["path"][0] if op["path"] else s.u.get("default_db")
        return not path or path[0] == mine
    return True


def make_plan(prop, seed):
    return gwplan.Gen(prop, seed).build()


def run_plan(plan, decisions=None, keep_log=False):
    return GwRun(plan, decisions, keep_log).run()
