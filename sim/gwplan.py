"""Workloads of the gateway simulation (C06-C11): upstreams, tables, requests, DDL, faults."""
from __future__ import annotations

import copy
import random

# ---------------------------------------------------------------- columns
PG = [("bigint",), ("integer",), ("smallint",), ("double precision",), ("real",), ("boolean",), ("text",), ("jsonb",),
      ("character varying", [1, 20, 255]), ("character", [1, 8]), ("uuid",), ("bytea",), ("bit", [1, 8, 9, 64]),
      ("timestamp without time zone", [0, 3, 6]), ("numeric", [[10, 2], [38, 0]]),
      ("ARRAY", [["int4", 1], ["int8", 2], ["text", 1], ["float8", 3], ["varchar", 1]]),
      ("enum", [{"name": "mood", "labels": ["sad", "ok", "happy"]}, {"name": "lvl", "labels": ["z", "m", "a", "b"]}])]
PG_BAD = [("inet",), ("date",), ("interval",)]
MY = [("bigint",), ("int",), ("mediumint",), ("smallint",), ("tinyint",), ("double",), ("float",), ("varchar", [1, 30, 255]),
      ("char", [1, 10]), ("text",), ("enum", [5]), ("varbinary", [16]), ("binary", [4]), ("blob",), ("bit", [1, 8]),
      ("timestamp", [0, 3, 6]), ("datetime", [0, 6]), ("decimal", [[10, 2], [65, 30]]), ("year",), ("json",)]
MY_BAD = [("geometry",), ("point",)]
SF = [("NUMBER", [[38, 0], [10, 2]]), ("FLOAT",), ("BOOLEAN",), ("TEXT", [10, 16777216]), ("BINARY", [8, 8388608]), ("DATE",),
      ("TIMESTAMP_NTZ",), ("TIME",)]
SF_BAD = [("VARIANT",), ("GEOGRAPHY",)]
SQ = [("INTEGER",), ("BIGINT",), ("TEXT",), ("VARCHAR(20)",), ("CHAR(3)",), ("BLOB",), ("",), ("REAL",), ("FLOAT(10)",),
      ("DOUBLE",), ("NUMERIC",), ("DECIMAL(10,2)",), ("BOOLEAN",), ("CLOB",)]
HM = [("boolean",), ("tinyint",), ("smallint",), ("int",), ("bigint",), ("float",), ("double",), ("string",), ("binary",),
      ("date",), ("timestamp",), (["decimal", 10, 2],), (["varchar", 20],), (["char", 4],), (["array", "int"],),
      (["map", "string", "bigint"],), (["struct", [["a", "int"], ["b", ["array", "string"]]]],)]
BQ = [("STRING", [None, 10]), ("BYTES", [None, 16]), ("INTEGER",), ("FLOAT",), ("BOOLEAN",), ("TIMESTAMP",), ("DATETIME",),
      ("TIME",), ("DATE",), ("NUMERIC", [None, [10, 2]])]
BQ_BAD = [("GEOGRAPHY",)]
DOC = {"avro": ["int", "long", "string", "double", "bool", "bytes", "ts"], "json": ["int", "string", "double", "bool"],
       "proto": ["int", "long", "string", "double", "bool", "bytes", "uint"]}
CN = ["id", "tags", "name", "val", "a", "b", "c", "ts", "kind", "zed", "Order", "x_1"]
CN_ODD = ["größe", "a b", "select", "a.b", "a_b", "1st", "Ünï", "%s", "q'q"]
STATS = {"bigint": "long", "int": "long", "smallint": "long", "tinyint": "long", "float": "double", "double": "double", "string": "string",
         "boolean": "boolean", "binary": "binary", "date": "date"}
KINDS = {"pg": (PG, PG_BAD), "mysql": (MY, MY_BAD), "snow": (SF, SF_BAD), "sqlite": (SQ, []), "hms": (HM, []), "bq": (BQ, BQ_BAD)}
EXT = {"avro": ["avsc", "avro"], "json": ["json", "jsonschema"], "proto": ["proto", "proto3"]}
FMTS = ["recap", "avro", "json", "protobuf"]
HOSTILE = ["x' OR '1'='1", "t1' --", "%", "_", "t_", "t1%", "x'; DROP TABLE t1; --", 't1"', "t1`", "x) OR (1=1", "x' OR 1=1 -- ",
           "x' UNION SELECT * FROM information_schema.columns --", "%s", "%(a)s", "{0}", "\\' OR 1=1 -- ", "*", "x'; DELETE FROM t1 WHERE 'a'='a",
           "t1 ", " t1", "T1x", 'x" OR "1"="1', "x'); CREATE TABLE pwned (a INT); --", "t1\x00", "None", "null", "0"]
ALLFAM = ["pg", "mysql", "snow", "sqlite", "hms", "csr", "bq", "fs"]


class Gen:
    def __init__(self, prop, seed):
        self.rng = random.Random(f"{prop}/{seed}/plan")
        self.prop, self.seed = prop, seed
        self.n = 0

    # ------------------------------------------------------------- tables
    def col(self, fam, name, bad=False):
        r = self.rng
        kinds, badk = KINDS[fam]
        k = r.choice(badk) if bad and badk else r.choice(kinds)
        c = {"n": name, "k": k[0], "null": r.random() < 0.5}
        if len(k) > 1:
            c["a"] = copy.deepcopy(r.choice(k[1]))
        if fam in ("pg", "mysql", "snow") and r.random() < 0.2:
            c["def"] = r.choice(["0", "'x'::text", "now()", ""])
        if fam == "sqlite" and r.random() < 0.2:
            c["def"] = r.choice(["0", "'x'", "NULL", "CURRENT_TIMESTAMP"])
        if fam == "bq":
            c["mode"] = r.choice(["NULLABLE", "REQUIRED", "REPEATED", None]) or "NULLABLE"
            if r.random() < 0.15:
                c["k"], c["a"] = "RECORD", [{"n": "in1", "k": "INTEGER", "mode": "REQUIRED"}, {"n": "in2", "k": "STRING", "mode": "NULLABLE"}]
            if r.random() < 0.2 and c["mode"] == "REQUIRED":
                c["def"] = "1"
        if fam in ("bq", "hms") and r.random() < 0.3:
            c["doc"] = r.choice(["some doc", "döc"])
        return c

    def table(self, fam, odd=0.2, bad=0.0, mincols=1):
        r = self.rng
        names = list(CN)
        if fam not in ("bq", "hms") and r.random() < odd:
            names += CN_ODD if fam in ("pg", "mysql", "snow", "sqlite") else []
        n = r.choice([1, 2, 3, 4, 6, 8])
        cols = [self.col(fam, x) for x in r.sample(names, max(n, mincols))]
        if fam == "hms":
            for c in cols:
                c["n"] = c["n"].lower()
        if r.random() < bad and KINDS[fam][1]:
            i = r.randrange(len(cols) + 1)
            cols.insert(i, self.col(fam, "weird", bad=True))
        t = {"cols": cols}
        if fam == "sqlite" and r.random() < 0.3:
            c = cols[0]
            c["pk"], c["null"] = True, False
        if fam == "hms" and r.random() < 0.3:
            for c in cols:
                if isinstance(c["k"], str) and c["k"] in STATS and r.random() < 0.7:
                    c["stats"] = [r.randrange(-5, 0), r.randrange(1, 99), r.randrange(5), r.randrange(1, 50)]
                    if r.random() < 0.2:
                        c["stats"][r.randrange(2)] = None
            t["static"] = True
        return t

    def doc(self, fmt, name, refs=()):
        r = self.rng
        self.n += 1
        d = {"fmt": fmt, "name": "Rec" + name.capitalize().replace("-", "").replace(".", ""), "ns": "com.ex" + str(r.randrange(3)), "cols": []}
        for x in r.sample(CN, r.choice([1, 2, 3, 5])):
            c = {"n": x, "k": r.choice(DOC[fmt]), "null": r.random() < 0.4}
            if fmt == "proto":
                c["n"], c["null"] = x.lower(), False
            if r.random() < 0.25:
                self.nested(fmt, c, d["cols"])
            if fmt != "proto" and "a" not in c and r.random() < 0.2:
                c["doc"] = "doc of " + x
            d["cols"].append(c)
        if fmt == "json" and refs and r.random() < 0.8:
            for u in r.sample(list(refs), r.randrange(1, len(refs) + 1)):
                self.n += 1
                d["cols"].append({"n": f"ref{self.n}", "k": "ref", "a": {"url": u}, "null": False})
        if fmt == "json" and r.random() < 0.3:
            d["id"] = f"https://ids.example.com/{d['name'].lower()}"
        return d

    def nested(self, fmt, c, before):
        """Make a column a compound one."""
        r = self.rng
        self.n += 1
        c.pop("doc", None)
        if fmt == "avro":
            c["null"] = False
            k = c["k"] = r.choice(["arr", "map", "enum", "rec", "union", "same"])
            recs = [x["a"][0] for x in before if x["k"] in ("rec", "enum")]
            if k == "same":
                if recs:
                    c["a"] = r.choice(recs)
                    return
                k = c["k"] = "rec"
            c["a"] = {"arr": r.choice(["int", "string", "double"]), "map": r.choice(["int", "long", "string"]),
                      "enum": [f"Enum{self.n}", ["RED", "BLUE", "A"][: r.randrange(1, 4)]],
                      "rec": [f"Sub{self.n}", [[f"in{self.n}_{j}", r.choice(DOC["avro"][:6])] for j in range(r.randrange(1, 4))]],
                      "union": r.choice([["int", "string"], ["string", "double", "bool"]])}[k]
        elif fmt == "json":
            k = c["k"] = r.choice(["arr", "obj", "date-time", "date", "time", "either"])
            if k in ("obj", "either"):
                c["null"] = False
            c["a"] = {"arr": r.choice(DOC["json"]), "obj": [[f"in{self.n}_{j}", r.choice(DOC["json"])] for j in range(r.randrange(1, 4))],
                      "either": r.choice([["string", "int"], ["bool", "double", "string"]])}.get(k)
        else:
            k = c["k"] = r.choice(["rep", "map", "enum", "msg", "opt"])
            c["a"] = {"rep": r.choice(DOC["proto"]), "map": [r.choice(["string", "int"]), r.choice(DOC["proto"])],
                      "enum": [f"Enum{self.n}", [f"E{self.n}_{x}" for x in "XYZ"[: r.randrange(1, 4)]]],
                      "msg": [f"Sub{self.n}", [[f"in{self.n}_{j}", r.choice(DOC["proto"])] for j in range(r.randrange(1, 4))]],
                      "opt": r.choice(DOC["proto"])}[k]

    # ---------------------------------------------------------- upstreams
    def up(self, fam, i, cfgpath=None):
        r, p = self.rng, self.prop
        bad = {"C06": 0.3, "C08": 0.1, "C07": 0.15}.get(p, 0.05)
        u = {"id": f"{fam}{i}", "family": fam, "host": f"{fam}{i}", "port": None, "user": None, "pw": None, "configured": True}
        names = ["t1", "t2", "users", "orders", "big_table"]
        if fam in ("pg", "mysql", "snow", "sqlite") and r.random() < 0.3:
            names += ["Tbl", "t-1", "täble", "a b"]
        if r.random() < 0.3:
            # names a pattern match confuses, or a filter might hide
            names = ["big_table", "bigxtable", "t_1", "tx1", "_hidden", "t1", "t2"]
            if fam in ("pg", "snow"):
                names += ["T1", "pg_stats_x"]
            if fam not in ("hms", "bq"):
                names += ["t%", "x.y"]
        big = r.choice([60, 130, 530, 1030, 1030, 2100]) if self.prop in ("C07", "C08") and r.random() < 0.04 else 0
        # schemas and databases a loose comparison confuses
        alike = r.random() < 0.3
        if fam in ("pg", "mysql", "snow"):
            names = sorted({n.upper() if fam == "snow" and n.islower() else n for n in names})
            if fam == "snow" and alike:
                names += ["t1", "Users"]

            def tabs():
                return {n: self.table(fam, bad=bad) for n in r.sample(names, r.randrange(1, 5))}
        if fam == "pg":
            u.update(port=5432 + (i if r.random() < 0.5 else 0), user=self.secret("u", f"pg{i}"), pw=self.secret("p", f"pg{i}"), default_db="db1")
            u["state"] = {"dbs": {d: {s: tabs() for s in (r.sample(["public", "Public", "s_1", "sx1", "S_1", "s%"], 3) if alike else ["public", "s1"][: r.randrange(1, 3)])}
                                  for d in (["db1", "DB1", "db_1"] if alike else ["db1", "db2", "db10"])[: r.randrange(1, 4)]}}
        elif fam == "mysql":
            u.update(port=3306, user=self.secret("u", f"my{i}"), pw=self.secret("p", f"my{i}"))
            u["state"] = {"dbs": {"def": {s: tabs() for s in (["db_1", "dbx1", "db%", "db1"] if alike else ["db1", "db2", "db10"])[: r.randrange(1, 4)]}}}
        elif fam == "snow":
            u.update(host=f"acct{i}", user=self.secret("u", f"sf{i}"), pw=self.secret("p", f"sf{i}"), default_db=r.choice(["DB1", "DB2"]))
            u["state"] = {"dbs": {d: {s: tabs() for s in (r.sample(["PUBLIC", "Public", "public", "S_1", "SX1"], 3) if alike else ["PUBLIC", "S1"][: r.randrange(1, 3)])}
                                  for d in ["DB1", "DB2"]}}
        elif fam == "sqlite":
            u.update(host=f"/db{i}.sqlite" if r.random() < 0.6 else f"/data/db{i}.sqlite")
            if r.random() < 0.25:
                u["abs"] = True
            if p in ("C07", "C08", "C11") and r.random() < (0.25 if p == "C11" else 0.08):
                u["absent"] = True
            u["state"] = {"dbs": {"": {"": {n: self.table(fam) for n in r.sample(names, r.randrange(1, 5))}}}}
        elif fam == "hms":
            u.update(port=9083)
            u["state"] = {"dbs": {"": {d: {n: self.table(fam) for n in r.sample(names[:5], r.randrange(1, 5))} for d in ["default", "dw"][: r.randrange(1, 3)]}}}
        elif fam == "bq":
            u.update(host="bigquery.googleapis.com", port=443, pw=self.secret("p", "bqtok"), page=r.choice([1, 2, 3, 50]), default_db="proj1")
            u["state"] = {"dbs": {d: {s: {n: self.table(fam, bad=bad) for n in r.sample(names, r.randrange(1, 5))}
                                      for s in ["ds1", "ds2", "ds3"][: r.randrange(1, 4)]} for d in ["proj1", "proj2", "proj3"][: r.randrange(1, 4)]}}
        elif fam in ("csr", "fs"):
            refs = list(self.refdocs)
            docs = {}
            bulk = self.doc("json", "bulk") if big else None
            for j in range(big):
                docs[f"bulk{j}-value" if fam == "csr" else f"bulk{j}.json"] = bulk
            if big:
                u["bulk"] = ["ls", []]
            for j in range(r.randrange(1, 5)):
                f = r.choice(["avro", "json", "json", "proto"])
                if fam == "csr":
                    n = f"sub{j}-" + r.choice(["value", "key"])
                    if alike:
                        n = r.choice(["sub0", "sub1"]) + r.choice(["-value", "-key", "", "-value-key", "-key-value", "-Value", "_value", "-values"])
                else:
                    x = r.choice(EXT[f])
                    n = f"f{j}." + (r.choice([x, x, x.upper(), x.capitalize()]) if alike else x)
                    if alike and r.random() < 0.3:
                        n = r.choice([".hidden." + x, "README.md", "noext", "a b." + x, "a.b.c." + x, f"F{j}.{x}", "." + x, "übung." + x, x, "x." + x + "~"])
                docs[n] = self.doc(f, f"s{j}", refs)
                if r.random() < bad * 0.3:
                    docs[n]["broken"] = True
            if fam == "csr":
                u.update(port=8081)
                if r.random() < 0.4:
                    u["tls"] = True
                if r.random() < 0.6:
                    u.update(user=self.secret("u", f"csr{i}"), pw=self.secret("p", f"csr{i}"))
            u["state"] = {"dbs": {"": {"": docs}}}
            if fam == "fs" and r.random() < 0.3:
                # subdirectories, one named like a file type
                for d in r.sample(["sub", "sub.json", "Sub"], r.randrange(1, 3)):
                    f = r.choice(["avro", "json", "proto"])
                    u["state"]["dbs"][""][d] = {n: self.doc(f, "in", refs) for n in r.sample(["f0." + EXT[f][0], "f1." + EXT[f][1], "g." + EXT[f][0]], r.randrange(1, 3))}
        if big and fam not in ("csr", "fs"):
            d = r.choice(list(u["state"]["dbs"]))
            sc = r.choice(list(u["state"]["dbs"][d]))
            tabs = u["state"]["dbs"][d][sc]
            at = [d, sc] if fam in ("pg", "snow", "bq") else [sc] if fam != "sqlite" else []
            if r.random() < 0.6:
                u["bulk"] = ["ls", at]
                one = {"cols": [self.col(fam, "c")]}
                for j in range(big):
                    tabs[f"BULK{j}" if fam == "snow" else f"bulk{j}"] = one
                u["page"] = 100
            else:
                t = r.choice(list(tabs))
                u["bulk"] = ["schema", at + [t]]
                tabs[t] = {"cols": [self.col(fam, f"col{j}") for j in range(min(big, r.choice([130, 130, 330])))]}
                if fam == "pg":
                    for c in tabs[t]["cols"]:
                        if c["k"] == "ARRAY":
                            c["k"], c["a"] = "text", None
        return u

    def secret(self, k, tag):
        s = f"{k}Sec{tag}x{self.rng.randrange(1000, 9999)}"
        if k == "p" and self.prop == "C09" and self.rng.random() < 0.3:
            s += self.rng.choice(["@1", "/a", ":b", "%41", "?x", "#y", " z", "&w=1"])
        return s

    # ----------------------------------------------------------- requests
    def target(self, u, kind):
        """A path of an existing or missing object in the initial state."""
        r = self.rng
        fam = u["family"]
        dbs = u["state"]["dbs"]
        miss = r.random() < (0.12 if self.prop in ("C06", "C07") else 0.05)
        d = r.choice(list(dbs))
        s = r.choice(list(dbs[d])) if dbs[d] else "nope"
        t = r.choice(list(dbs[d].get(s) or {"nope": 0}))
        miss = miss or self.prop == "C11" and r.random() < 0.3
        gone = r.choice(HOSTILE) if r.random() < 0.6 else "missing"
        if miss:
            if fam == "fs":
                gone += r.choice(["", ".json", ".avsc", ".proto"])
            t = gone
        elif fam in ("pg", "mysql", "snow", "bq", "csr") and r.random() < 0.04:
            t = t.swapcase()   # another table, or none
        if miss and fam == "fs" and r.random() < 0.4:
            s = r.choice(["nodir", "nodir", t])
        if fam in ("pg", "snow", "bq"):
            full = [d, s, t]
        elif fam in ("mysql", "hms") or s:
            full = [s, t]
        else:
            full = [t]
        if r.random() < 0.02:
            full.append(r.choice([t, "t1", "x"]))   # something below a table
        if fam == "csr" and r.random() < 0.2:
            # the subject of the topic's values
            full[-1] = full[-1].removesuffix("-value").removesuffix("-key")
        if kind == "schema":
            return full
        n = len(full) - 1
        depth = r.choice([n] * 3 + list(range(n + 1)))
        if r.random() < 0.06:
            depth = n + 1   # listing a table
        out = full[:depth]
        if miss and out:
            out[-1] = gone
        return out

    def op(self, oid, ups, entries, at=None):
        r = self.rng
        u = at[0] if at else r.choice(ups)
        kind = at[1] if at else r.choice(["schema", "schema", "schema", "ls"])
        fam = u["family"]
        e = r.choice(entries)
        own = None
        if not u["configured"]:
            e = r.choice(["cli", "cli", "api", "ctx"]) if u.get("own") else "ctx"
            own = r.choice(["full", "bare"])
        if at:
            path = list(at[2])
        elif u.get("bulk") and r.random() < 0.6:
            kind = u["bulk"][0]
            path = list(u["bulk"][1])
        else:
            path = self.target(u, kind)
        o = {"id": oid, "e": e, "kind": kind, "up": u["id"], "path": path, "pre": r.choice([0, 0, 0, 0.001, 0.01, 0.05, 0.3])}
        if own and e != "ctx":
            o["own"] = own
        if kind == "schema":
            o["fmt"] = r.choice(["recap", "recap", "recap"] + FMTS)
            if r.random() < 0.3:
                o["noct"] = True
            if fam == "hms" and r.random() < 0.5:
                o["stats"] = True
        if e in ("http", "api") and u["configured"] and fam in ("pg", "mysql", "snow", "csr", "hms") and r.random() < 0.06:
            # as in the README: the gateway uses the configured credentials all the same
            o["cred"] = r.choice(["user:pass", "user", "other:p%40ss"])
        if e in ("http", "api") and u["configured"] and fam in ("pg", "mysql", "snow", "csr") and r.random() < 0.1:
            o["opts"] = True    # with the parameters that the listing of the URLs shows
        if e == "api" and o.get("fmt", "recap") == "recap" and r.random() < 0.3:
            o["steps"] = True
        if e == "ctx":
            o["fmt"] = "recap"
            if at:
                # one client, the same objects again and again
                same = [x for x in self.pool if x[0] is u]
                o["more"] = [[k, list(p)] for _, k, p in (at if r.random() < 0.6 else r.choice(same) for _ in range(r.randrange(1, 5)))]
                o["gap"] = r.choice([0, 0.003, 0.01, 0.03, 0.06])
            elif r.random() < (0.6 if self.prop == "C07" else 0.35):
                o["more"] = []
                again = r.random() < 0.5
                for _ in range(r.randrange(1, 4)):
                    k = r.choice(["schema", "schema", "ls"])
                    o["more"].append([kind, list(path)] if again and r.random() < 0.7 else [k, self.target(u, k)])
                if again:
                    o["gap"] = r.choice([0, 0.005, 0.05])
            if self.prop == "C06" and r.random() < 0.3:
                o["raise"] = r.choice(["ValueError", "KeyboardInterrupt", "StopIteration", "GeneratorExit"])
        return o

    def ddl(self, aid, u):
        r = self.rng
        ops = []
        fam = u["family"]
        pool = [x for x in self.pool if x[0] is u]
        for j in range(r.randrange(1, 6)):
            do = r.choice(["add", "dropcol", "alter", "alter", "reorder", "create", "drop", "replace", "swap"])
            d = r.choice(list(u["state"]["dbs"]))
            s = r.choice(list(u["state"]["dbs"][d]) or [""])
            t = r.choice(list(u["state"]["dbs"][d].get(s) or ["t1"]))
            if pool and r.random() < 0.85:
                # the object the clients ask for, or something in it
                _, kind, path = r.choice(pool)
                at = (["def"] if fam == "mysql" else [""] if fam == "hms" else [] if fam in ("pg", "snow", "bq") else ["", ""]) + path
                if len(at) > 0 and at[0] in u["state"]["dbs"]:
                    d = at[0]
                    s = at[1] if len(at) > 1 and at[1] in u["state"]["dbs"][d] else r.choice(list(u["state"]["dbs"][d]) or [""])
                    tabs = u["state"]["dbs"][d].get(s) or {"t1": 0}
                    t = at[2] if len(at) > 2 and at[2] in tabs else r.choice(list(tabs))
                if kind == "ls" and r.random() < 0.7:
                    do = r.choice(["create", "create", "drop"])
            a = {"id": f"{aid}.{j}", "do": do, "at": [d, s, t], "pre": r.choice([0, 0.001, 0.003, 0.01, 0.03, 0.1])}
            if fam in ("csr", "fs"):
                f = u["state"]["dbs"][d][s].get(t, {}).get("fmt", "avro")
                a["new"] = self.doc(f, f"n{j}", list(self.refdocs))
                a["to"] = f"new{j}." + EXT[f][0] if fam == "fs" else f"new{j}-value"
            elif fam == "ref":
                a["do"] = "replace"
                a["new"] = self.doc("json", f"n{j}")
            else:
                a["new"] = self.table(fam, odd=0)
                a["new"].pop("static", None)
                for c in a["new"]["cols"]:
                    c.pop("stats", None)
                a["col"] = self.col(fam, f"new{j}")
                a["to"] = f"new{j}" if fam != "snow" else f"NEW{j}"
            ops.append(a)
        return {"id": aid, "up": u["id"], "ops": ops}

    def base(self):
        r = self.rng
        return {"p_switch": r.choice([0.05, 0.15, 0.3, 0.5]), "policy": r.choice(["random", "random", "pct"]), "line": False,
                "slots": ["p0"], "latency": r.choice([0.0005, 0.001, 0.01])}

    def build(self):
        r, prop = self.rng, self.prop
        cfg = self.base()
        self.refdocs = {}
        plan = {"prop": prop, "seed": self.seed, "kind": "gw", "cfg": cfg, "faults": None, "actors": []}
        fams = list(ALLFAM)
        r.shuffle(fams)
        fams = fams[: r.choice([1, 2, 3, 4])]
        self.pool = []
        self.focus = prop in ("C07", "C08") and r.random() < 0.5
        if self.focus:
            fams = fams[:1]
        elif r.random() < 0.3:
            fams.append(r.choice(fams))
        if "csr" in fams or "fs" in fams:
            if r.random() < 0.7:
                for j in range(r.randrange(1, 3)):
                    u = f"https://schemas{j}.example.com/defs/d{j}.json"
                    d = self.doc("json", f"d{j}")
                    d["id"] = u
                    if r.random() < 0.5:
                        d["$schema"] = True
                    self.refdocs[u] = d
        seen = set()
        ups = []
        for i, f in enumerate(fams):
            if f in ("bq", "fs") and f in seen:
                continue
            seen.add(f)
            ups.append(self.up(f, i))
        if self.refdocs:
            ups.append({"id": "ref", "family": "ref", "host": "schemas", "port": None, "user": None, "pw": None, "configured": True,
                        "state": {"dbs": {"": {"": self.refdocs}}}})
        plan["ups"] = ups
        if prop in ("C06", "C07", "C08", "C11") and r.random() < 0.25:
            # not in the settings: the CLI and the Python API are given the complete URL
            for u in ups:
                if u["family"] != "ref" and r.random() < 0.6:
                    u["configured"], u["own"] = False, True
        getattr(self, prop.lower())(plan, ups)
        if not plan.get("urls"):
            plan["urls"] = self.urls(ups)
        if r.random() < 0.12:
            plan["cfg"]["secrets"] = True
        if any(u.get("bulk") for u in ups):
            plan["cfg"]["line"] = False    # thousands of rows: too many lines
        return plan

    def urls(self, ups, rich=False):
        """Configured URLs."""
        r = self.rng
        out = []
        for u in ups:
            for x in base_urls(u, r, rich):
                out.append(x)
        if r.random() < 0.5:
            r.shuffle(out)
        return out

    def clients(self, plan, nclients, nops, ups, entries):
        r = self.rng
        plan["clients"] = []
        ups = [u for u in ups if u["family"] != "ref"]
        if self.focus:
            # one or two objects, asked for again and again
            for _ in range(r.choice([1, 1, 2])):
                u = r.choice(ups)
                kind = r.choice(["schema", "schema", "ls"])
                self.pool.append((u, kind, list(u["bulk"][1]) if u.get("bulk") and kind == u["bulk"][0] else self.target(u, kind)))
            fmts = r.random() < 0.5
            if r.random() < 0.6:
                entries = [r.choice(["http", "http", "api", "ctx"])]
            for ci in range(r.choice([1, 1, 2])):
                ops = [self.op(f"c{ci}.{j}", ups, entries, r.choice(self.pool)) for j in range(r.randrange(3, 8))]
                for o in ops:
                    o["pre"] = r.choice([0, 0, 0.001, 0.005, 0.02, 0.05])
                    if fmts and o["kind"] == "schema":
                        o["fmt"] = "recap"
                plan["clients"].append({"id": f"c{ci}", "ops": ops})
            return
        for ci in range(nclients):
            ops = [self.op(f"c{ci}.{j}", ups, entries) for j in range(nops)]
            plan["clients"].append({"id": f"c{ci}", "ops": ops})
        # several requests for the same object find shared state sooner
        if r.random() < 0.4:
            pool = [o for c in plan["clients"] for o in c["ops"]]
            x = r.choice(pool)
            for o in pool:
                if r.random() < 0.4 and o is not x:
                    keep = {"id": o["id"], "pre": o["pre"]}
                    o.clear()
                    o.update({**copy.deepcopy(x), **keep})

    def faultspec(self, **kw):
        r = self.rng
        return {"budget": r.choice([1, 1, 2, 4]), "p": r.choice([0.03, 0.08, 0.2]), "only": r.choice(["any", "any", "late", "connect", "query"]), **kw}

    # -------------------------------------------------------- properties
    def c06(self, plan, ups):
        r = self.rng
        if r.random() < 0.75:
            plan["faults"] = self.faultspec()
        if r.random() < 0.15:
            plan["cfg"]["line"] = True
        self.clients(plan, r.randrange(1, 4), r.randrange(2, 5), ups, ["http", "http", "api", "cli", "ctx"])
        for c in plan["clients"]:
            for o in c["ops"]:
                if o["e"] == "http" and r.random() < 0.15:
                    o["hang"] = r.choice([0, 0.0005, 0.002, 0.01])
        if r.random() < 0.3:
            u = r.choice([u for u in ups])
            plan["actors"] = [self.ddl("d0", u)]
        self.outages(ups, 0.2)

    def outages(self, ups, p):
        r = self.rng
        for u in ups:
            if r.random() < p:
                a = r.choice([0.0, 0.001, 0.01, 0.05])
                u["down"] = [[a, a + r.choice([0.01, 0.05, 0.3])]]
            elif r.random() < p:
                a = r.choice([0.0, 0.001, 0.01, 0.05])
                u["stalls"] = [[a, a + r.choice([0.05, 1.0, 60.0]), r.choice(["answer", "fail"])]]

    def c07(self, plan, ups):
        r = self.rng
        k = r.random()
        self.clients(plan, r.randrange(1, 5), r.randrange(1, 6), ups, ["http", "http", "http", "api", "cli", "ctx"])
        if k < (0.95 if self.focus else 0.7):
            for j in range(r.randrange(1, 3)):
                plan["actors"].append(self.ddl(f"d{j}", r.choice(ups)))
        if r.random() < 0.2:
            plan["faults"] = self.faultspec()
        if r.random() < 0.2:
            plan["cfg"]["line"] = True
        if r.random() < 0.3:
            self.outages(ups, 0.3)

    def c08(self, plan, ups):
        r = self.rng
        if r.random() < 0.85:
            plan["faults"] = self.faultspec()
        self.outages(ups, 0.6 if self.focus else 0.3)
        self.clients(plan, r.choice([1, 1, 2, 3]), r.randrange(2, 6), ups, ["http", "http", "api", "cli", "ctx"])
        if r.random() < 0.25:
            plan["actors"] = [self.ddl("d0", r.choice(ups))]

    def c11(self, plan, ups):
        r = self.rng
        self.clients(plan, r.randrange(1, 4), r.randrange(2, 6), ups, ["http", "http", "api", "cli", "ctx"])
        if r.random() < 0.4:
            plan["faults"] = self.faultspec()
        if r.random() < 0.4:
            for j in range(r.randrange(1, 3)):
                plan["actors"].append(self.ddl(f"d{j}", r.choice(ups)))
        self.outages(ups, 0.1)
        can = [u for u in ups if u["family"] == "mysql" and u["configured"]]
        if can and r.random() < 0.4:
            from .gwurl import guarded, some_path
            u = r.choice(can)
            x = {"id": "c0.g0", "kind": "schema", "pre": 0, "e": r.choice(["http", "http", "api"]), **guarded(r, u, some_path(r, u))}
            ops = plan["clients"][0]["ops"]
            ops.insert(r.randrange(len(ops) + 1), x)

    def c09(self, plan, ups):
        r = self.rng
        if r.random() < 0.5:
            plan["faults"] = self.faultspec()
        # some upstreams exist but are not configured
        for u in ups:
            if u["family"] != "ref" and r.random() < 0.25:
                u["configured"] = False
        if not any(u["family"] in ("pg", "mysql", "snow") and u["configured"] for u in ups):
            f = r.choice(["pg", "mysql", "snow"])
            ups.append(self.up(f, len(ups)))
        plan["urls"] = self.urls(ups, rich=True)
        self.clients(plan, r.randrange(1, 3), r.randrange(2, 5), ups, ["http", "http", "http", "api"])
        n = 0
        for c in plan["clients"]:
            for _ in range(r.randrange(1, 5)):
                x = self.evil(ups, plan["urls"])
                if x is not None:
                    n += 1
                    x.update(id=f"{c['id']}.e{n}", pre=0, e=r.choice(["http", "http", "http", "api"]))
                    if x["e"] == "api" and r.random() < 0.5:
                        x["steps"] = True
                    c["ops"].insert(r.randrange(len(c["ops"]) + 1), x)
            if r.random() < 0.5:
                c["ops"].append({"id": f"{c['id']}.root", "e": r.choice(["http", "api"]), "kind": "root", "pre": 0})

    def evil(self, ups, urls):
        from .gwurl import evil
        return evil(self.rng, ups, urls)

    def c10(self, plan, ups):
        r = self.rng
        plan["cfg"]["latency"] = 0.001
        can = [u for u in ups if u["family"] not in ("ref", "fs")]
        if not can:
            u = self.up(r.choice(["pg", "mysql", "snow", "sqlite", "bq"]), 7)
            ups.append(u)
            can = [u]
        stalled = r.sample(can, r.randrange(1, len(can) + 1))
        for u in stalled:
            a = r.choice([0.0, 0.0, 0.01, 0.5, 5.0])
            u["stalls"] = [[a, a + r.choice([60.0, 300.0, 3000.0]), r.choice(["answer", "fail"])]]
        for u in ups:
            # conversion errors are not the subject here
            u["stalled"] = u in stalled
        plan["clients"] = []
        nh = r.choice([1, 2, 3, 5, 12, 30])
        n = 0
        for j in range(nh):
            o = self.op(f"h{j}.0", stalled, ["http"])
            o["pre"] = r.choice([0, 0.01, 0.6, 6.0])
            if r.random() < 0.1:
                o["hang"] = r.choice([0.1, 5, 100])
            plan["clients"].append({"id": f"h{j}", "ops": [o]})
        if r.random() < 0.12:
            # many requests that fail or are given up, one after another: whatever they hold must come back
            n = r.choice([45, 90, 130])
            some = [u for u in can if not u["stalled"]] or can
            for u in some:
                if r.random() < 0.5:
                    u["down"] = [[0.0, r.choice([1.0, 5.0])]]
            ops = []
            for i in range(n):
                o = self.op(f"f0.{i}", some, ["http"])
                if r.random() < 0.6 and o["kind"] == "schema":
                    o["path"][-1] = "missing"
                if r.random() < 0.2:
                    o["hang"] = r.choice([0, 0.001, 0.01])
                o["pre"] = 0
                ops.append(o)
            if some == can:
                # at most a few at a time
                ops = ops[:12]
            plan["clients"].append({"id": "f0", "ops": ops})
        for j in range(r.choice([0, 0, 1, 3, 6])):
            body = '{"type": "struct", "fields": [], "doc": "slow %d"}' % j
            k = len(body)
            o = {"id": f"s{j}.0", "e": "http", "kind": "reg_" + r.choice(["post", "put"]), "name": f"slow{j}", "body": body, "pre": 0,
                 "chunks": [5, 10, k - 15], "gaps": [0, r.choice([10, 300]), r.choice([10, 2000])]}
            if r.random() < 0.4:
                o["never"] = True
            plan["clients"].append({"id": f"s{j}", "ops": [o]})
        free = [u for u in ups if not u["stalled"] and u["family"] != "ref"]
        for j in range(r.randrange(1, 5)):
            ops = []
            for i in range(r.randrange(1, 5)):
                oid = f"c{j}.{i}"
                k = r.random()
                if free and k < 0.6:
                    o = self.op(oid, free, ["http"])
                    o.pop("hang", None)
                elif k < 0.7:
                    o = {"id": oid, "e": "http", "kind": "root"}
                else:
                    kind = r.choice(["reg_post", "reg_get", "reg_ls", "reg_put", "reg_versions"])
                    o = {"id": oid, "e": "http", "kind": kind, "name": f"n{j}"}
                    if kind in ("reg_post", "reg_put"):
                        o["body"] = '{"type": "struct", "fields": []}'
                o["pre"] = r.choice([0, 0.01, 0.3, 1.0, 7.0, 30.0])
                ops.append(o)
            plan["clients"].append({"id": f"c{j}", "ops": ops})


OPTS = {
    "pg": [("sslmode", "verify-full"), ("sslrootcert", "/etc/ssl/ca 1.pem"), ("sslcert", "/etc/ssl/c.pem"), ("connect_timeout", "10"), ("application_name", "recap gw"),
           ("keepalives_idle", "30"), ("client_encoding", "utf8"), ("options", "-c statement_timeout=5000"), ("target_session_attrs", "any"),
           ("sslcrl", "/etc/ssl/crl.pem"), ("ssl_min_protocol_version", "TLSv1.2"), ("gssencmode", "prefer"), ("channel_binding", "require"),
           ("tcp_user_timeout", "5000"), ("keepalives", "1"), ("keepalives_interval", "9"), ("keepalives_count", "3"), ("sslcompression", "0"),
           ("ssl_max_protocol_version", "TLSv1.3"), ("fallback_application_name", "fb"), ("krbsrvname", "pgsrv")],
    "mysql": [("ssl_ca", "/etc/ssl/ca 1.pem"), ("ssl_verify_cert", "true"), ("connection_timeout", "10"), ("tls_versions", "TLSv1.2"),
              ("init_command", "SET SESSION TRANSACTION READ ONLY"), ("time_zone", "+00:00"), ("ssl_verify_identity", "true"),
              ("collation", "utf8mb4_general_ci"), ("ssl_cert", "/etc/ssl/c.pem"), ("compress", "true")],
    "snow": [("warehouse", "WH1"), ("role", "READER"), ("login_timeout", "10"), ("client_session_keep_alive", "true"), ("network_timeout", "30"),
             ("timezone", "UTC"), ("application", "recap gw")],
}


def q(s):
    from urllib.parse import quote
    return quote(s, safe="")


def base_urls(u, r, rich=False):
    """Configured URLs of an upstream (with credentials)."""
    fam = u["family"]
    if not u["configured"] or fam == "ref":
        return []
    cred = f"{q(u['user'])}:{q(u['pw'])}@" if u.get("user") else ""
    if fam == "fs":
        return ["file:///"]
    if fam == "bq":
        return ["bigquery://"]
    if fam in ("hms", "csr"):
        from .gwurl import scheme
        tail = r.choice(["", "", "/"])
        if fam == "csr" and cred and r.random() < (0.4 if rich else 0.2):
            cred = ""
            tail += f"?basic.auth.user.info={q(u['user'] + ':' + u['pw'])}"
        if fam == "csr" and r.random() < (0.5 if rich else 0.2):
            u["opts"] = {"ssl.ca.location": f"/etc/ssl/{u['id']}.pem"} if r.random() < 0.7 else {}
            if r.random() < 0.5:
                u["opts"]["ssl.certificate.location"] = "/etc/ssl/c 1.pem"
                if r.random() < 0.5:
                    u["opts"]["ssl.key.location"] = "/etc/ssl/k.pem"
            for k, v in u["opts"].items():
                tail += ("&" if "?" in tail else "?") + f"{k}={q(v)}"
        return [f"{scheme(u)}://{cred}{u['host']}:{u['port']}{tail}"]
    if fam == "sqlite":
        return [("sqlite:///@ROOT" if u.get("abs") else "sqlite://") + u["host"]]
    dbs = u["state"]["dbs"] if fam != "mysql" else u["state"]["dbs"]["def"]
    if fam == "snow":
        head = f"snowflake://{cred}{u['host']}"
    else:
        head = f"{'postgresql' if fam == 'pg' else 'mysql'}://{cred}{u['host']}:{u['port']}"
    tail = ""
    if rich and r.random() < 0.3:
        # secrets given as parameters instead of in the authority
        k = r.random()
        if k < 0.2:
            u["pw"] = None
            head = head.replace(cred, f"{q(u['user'])}@")
        elif k < 0.5:
            u["extra"] = f"xSec{r.randrange(10**6, 10**7)}"
            tail = {"pg": "?sslpassword=", "mysql": "?password1=",
                    "snow": "?" + r.choice(["token", "private_key_passphrase", "passcode"]) + "="}[fam] + u["extra"]
            if r.random() < 0.2:
                tail = tail.replace("passw", "p%61ssw").replace("token", "t%6Fken")
        elif k < 0.65:
            head = head.replace(cred, "")
            tail = f"?user={q(u['user'])}&password={q(u['pw'])}"
        elif k < 0.8:
            head = head.replace(cred, f":{q(u['pw'])}@")
            tail = f"?user={q(u['user'])}"
        else:
            tail = "?" + r.choice(["connect_timeout=10", "application_name=recap" if fam == "pg" else "charset=utf8mb4"])
    if r.random() < (0.6 if rich else 0.2):
        # options every connection must use
        u["opts"] = dict(r.sample(OPTS[fam], r.randrange(1, 4)))
        tail += ("&" if tail else "?") + "&".join(f"{k}={q(v)}" for k, v in u["opts"].items())
    k = r.random()
    if k < 0.5:
        u["all"] = True
        return [head + tail]
    if k < 0.6:
        u["all"] = True
        return [head + "/" + tail]
    names = [d for d in dbs if r.random() < 0.6] or [list(dbs)[0]]
    u["only"] = names
    if rich and cred and cred in head and r.random() < 0.6:
        # a user, and options, per database
        out = []
        for d in names:
            n = r.randrange(10**6, 10**7)
            us, pw, t = f"uSecd{n}", f"pSecd{n}", tail
            u.setdefault("per", {})[d] = [us, pw]
            if "opts" not in u and not tail:
                o = dict(r.sample(OPTS[fam], r.randrange(0, 3)))
                u.setdefault("optsper", {})[d] = o
                t = "?" + "&".join(f"{k}={q(v)}" for k, v in o.items()) if o else ""
            out.append(f"{head.replace(cred, f'{us}:{pw}@')}/{d}{t}")
        return out
    return [f"{head}/{d}{tail}" for d in names]
