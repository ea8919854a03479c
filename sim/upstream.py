"""Simulated upstreams: databases, metastore, schema registry, warehouse.

The servers live in World; everything a client library would send over the
network passes netop(), which is where the simulator interleaves, delays,
stalls and fails.  psycopg2, mysql.connector and snowflake.connector are
replaced by DB-API stand-ins that run the queries they are given on a catalog
built from the server's current state; thrift, the schema registry client,
httpx, BigQuery's client and sqlite3 run for real above their transport.
"""
from __future__ import annotations

import base64
import copy
import io
import json
import re
import sqlite3
import ssl
import sys
import zlib
from urllib.parse import parse_qs, unquote, urlsplit

from . import core, gwplan, model
from .core import REQ, cur, HarnessError, SimAbort, SimCrash

_sqlite_connect = sqlite3.connect
WORLD = {"w": None}


def world():
    return WORLD["w"]


# ------------------------------------------------------------------ servers
class Server:
    def __init__(self, w, sid, family, host, port, state, user=None, pw=None):
        self.w, self.id, self.family = w, sid, family
        self.host, self.port = host, port
        self.user, self.pw = user, pw
        self.state = state
        self.version = 0
        self.history = [(0, copy.deepcopy(state))]
        self.stalls = []          # (from, to, then) on the simulated clock; then: "answer" | "fail"
        self.down = []            # (from, to): refuses and breaks connections
        self.default_db = None

    def knows(self, user, pw, db=None):
        per = ((getattr(self, "u", None) or {}).get("per") or {}).get(db)
        return (user, pw) == (self.user, self.pw) or per is not None and [user, pw] == per

    def change(self, fn, what):
        """Apply one DDL statement; atomic."""
        new = copy.deepcopy(self.state)
        if fn(new) is False:
            return False
        self.state = new
        self.version += 1
        seq = self.w.sim.event(f"DDL {self.id} {what}")
        self.history.append((seq, copy.deepcopy(new)))
        self.w.sim.count("probe", "ddl")
        return True

    def states(self, a, b):
        """All states held at some instant of [a, b] (event numbers)."""
        out = []
        for i, (s, st) in enumerate(self.history):
            nxt = self.history[i + 1][0] if i + 1 < len(self.history) else None
            if s <= b and (nxt is None or nxt >= a):
                out.append(st)
        return out


class ConnRec:
    def __init__(self, w, req, family, target):
        self.req, self.family, self.target = req, family, target
        self.open_seq = w.sim.event(f"OPEN {family} {target}")
        self.closed = None
        self.broken = False

    def close(self):
        if self.closed is None:
            w = world()
            self.closed = w.sim.event(f"CLOSE {self.family} {self.target}") if w is not None else -1


class World:
    def __init__(self, sim):
        self.sim = sim
        self.servers = {}
        self.conns = []
        self.contacts = []      # (req, family, host, port, user, pw)
        self.refdocs = {}       # url -> doc
        self.sqlcache = {}
        self.latency = 0.001
        self.blocked = {}       # req -> seconds spent in stalls
        self.stall_hits = 0
        self.writes = []        # (req, family, server, what): requests that would change an upstream

    def write(self, family, sid, what):
        self.writes.append((REQ.get(), family, sid, what))
        self.sim.event(f"WRITE {family} {sid} {what}")

    def find(self, family, host, port):
        for s in self.servers.values():
            if s.family == family and s.host == host and (s.port is None or port is None or str(port) == str(s.port)):
                return s
        return None

    def contact(self, family, host, port, user=None, pw=None, db=None, kw=None):
        req = REQ.get()
        try:
            port = None if port is None else int(port)
        except ValueError:
            pass
        self.contacts.append((req, family, host, port, user, pw, db, {k: str(v) for k, v in (kw or {}).items() if v is not None}))
        self.sim.event(f"CONTACT {family} {host}:{port} user={user}")
        self.sim.count("probe", f"contact_{family}")

    def conn(self, family, target):
        c = ConnRec(self, REQ.get(), family, target)
        self.conns.append(c)
        return c


class NetFault(Exception):
    def __init__(self, kind):
        self.kind = kind


KINDS = {
    "connect": ["refused", "timeout", "auth", "toomany"],
    "query": ["reset", "timeout", "server", "denied"],
    "fetch": ["reset", "timeout"],
    "commit": ["reset"],
    "http": ["reset", "timeout", "s500", "s503", "s429", "s401", "s404html", "s503list", "s404doc", "s302", "truncated", "garbage", "empty"],
    "httpconn": ["refused", "timeout"],
    "rpc": ["reset", "timeout", "eof", "server"],
    "sqlite": ["ioerr", "busy", "corrupt", "nomem"],
    "sqlite_open": ["cantopen"],
}


def netop(srv, site, rec=None, extra=()):
    """One exchange with a server.  Raises NetFault; returns a decision for faults
    that shape the answer instead (http)."""
    t = cur()
    w = world()
    if t is None or w is None:
        return None
    sim = t.sim
    sid = srv.id if srv is not None else "?"
    sim.event(f"NET {site} {sid}")
    sim.yield_point(w.latency)
    if t.no_preempt:
        return None
    if rec is not None and rec.broken:
        raise NetFault("reset")
    while srv is not None:
        hit = next(((a, b, then) for a, b, then in srv.stalls if a <= sim.now < b), None)
        if hit is None:
            break
        w.stall_hits += 1
        sim.count("fault", f"{site}:stall")
        sim.fault_log.append((sim.seq, REQ.get() or t.label, site, "stall"))
        t0 = sim.now
        sim.block(f"stalled {sid}", hit[1] - sim.now)
        k = REQ.get()
        w.blocked[k] = w.blocked.get(k, 0) + sim.now - t0
        if hit[2] == "fail":
            if rec is not None:
                rec.broken = True
            sim.fault_log.append((sim.seq, REQ.get() or t.label, site, "timeout"))
            raise NetFault("timeout")
    if srv is not None and any(a <= sim.now < b for a, b in srv.down):
        sim.count("fault", f"{site}:down")
        sim.fault_log.append((sim.seq, REQ.get() or t.label, site, "down"))
        sim.event(f"DOWN {sid}")
        if rec is not None:
            rec.broken = True
        raise NetFault("refused" if site in ("connect", "httpconn") else "reset")
    d = sim.fault(site, sid)
    if d is not None:
        k = d["kind"]
        if k == "slow":
            sim.sleep(d.get("arg", 0.5))
            return None
        if k in ("reset", "timeout", "eof") and rec is not None:
            rec.broken = True
        if k in extra:
            return d
        raise NetFault(k)
    return None


# ------------------------------------------------------------ SQL catalogs
PG_COLS = ("table_catalog table_schema table_name column_name ordinal_position column_default is_nullable data_type "
           "character_maximum_length character_octet_length numeric_precision numeric_precision_radix numeric_scale "
           "datetime_precision interval_type interval_precision character_set_catalog character_set_schema "
           "character_set_name collation_catalog collation_schema collation_name domain_catalog domain_schema domain_name "
           "udt_catalog udt_schema udt_name scope_catalog scope_schema scope_name maximum_cardinality dtd_identifier "
           "is_self_referencing is_identity identity_generation identity_start identity_increment identity_maximum "
           "identity_minimum identity_cycle is_generated generation_expression is_updatable").split()
MY_COLS = ("TABLE_CATALOG TABLE_SCHEMA TABLE_NAME COLUMN_NAME ORDINAL_POSITION COLUMN_DEFAULT IS_NULLABLE DATA_TYPE "
           "CHARACTER_MAXIMUM_LENGTH CHARACTER_OCTET_LENGTH NUMERIC_PRECISION NUMERIC_SCALE DATETIME_PRECISION "
           "CHARACTER_SET_NAME COLLATION_NAME COLUMN_TYPE COLUMN_KEY EXTRA PRIVILEGES COLUMN_COMMENT "
           "GENERATION_EXPRESSION SRS_ID").split()
SF_COLS = ("TABLE_CATALOG TABLE_SCHEMA TABLE_NAME COLUMN_NAME ORDINAL_POSITION COLUMN_DEFAULT IS_NULLABLE DATA_TYPE "
           "CHARACTER_MAXIMUM_LENGTH CHARACTER_OCTET_LENGTH NUMERIC_PRECISION NUMERIC_PRECISION_RADIX NUMERIC_SCALE "
           "DATETIME_PRECISION INTERVAL_TYPE INTERVAL_PRECISION CHARACTER_SET_CATALOG CHARACTER_SET_SCHEMA "
           "CHARACTER_SET_NAME COLLATION_CATALOG COLLATION_SCHEMA COLLATION_NAME DOMAIN_CATALOG DOMAIN_SCHEMA DOMAIN_NAME "
           "UDT_CATALOG UDT_SCHEMA UDT_NAME SCOPE_CATALOG SCOPE_SCHEMA SCOPE_NAME MAXIMUM_CARDINALITY DTD_IDENTIFIER "
           "IS_SELF_REFERENCING IS_IDENTITY IDENTITY_GENERATION IDENTITY_START IDENTITY_INCREMENT IDENTITY_MAXIMUM "
           "IDENTITY_MINIMUM IDENTITY_CYCLE COMMENT").split()
TABLES = ("TABLE_CATALOG TABLE_SCHEMA TABLE_NAME TABLE_TYPE").split()


class _Agg:
    def __init__(self):
        self.rows = []

    def step(self, v, k=None):
        self.rows.append((k, v))

    def finalize(self):
        rows = self.rows
        if rows and rows[0][0] is not None:
            rows = sorted(rows, key=lambda r: r[0])
        return "\0json:" + json.dumps([v for _, v in rows])


RELKINDS = {"pg": ["BASE TABLE", "BASE TABLE", "VIEW", "FOREIGN"], "mysql": ["BASE TABLE", "BASE TABLE", "VIEW"],
         "snow": ["BASE TABLE", "BASE TABLE", "VIEW", "MATERIALIZED VIEW", "EXTERNAL TABLE"],
         "bq": ["TABLE", "TABLE", "VIEW", "EXTERNAL", "MATERIALIZED_VIEW"], "hms": ["MANAGED_TABLE", "EXTERNAL_TABLE", "VIRTUAL_VIEW"]}
RELKIND = {"BASE TABLE": "r", "VIEW": "v", "FOREIGN": "f"}


def table_type(fam, s, t):
    """Tables, views, ...: a fixed choice by name."""
    return RELKINDS[fam][zlib.crc32(f"{s}.{t}".encode("utf-8", "surrogatepass")) % len(RELKINDS[fam])]


def _mk(con, name, cols, rows, rng):
    rows = list(rows)
    rng.shuffle(rows)   # without ORDER BY the order is unspecified
    con.execute(f'CREATE TABLE "{name}" ({", ".join(chr(34) + c + chr(34) for c in cols)})')
    con.executemany(f'INSERT INTO "{name}" VALUES ({",".join("?" * len(cols))})', rows)


def catalog(srv, db):
    """In-memory SQLite holding the system catalog of `db` in the current state."""
    w = srv.w
    key = (srv.id, srv.version, db)
    con = w.sqlcache.get(key)
    if con is not None:
        return con
    import random
    rng = random.Random(f"{w.sim.seed}/{key}")
    con = _sqlite_connect(":memory:", check_same_thread=False)
    con.create_aggregate("array_agg", 1, _Agg)
    con.create_aggregate("array_agg", 2, _Agg)
    con.create_function("current_database", 0, lambda: db)
    con.create_function("database", 0, lambda: db)
    fam, dbs = srv.family, srv.state["dbs"]
    if fam == "pg":
        _pg_catalog(con, srv, db, dbs, rng)
    elif fam == "mysql":
        schemas = dbs["def"]
        sysn = ["information_schema", "mysql", "performance_schema"]
        _mk(con, "information_schema$schemata", ["CATALOG_NAME", "SCHEMA_NAME", "DEFAULT_CHARACTER_SET_NAME",
                                                 "DEFAULT_COLLATION_NAME", "SQL_PATH"],
            [("def", s, "utf8mb4", "utf8mb4_0900_ai_ci", None) for s in sysn + list(schemas)], rng)
        _mk(con, "information_schema$tables", TABLES,
            [("def", s, t, table_type(fam, s, t)) for s in schemas for t in schemas[s]], rng)
        rows = []
        for s in schemas:
            for t, tb in schemas[s].items():
                for i, c in enumerate(tb["cols"]):
                    z = model.mysql(c)[0] | {"TABLE_CATALOG": "def", "TABLE_SCHEMA": s, "TABLE_NAME": t, "COLUMN_NAME": c["n"],
                                             "ORDINAL_POSITION": i + 1, "COLUMN_DEFAULT": c.get("def"),
                                             "IS_NULLABLE": "YES" if c["null"] else "NO"}
                    rows.append(tuple(z.get(x) for x in MY_COLS))
        _mk(con, "information_schema$columns", MY_COLS, rows, rng)
    else:
        _mk(con, "information_schema$databases", ["DATABASE_NAME", "DATABASE_OWNER", "IS_TRANSIENT", "COMMENT"],
            [(d, "SYSADMIN", "NO", None) for d in dbs], rng)
        here = {db: dbs[db]} if db in dbs else {}
        _mk(con, "information_schema$schemata", ["CATALOG_NAME", "SCHEMA_NAME", "SCHEMA_OWNER"],
            [(d, s, "SYSADMIN") for d in here for s in ["INFORMATION_SCHEMA"] + list(here[d])], rng)
        _mk(con, "information_schema$tables", TABLES,
            [(d, s, t, table_type(fam, s, t)) for d in here for s in here[d] for t in here[d][s]], rng)
        rows = []
        for d in here:
            for s in here[d]:
                for t, tb in here[d][s].items():
                    for i, c in enumerate(tb["cols"]):
                        z = model.snow(c)[0] | {"TABLE_CATALOG": d, "TABLE_SCHEMA": s, "TABLE_NAME": t, "COLUMN_NAME": c["n"],
                                                "ORDINAL_POSITION": i + 1, "COLUMN_DEFAULT": c.get("def"),
                                                "IS_NULLABLE": "YES" if c["null"] else "NO"}
                        rows.append(tuple(z.get(x) for x in SF_COLS))
        _mk(con, "information_schema$columns", SF_COLS, rows, rng)
    w.sqlcache[key] = con
    return con


def _pg_catalog(con, srv, db, dbs, rng):
    _mk(con, "pg_catalog$pg_database", ["oid", "datname", "datistemplate", "datallowconn"],
        [(i + 1, d, 0, 1) for i, d in enumerate(dbs)] + [(90, "template0", 1, 0), (91, "template1", 1, 1)], rng)
    schemas = dbs[db]
    names = ["information_schema", "pg_catalog", "pg_toast"] + list(schemas)
    _mk(con, "information_schema$schemata", ["catalog_name", "schema_name", "schema_owner"], [(db, s, "postgres") for s in names], rng)
    _mk(con, "information_schema$information_schema_catalog_name", ["catalog_name"], [(db,)], rng)
    _mk(con, "information_schema$tables", [c.lower() for c in TABLES],
        [(db, s, t, table_type("pg", s, t)) for s in schemas for t in schemas[s]], rng)
    ns = {s: 100 + i for i, s in enumerate(names)}
    _mk(con, "pg_catalog$pg_namespace", ["oid", "nspname"], [(o, s) for s, o in ns.items()], rng)
    cls, att, cols, types, enums = [], [], [], {}, []
    oid = 1000
    ety = 5000
    for s in schemas:
        for t, tb in schemas[s].items():
            oid += 1
            cls.append((oid, t, ns[s], RELKIND[table_type("pg", s, t)]))
            att.append((oid, "ctid", 27, -1, 0, 0))
            att.append((oid, "........pg.dropped.1........", 0, 90, 0, 1))
            for i, c in enumerate(tb["cols"]):
                z = model.pg(c)[0]
                tid = 20
                if c["k"] == "enum":
                    e = c["a"]
                    key = (s, e["name"], tuple(e["labels"]))
                    if key not in types:
                        ety += 1
                        types[key] = ety
                        enums += [(ety, lab, j + 1.0) for j, lab in enumerate(e["labels"])]
                    tid = types[key]
                att.append((oid, c["n"], tid, i + 1, z["attndims"], 0))
                z = z | {"table_catalog": db, "table_schema": s, "table_name": t, "column_name": c["n"], "ordinal_position": i + 1,
                         "column_default": c.get("def"), "is_nullable": "YES" if c["null"] else "NO", "udt_catalog": db,
                         "udt_schema": "pg_catalog"}
                cols.append(tuple(z.get(x) for x in PG_COLS))
    _mk(con, "information_schema$columns", PG_COLS, cols, rng)
    _mk(con, "pg_catalog$pg_class", ["oid", "relname", "relnamespace", "relkind"], cls, rng)
    _mk(con, "pg_catalog$pg_attribute", ["attrelid", "attname", "atttypid", "attnum", "attndims", "attisdropped"], att, rng)
    _mk(con, "pg_catalog$pg_type", ["oid", "typname", "typtype", "typnamespace"],
        [(20, "int8", "b", ns["pg_catalog"])] + [(o, k[1], "e", ns[k[0]]) for k, o in types.items()], rng)
    _mk(con, "pg_catalog$pg_enum", ["enumtypid", "enumlabel", "enumsortorder"], enums, rng)


_tcache = {}
_PH = re.compile(r"'(?:[^']|'')*'|%%|%\((\w+)\)s|%s")


def translate(family, sql):
    key = (family, sql)
    r = _tcache.get(key)
    if r is not None:
        return r
    import sqlglot
    from sqlglot import exp

    def ph(m):
        if m.group(0) == "%s":
            return "?"
        if m.group(0) == "%%":
            return "%"
        return ":" + m.group(1) if m.group(1) else m.group(0)

    q = _PH.sub(ph, sql)
    tree = sqlglot.parse_one(q, read={"pg": "postgres", "mysql": "mysql", "snow": "snowflake"}[family])
    for n in list(tree.find_all(exp.Table)):
        db = n.args.get("db")
        name = n.name
        if db is not None:
            full = f"{db.name.lower()}${name.lower()}"
        elif family == "pg" and name.startswith("pg_"):
            full = f"pg_catalog${name}"
        else:
            continue
        alias = n.alias or name
        n.set("this", exp.to_identifier(full, quoted=True))
        n.set("db", None)
        n.set("catalog", None)
        n.set("alias", exp.TableAlias(this=exp.to_identifier(alias)))
    for n in list(tree.find_all(exp.Column)):
        n.set("db", None)
        n.set("catalog", None)
    for n in list(tree.find_all(exp.ArrayAgg)):
        x = n.this
        args = [x]
        if isinstance(x, exp.Order):
            args = [x.this, x.expressions[0].this]
        n.replace(exp.Anonymous(this="array_agg", expressions=args))
    out = tree.sql(dialect="sqlite", identify=False)
    _tcache[key] = out
    return out


class SqlError(Exception):
    pass


_kcache = {}
_READS = {"SELECT", "SHOW", "DESCRIBE", "DESC", "EXPLAIN", "WITH", "VALUES", "TABLE", "("}
_SESSION = {"SET", "BEGIN", "START", "COMMIT", "ROLLBACK", "END", "USE", "RESET", "DISCARD", "ABORT", "ALTER SESSION"}
_DML = re.compile(r"\b(INSERT|UPDATE|DELETE|MERGE|INTO)\b", re.I)


def statements(family, sql):
    """The kinds of the statements in `sql`: read, session or write."""
    key = (family, sql)
    r = _kcache.get(key)
    if r is None:
        # strings, quoted identifiers and comments say nothing about the kind
        t = re.sub(r"'(?:[^']|'')*'|\"(?:[^\"]|\"\")*\"|`[^`]*`|--[^\n]*|/\*.*?\*/", " x ", sql.replace("\\'", ""), flags=re.S)
        r = []
        for st in t.split(";"):
            w = st.strip().upper().split()
            if not w:
                continue
            if w[0] in _SESSION or " ".join(w[:2]) in _SESSION:
                r.append("session")
            elif w[0] in _READS or w[0].startswith("("):
                r.append("write" if _DML.search(st) else "read")
            elif w[0] == "X":
                continue
            else:
                r.append("write")
        if len(_kcache) > 5000:
            _kcache.clear()
        _kcache[key] = r
    return r


def run_sql(srv, db, sql, params):
    con = catalog(srv, db)
    try:
        q = translate(srv.family, sql)
    except Exception as e:
        raise SqlError(f"syntax error: {e}")
    try:
        c = con.execute(q, params or ())
        desc = c.description
        rows = c.fetchall()
    except sqlite3.Error as e:
        raise SqlError(str(e))
    rows = [tuple(json.loads(v[6:]) if isinstance(v, str) and v.startswith("\0json:") else v for v in r) for r in rows]
    return desc, rows


# --------------------------------------------------------- DB-API stand-ins
class Cursor:
    arraysize = 1

    def __init__(self, conn, as_dict=False):
        self.connection = conn
        self.description = None
        self.rowcount = -1
        self._rows = None
        self.closed = False

    def _chk(self):
        if self.closed:
            raise self.connection.err("iface", "cursor already closed")
        self.connection._chk()

    def execute(self, sql, params=None, *a, **kw):
        self._chk()
        cn = self.connection
        if cn.aborted:
            raise cn.err("aborted", "current transaction is aborted, commands ignored until end of transaction block")
        try:
            netop(cn.srv, "query", cn.rec)
        except NetFault as f:
            cn.aborted = cn.family == "pg"
            raise cn.fault(f.kind)
        kinds = statements(cn.family, sql)
        # only PostgreSQL takes several statements in one go
        for i, k in enumerate(kinds):
            if k == "write" and (i == 0 or cn.family == "pg"):
                cn.srv.w.write(cn.family, cn.srv.id, " ".join(str(sql).split())[:200])
        if kinds and all(k == "session" for k in kinds):
            self.description, self._rows, self.rowcount = None, None, 0
            return self if cn.family == "snow" else None
        try:
            desc, rows = run_sql(cn.srv, cn.db, sql, params)
        except SqlError as e:
            cn.aborted = cn.family == "pg"
            raise cn.err("program", str(e))
        self.description = [(d[0] if cn.family == "pg" else d[0].upper(), None, None, None, None, None, None) for d in desc]
        self._rows = rows
        self.rowcount = len(rows)
        return self if cn.family == "snow" else None

    def _net(self):
        self._chk()
        if self._rows is None:
            raise self.connection.err("program", "no results to fetch")
        try:
            netop(self.connection.srv, "fetch", self.connection.rec)
        except NetFault as f:
            raise self.connection.fault(f.kind)

    def fetchall(self):
        self._net()
        r, self._rows = self._rows, []
        return r

    def fetchone(self):
        self._net()
        return self._rows.pop(0) if self._rows else None

    def fetchmany(self, size=None):
        self._net()
        n = size or self.arraysize
        r, self._rows = self._rows[:n], self._rows[n:]
        return r

    def __iter__(self):
        return self

    def __next__(self):
        r = self.fetchone()
        if r is None:
            raise StopIteration
        return r

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    @property
    def column_names(self):
        return tuple(d[0] for d in self.description or ())


class DbConn:
    family = None
    aborted = False

    def __init__(self, srv, db, rec, user):
        self.srv, self.db, self.rec, self.user = srv, db, rec, user
        self.is_closed = False
        self.autocommit = False

    def _chk(self):
        if self.is_closed:
            raise self.err("iface", "connection already closed")

    def cursor(self, *a, **kw):
        self._chk()
        return Cursor(self)

    def _end(self, site="commit"):
        self._chk()
        self.aborted = False
        try:
            netop(self.srv, site, self.rec)
        except NetFault as f:
            raise self.fault(f.kind)

    def commit(self):
        self._end()

    def rollback(self):
        self._end()

    def close(self):
        if not self.is_closed:
            self.is_closed = True
            self.rec.close()

    def __del__(self):
        pass    # closing is never left to the garbage collector here

    def secretive(self):
        return f"host={self.srv.host} port={self.srv.port} user={self.srv.user} password={self.srv.pw} dbname={self.db}"


class PgConn(DbConn):
    family = "pg"

    def err(self, kind, msg):
        return pg_err(kind, msg)

    def fault(self, kind):
        return pg_fault(kind, self.srv)

    @property
    def closed(self):
        return 1 if self.is_closed else 2 if self.rec.broken else 0

    def __enter__(self):
        self._chk()
        return self

    def __exit__(self, et, ev, tb):     # ends the transaction, keeps the connection
        if et is None:
            self.commit()
        else:
            self.rollback()

    def set_session(self, *a, **kw):
        self._chk()


def pg_err(kind, msg):
    import psycopg2 as m
    from psycopg2 import errors as e
    return {"iface": m.InterfaceError, "program": m.ProgrammingError, "aborted": e.InFailedSqlTransaction}[kind](msg)


def pg_fault(kind, srv):
    import psycopg2 as m
    u = srv.user if srv else "?"
    h = f'connection to server at "{srv.host if srv else "?"}", port {srv.port if srv else "?"} failed: '
    if kind == "refused":
        return m.OperationalError(h + f"Connection refused (user={u} password={srv.pw if srv else ''})")
    if kind == "timeout":
        return m.OperationalError(h + "timeout expired")
    if kind == "auth":
        return m.OperationalError(h + f'FATAL:  password authentication failed for user "{u}"')
    if kind == "toomany":
        return m.OperationalError(h + f'FATAL:  too many connections for role "{u}"')
    if kind == "nodb":
        return m.OperationalError(h + "FATAL:  database does not exist")
    if kind == "server":
        from psycopg2 import errors as e
        return e.InternalError_("could not read block 7 in file \"base/1/2\"")
    if kind == "denied":
        from psycopg2 import errors as e
        return e.InsufficientPrivilege(f"permission denied for user {u}")
    return m.OperationalError("server closed the connection unexpectedly")


def pg_connect(dsn=None, connection_factory=None, cursor_factory=None, **kw):
    import psycopg2 as m
    w = world()
    if cur() is None or w is None:
        raise m.OperationalError("no network in the simulator")
    if dsn:
        kw = {**m.extensions.parse_dsn(dsn), **kw}
    if any(not isinstance(v, (str, int, type(None))) for v in kw.values()):
        raise TypeError("connection parameters must be strings or numbers")
    host = kw.get("hostaddr") or kw.get("host") or "/var/run/postgresql"
    hosts = str(host).split(",")
    port = kw.get("port") or 5432
    if kw.get("service"):
        hosts = [f"service:{kw['service']}"]
    last = None
    for h in hosts:
        w.contact("pg", h, str(port).split(",")[0], kw.get("user"), kw.get("password"), kw.get("dbname") or kw.get("database"), kw)
        srv = w.find("pg", h, str(port).split(",")[0])
        try:
            netop(srv, "connect")
            if srv is None:
                raise NetFault("refused")
            if not srv.knows(kw.get("user"), kw.get("password"), kw.get("dbname") or kw.get("database")):
                raise NetFault("auth")
            db = kw.get("dbname") or kw.get("database") or srv.default_db
            if db not in srv.state["dbs"]:
                raise NetFault("nodb")
            return PgConn(srv, db, w.conn("pg", srv.id), kw.get("user"))
        except NetFault as f:
            last = pg_fault(f.kind, srv)
    raise last


# MySQL
class MyConn(DbConn):
    family = "mysql"

    def err(self, kind, msg):
        return my_err(kind, msg)

    def fault(self, kind):
        return my_fault(kind, self.srv)

    def is_connected(self):
        return not self.is_closed and not self.rec.broken

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    disconnect = DbConn.close


def my_err(kind, msg):
    import mysql.connector.errors as e
    if kind == "iface":
        return e.OperationalError(msg="MySQL Connection not available")
    return e.ProgrammingError(msg=msg, errno=1064)


def my_fault(kind, srv):
    import mysql.connector.errors as e
    u = srv.user if srv else "?"
    h = f"'{srv.host if srv else '?'}:{srv.port if srv else '?'}'"
    if kind in ("refused",):
        return e.DatabaseError(msg=f"Can't connect to MySQL server on {h} (111) user={u} password={srv.pw if srv else ''}", errno=2003)
    if kind == "timeout":
        return e.OperationalError(msg=f"Lost connection to MySQL server at {h}, timed out", errno=2013)
    if kind == "auth":
        return e.ProgrammingError(msg=f"Access denied for user '{u}'@'10.0.0.2' (using password: YES)", errno=1045)
    if kind == "toomany":
        return e.OperationalError(msg="Too many connections", errno=1040)
    if kind == "nodb":
        return e.ProgrammingError(msg="Unknown database", errno=1049)
    if kind == "server":
        return e.InternalError(msg="Deadlock found when trying to get lock", errno=1213)
    if kind == "denied":
        return e.ProgrammingError(msg=f"SELECT command denied to user '{u}'@'10.0.0.2'", errno=1142)
    return e.OperationalError(msg="Lost connection to MySQL server during query", errno=2013)


def my_connect(*a, **kw):
    import mysql.connector.errors as e
    w = world()
    if cur() is None or w is None:
        raise e.InterfaceError(msg="no network in the simulator")
    from mysql.connector.constants import DEFAULT_CONFIGURATION
    for k in kw:
        if k not in DEFAULT_CONFIGURATION and k not in ("db", "username", "passwd", "connect_timeout"):
            raise AttributeError(f"Unsupported argument '{k}'")
    host = kw.get("unix_socket") or kw.get("host") or "127.0.0.1"
    user = kw.get("user") or kw.get("username")
    pw = kw.get("password") or kw.get("passwd")
    port = kw.get("port") or 3306
    w.contact("mysql", host, port, user, pw, kw.get("database") or kw.get("db"), kw)
    srv = w.find("mysql", host, port)
    try:
        netop(srv, "connect")
        if srv is None:
            raise NetFault("refused")
        if not srv.knows(user, pw, kw.get("database") or kw.get("db")):
            raise NetFault("auth")
        db = kw.get("database") or kw.get("db")
        if db and db not in srv.state["dbs"]["def"] and db not in ("information_schema", "mysql", "performance_schema"):
            raise NetFault("nodb")
    except NetFault as f:
        raise my_fault(f.kind, srv)
    con = MyConn(srv, db, w.conn("mysql", srv.id), user)
    # what the driver itself executes when it connects
    for k, st in (("time_zone", "SET @@session.time_zone = '{}'"), ("sql_mode", "SET @@session.sql_mode = '{}'"), ("init_command", "{}")):
        if kw.get(k):
            for x in st.format(kw[k]).split(";"):
                if x.strip() and x.split()[0].upper() not in ("SET", "SELECT", "SHOW", "--"):
                    w.write("mysql", srv.id, x.strip()[:80])
    return con


# Snowflake
class SfConn(DbConn):
    family = "snow"

    def err(self, kind, msg):
        return sf_err(kind, msg)

    def fault(self, kind):
        return sf_fault(kind, self.srv)

    def cursor(self, *a, **kw):
        self._chk()
        if self.db is None:
            return _NoDbCursor(self)
        return Cursor(self)

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            self.commit()
        else:
            self.rollback()
        self.close()


class _NoDbCursor(Cursor):
    def execute(self, *a, **kw):
        raise sf_err("program", "Cannot perform SELECT. This session does not have a current database.")


def sf_err(kind, msg):
    import snowflake.connector.errors as e
    return (e.DatabaseError if kind == "iface" else e.ProgrammingError)(msg)


def sf_fault(kind, srv):
    import snowflake.connector.errors as e
    u = srv.user if srv else "?"
    if kind in ("refused", "timeout", "toomany"):
        return e.OperationalError(f"250001: Could not connect to Snowflake backend ({kind}) user={u} password={srv.pw if srv else ''}")
    if kind == "auth":
        return e.DatabaseError(f"Incorrect username or password was specified. user {u}")
    if kind == "nodb":
        return e.ProgrammingError("Object does not exist, or operation cannot be performed.")
    if kind == "denied":
        return e.ProgrammingError(f"Insufficient privileges to operate on schema for user {u}")
    return e.OperationalError(f"000604: query failed ({kind})")


def sf_connect(connection_name=None, connections_file_path=None, **kw):
    import snowflake.connector.errors as e
    w = world()
    if cur() is None or w is None:
        raise e.InterfaceError("no network in the simulator")
    acct = kw.get("account")
    if not acct and not kw.get("host"):
        raise e.ProgrammingError("251001: Account must be specified")
    host = kw.get("host") or (f"{acct}.{kw['region']}" if kw.get("region") else acct)
    if kw.get("proxy_host"):
        host = kw["proxy_host"]
    auth = str(kw.get("authenticator") or "")
    w.contact("snow", host, None, kw.get("user"), kw.get("password"), kw.get("database"),
              {**kw, "connection_name": connection_name, "connections_file_path": connections_file_path})
    if auth.lower().startswith("http"):
        w.contact("snow", urlsplit(auth).hostname, None, kw.get("user"), kw.get("password"))
    srv = w.find("snow", host, None)
    try:
        netop(srv, "connect")
        if srv is None:
            raise NetFault("refused")
        if not srv.knows(kw.get("user"), kw.get("password"), kw.get("database")):
            raise NetFault("auth")
    except NetFault as f:
        raise sf_fault(f.kind, srv)
    db = kw.get("database") or srv.default_db
    if db not in srv.state["dbs"]:
        db = None
    return SfConn(srv, db, w.conn("snow", srv.id), kw.get("user"))


# ------------------------------------------------------------------ SQLite
class SqCursor(sqlite3.Cursor):
    def execute(self, sql, params=()):
        self.connection._net()
        return super().execute(sql, params)

    def _f(self, fn, *a):
        self.connection._net()
        return fn(*a)

    def fetchall(self):
        return self._f(super().fetchall)

    def fetchone(self):
        return self._f(super().fetchone)

    def fetchmany(self, *a):
        return self._f(super().fetchmany, *a)


class SqConnection(sqlite3.Connection):
    rec = None
    srv = None

    def _net(self):
        if self.rec is None:
            return
        try:
            netop(self.srv, "sqlite", self.rec)
        except NetFault as f:
            raise sq_fault(f.kind)

    def cursor(self, factory=SqCursor):
        return super().cursor(factory)

    def execute(self, sql, params=()):
        return self.cursor().execute(sql, params)

    def close(self):
        super().close()
        if self.rec is not None:
            self.rec.close()

    def __enter__(self):
        super().__enter__()
        return self

    def __del__(self):
        pass


def sq_fault(kind):
    m = {"ioerr": (sqlite3.OperationalError, "disk I/O error"), "busy": (sqlite3.OperationalError, "database is locked"),
         "corrupt": (sqlite3.DatabaseError, "database disk image is malformed"), "nomem": (sqlite3.OperationalError, "out of memory"),
         "cantopen": (sqlite3.OperationalError, "unable to open database file")}.get(kind, (sqlite3.OperationalError, "disk I/O error"))
    return m[0](m[1])


def sq_connect(database=None, *a, **kw):
    w = world()
    if cur() is None or w is None:
        return _sqlite_connect(database, *a, **kw)
    from . import seams
    p = str(database)
    base = p
    if kw.get("uri") in (True, "true", "True", 1, "1") and p.startswith("file:"):
        base = p[5:].split("?")[0].split("#")[0]
        if base.startswith("//"):
            base = "/" + base[2:].partition("/")[2]
        base = unquote(base)
    full = seams._p(base)
    if not (seams.inside(full) or base == ":memory:"):
        w.contact("sqlite", full, None)
        w.sim.escapes.append(f"sqlite {full}")
        raise sqlite3.OperationalError("unable to open database file")
    rel = seams.rel(full)
    w.contact("sqlite", rel, None)
    srv = next((s for s in w.servers.values() if s.family == "sqlite" and s.host == rel), None)
    try:
        netop(srv, "sqlite_open")
    except NetFault as f:
        raise sq_fault(f.kind)
    if "timeout" in kw and not isinstance(kw["timeout"], (int, float)):
        raise TypeError("must be real number, not str")
    kw.pop("factory", None)
    con = _sqlite_connect(database, *a, factory=SqConnection, **{**kw, "timeout": 0, "check_same_thread": False})
    con.srv = srv
    con.rec = w.conn("sqlite", rel)
    return con


# -------------------------------------------------------- Hive metastore
def make_tsocket(real):
    from thrift.transport.TTransport import TMemoryBuffer, TTransportException
    from thrift.protocol.TBinaryProtocol import TBinaryProtocol

    class SimTSocket(real):
        def open(self):
            w = world()
            if cur() is None or w is None:
                return real.open(self)
            if self.handle is not None:
                raise TTransportException(TTransportException.ALREADY_OPEN, "already open")
            w.contact("hms", self.host, self.port)
            self.srv = w.find("hms", self.host, self.port)
            try:
                netop(self.srv, "connect")
                if self.srv is None:
                    raise NetFault("refused")
            except NetFault as f:
                raise TTransportException(TTransportException.NOT_OPEN, f"Could not connect to any of [{self.host}] ({f.kind})")
            self.handle = self
            self.rec = w.conn("hms", self.srv.id)
            self.out = b""
            self.inp = b""

        def isOpen(self):
            return self.handle is not None

        def close(self):
            if self.handle is self:
                self.handle = None
                self.rec.close()
            elif self.handle is not None:
                real.close(self)

        def write(self, b):
            if self.handle is not self:
                return real.write(self, b)
            self.out += bytes(b)

        def flush(self):
            if self.handle is not self:
                return real.flush(self)
            if not self.out:
                return
            req, self.out = self.out, b""
            try:
                d = netop(self.srv, "rpc", self.rec, ("server", "eof"))
            except NetFault as f:
                raise TTransportException(TTransportException.TIMED_OUT if f.kind == "timeout" else TTransportException.UNKNOWN,
                                          "unexpected exception")
            from pymetastore.hive_metastore import ThriftHiveMetastore as T
            i, o = TMemoryBuffer(req), TMemoryBuffer()
            T.Processor(HmsHandler(self.srv, d is not None and d["kind"] == "server")).process(TBinaryProtocol(i), TBinaryProtocol(o))
            ans = o.getvalue()
            if d is not None and d["kind"] == "eof":
                ans = ans[: int(len(ans) * d.get("arg", 0.5))]
                self.cut = True
            self.inp += ans

        cut = False

        def read(self, sz):
            if self.handle is not self:
                return real.read(self, sz)
            if not self.inp:
                raise TTransportException(TTransportException.END_OF_FILE, "TSocket read 0 bytes")
            r, self.inp = self.inp[:sz], self.inp[sz:]
            return r

    return SimTSocket


class HmsHandler:
    def __init__(self, srv, fail):
        self.srv, self.fail = srv, fail

    def _chk(self):
        if self.fail:
            from pymetastore.hive_metastore.ttypes import MetaException
            raise MetaException("java.sql.SQLException: connection pool exhausted")

    def __getattr__(self, name):
        if name.startswith("_") or name.startswith(("get", "partition_name_", "validate")):
            raise AttributeError(name)

        def call(*a):
            self.srv.w.write("hms", self.srv.id, name)
            self._chk()
        return call

    def get_all_databases(self):
        self._chk()
        return list(self.srv.state["dbs"][""])

    def get_all_tables(self, db):
        self._chk()
        return list(self.srv.state["dbs"][""].get(db, {}))

    def get_table(self, db, tbl):
        self._chk()
        from pymetastore.hive_metastore.ttypes import FieldSchema, NoSuchObjectException, SerDeInfo, StorageDescriptor, Table
        t = self.srv.state["dbs"][""].get(db, {}).get(tbl)
        if t is None:
            raise NoSuchObjectException(f"{db}.{tbl} table not found")
        cols = [FieldSchema(name=c["n"], type=model.hms(c)[0], comment=c.get("doc")) for c in t["cols"]]
        return Table(tableName=tbl, dbName=db, owner="o", createTime=1, lastAccessTime=1, retention=0,
                     sd=StorageDescriptor(cols=cols, location="hdfs://x", inputFormat="i", outputFormat="o", compressed=False,
                                          numBuckets=0, serdeInfo=SerDeInfo(name="s", serializationLib="l", parameters={}),
                                          bucketCols=[], sortCols=[], parameters={}),
                     partitionKeys=[], parameters={}, tableType=table_type("hms", db, tbl))

    def get_table_column_statistics(self, db, tbl, col):
        self._chk()
        from pymetastore.hive_metastore import ttypes as y
        t = self.srv.state["dbs"][""].get(db, {}).get(tbl)
        c = next((c for c in (t or {"cols": []})["cols"] if c["n"] == col), None)
        if c is None:
            raise y.NoSuchObjectException("no such column")
        objs = []
        if c.get("stats"):
            s = c["stats"]
            data = hms_stats(y, gwplan.STATS[c["k"]], s)
            objs = [y.ColumnStatisticsObj(colName=col, colType=model.hms(c)[0], statsData=data)]
        return y.ColumnStatistics(statsDesc=y.ColumnStatisticsDesc(isTblLevel=True, dbName=db, tableName=tbl), statsObj=objs)


def hms_stats(y, kind, s):
    lo, hi, nulls, dvs = s
    if kind == "long":
        return y.ColumnStatisticsData(longStats=y.LongColumnStatsData(lowValue=lo, highValue=hi, numNulls=nulls, numDVs=dvs))
    if kind == "double":
        f = [None if v is None else v + 0.5 for v in (lo, hi)]
        return y.ColumnStatisticsData(doubleStats=y.DoubleColumnStatsData(lowValue=f[0], highValue=f[1], numNulls=nulls, numDVs=dvs))
    if kind == "string":
        return y.ColumnStatisticsData(stringStats=y.StringColumnStatsData(maxColLen=dvs + 7, avgColLen=dvs + 0.25, numNulls=nulls, numDVs=dvs))
    if kind == "boolean":
        return y.ColumnStatisticsData(booleanStats=y.BooleanColumnStatsData(numTrues=dvs, numFalses=dvs + 3, numNulls=nulls))
    if kind == "binary":
        return y.ColumnStatisticsData(binaryStats=y.BinaryColumnStatsData(maxColLen=dvs + 7, avgColLen=dvs + 0.25, numNulls=nulls))
    d = [None if v is None else y.Date(daysSinceEpoch=v) for v in (lo, hi)]
    return y.ColumnStatisticsData(dateStats=y.DateColumnStatsData(lowValue=d[0], highValue=d[1], numNulls=nulls, numDVs=dvs))


def hms_stats_attrs(kind, s):
    """What a schema with statistics says about such a column."""
    lo, hi, nulls, dvs = s
    out = {"null_count": nulls}
    if kind == "long":
        out.update(low=lo, high=hi, cardinality=dvs)
    elif kind == "double":
        out.update(low=None if lo is None else lo + 0.5, high=None if hi is None else hi + 0.5, cardinality=dvs)
    elif kind == "string":
        out.update(average_length=dvs + 0.25, max_length=dvs + 7, cardinality=dvs)
    elif kind == "boolean":
        out.update(true_count=dvs, false_count=dvs + 3)
    elif kind == "binary":
        out.update(average_length=dvs + 0.25, max_length=dvs + 7)
    else:
        out.update(cardinality=dvs, **{k: v for k, v in (("low", lo), ("high", hi)) if v is not None})
    return out


# ------------------------------------------------------------ HTTP (httpx)
def csr_doc(name, v, hist):
    if v < 3:       # what the subject was long ago
        out = {"schema": json.dumps({"type": "record", "name": "Old", "fields": [{"name": f"old{v}", "type": "bytes"}]})}
    else:
        d = hist[v - 3]
        out = {"schema": "{broken" if d.get("broken") else model.doc_text(d)}
        if d["fmt"] != "avro":
            out["schemaType"] = {"json": "JSON", "proto": "PROTOBUF"}[d["fmt"]]
    return {"subject": name, "version": v, "id": zlib.crc32(json.dumps(out).encode()), **out}


def csr_answer(srv, path):
    """(status, json) of the schema registry."""
    docs = srv.state["dbs"][""][""]
    if path == "/subjects":
        return 200, list(docs)
    hist = srv.__dict__.setdefault("csr_hist", {})     # versions 3, 4, ... of every subject
    for name, d in docs.items():
        vs = hist.setdefault(name, [])
        if not vs or vs[-1] != d:
            vs.append(copy.deepcopy(d))
    m = re.fullmatch(r"/subjects/([^/]+)/versions", path)
    if m and unquote(m.group(1)) in docs:
        return 200, list(range(1, 3 + len(hist[unquote(m.group(1))])))
    m = re.fullmatch(r"/subjects/([^/]+)/versions/(latest|-1|[0-9]+)", path)
    if m:
        name, v = unquote(m.group(1)), m.group(2)
        if name not in docs:
            return 404, {"error_code": 40401, "message": f"Subject '{name}' not found."}
        v = 2 + len(hist[name]) if v in ("latest", "-1") else int(v)
        if not 1 <= v <= 2 + len(hist[name]):
            return 404, {"error_code": 40402, "message": f"Version {v} not found."}
        return 200, csr_doc(name, v, hist[name])
    m = re.fullmatch(r"/schemas/ids/([0-9]+)", path)
    if m:
        for name, vs in hist.items():
            for i in range(1, 3 + len(vs)):
                x = csr_doc(name, i, vs)
                if x["id"] == int(m.group(1)):
                    return 200, {k: y for k, y in x.items() if k in ("schema", "schemaType")}
        return 404, {"error_code": 40403, "message": "Schema not found"}
    return 404, {"error_code": 404, "message": "HTTP 404 Not Found"}


HTTP_EXTRA = ("s500", "s503", "s429", "s401", "s404html", "s503list", "s404doc", "s302", "truncated", "garbage", "empty")


def http_shape(d, status, body):
    """Apply a fault that shapes an HTTP answer: (status, body bytes, content type, cut)."""
    k = d["kind"] if d else None
    if k == "s500":
        return 500, b'{"error_code": 50001, "message": "backend datastore error"}', "application/json", False
    if k == "s503":
        return 503, b"<html>upstream unavailable</html>", "text/html", False
    if k == "s429":
        return 429, b'{"error_code": 42901, "message": "slow down"}', "application/json", False
    if k == "s401":
        return 401, b'{"error_code": 401, "message": "Unauthorized"}', "application/json", False
    if k == "s404html":
        return 502, b'{"type": "object", "properties": {}}', "application/json", False
    if k == "s503list":
        return 503, b"[]", "application/json", False
    if k == "s404doc":
        return 404, b'{"type": "object", "properties": {"gone": {"type": "integer"}}}', "application/json", False
    if k == "s302":
        return 302, b"", "text/html", False
    if k == "truncated":
        return status, body[: len(body) // 2], "application/json", True
    if k == "garbage":
        return status, b"<html>login page</html>", "text/html", False
    if k == "empty":
        return status, b"", "application/json", False
    return status, body, "application/json", False


def httpx_send(self, request):
    import httpx
    w = world()
    u = request.url
    host, port = u.host, u.port or {"http": 80, "https": 443}[u.scheme]
    auth = request.headers.get("authorization")
    user = pw = None
    if auth and auth.startswith("Basic "):
        user, _, pw = base64.b64decode(auth[6:]).decode().partition(":")
    ref = str(u).split("#")[0] in w.refdocs
    fam = "ref" if ref or host.startswith("schemas") else "csr"
    tls = getattr(getattr(getattr(self, "_pool", None), "_ssl_context", None), "sim", {})
    w.contact(fam, host, port, user, pw, kw={"scheme": u.scheme, **tls})
    lookup = request.method == "POST" and re.search(r"^/(subjects/[^/]+|compatibility/.*)$", u.path)
    if request.method not in ("GET", "HEAD", "OPTIONS") and not lookup:
        w.write(fam, host, f"{request.method} {u.path}")
    srv = w.find("csr", host, port) if fam == "csr" else w.servers.get("ref")
    rec = getattr(self, "_sim_rec", None)
    new = rec is None
    try:
        if new:
            netop(srv, "httpconn")
            if srv is None or fam == "csr" and (u.scheme == "https") != bool(srv.u.get("tls")):
                raise NetFault("refused")
            self._sim_rec = rec = w.conn(fam, srv.id)
        d = netop(srv, "http", rec, HTTP_EXTRA)
    except NetFault as f:
        if f.kind == "refused":
            raise httpx.ConnectError(f"[Errno 111] Connection refused {user}:{pw}", request=request)
        if f.kind == "timeout":
            raise httpx.ReadTimeout("timed out", request=request)
        raise httpx.RemoteProtocolError("Server disconnected without sending a response.", request=request)
    if fam == "csr":
        if srv.user is not None and (user, pw) != (srv.user, srv.pw):
            st, js = 401, {"error_code": 401, "message": f"Unauthorized user {user}"}
        else:
            st, js = csr_answer(srv, u.raw_path.decode().split("?")[0])
        body = json.dumps(js).encode()
    else:
        doc = srv.state["dbs"][""][""].get(str(u).split("#")[0])
        st, body = (200, model.doc_text(doc).encode()) if doc else (404, b'{"error": "not found"}')
        if doc and doc.get("$schema"):
            body = json.dumps({**json.loads(body), "$schema": "https://json-schema.org/draft/2020-12/schema"}).encode()
    st, body, ct, cut = http_shape(d, st, body)
    if cut:
        raise httpx.RemoteProtocolError("peer closed connection without sending complete message body", request=request)
    return httpx.Response(st, headers={"content-type": ct}, content=body, request=request)


def httpx_close(self):
    rec = getattr(self, "_sim_rec", None)
    if rec is not None:
        rec.close()
        self._sim_rec = None


# ----------------------------------------------------- BigQuery (requests)
def requests_send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
    import requests
    w = world()
    u = urlsplit(request.url)
    tok = request.headers.get("authorization")
    w.contact("bq", u.hostname, u.port or 443, None, tok)
    if request.method not in ("GET", "HEAD", "OPTIONS") and not re.search(r"/(queries|jobs)$", u.path):
        w.write("bq", u.hostname, f"{request.method} {u.path}")
    srv = w.find("bq", u.hostname, u.port or 443)
    rec = getattr(self, "_sim_rec", None)
    try:
        if rec is None:
            netop(srv, "httpconn")
            if srv is None:
                raise NetFault("refused")
            self._sim_rec = rec = w.conn("bq", srv.id)
        d = netop(srv, "http", rec, HTTP_EXTRA)
    except NetFault as f:
        if f.kind == "timeout":
            raise requests.exceptions.ReadTimeout("Read timed out", request=request)
        raise requests.exceptions.ConnectionError(f"Connection aborted ({f.kind})", request=request)
    st, js = bq_answer(srv, u.path, parse_qs(u.query))
    st, body, ct, cut = http_shape(d, st, json.dumps(js).encode())
    if cut:
        raise requests.exceptions.ChunkedEncodingError("Connection broken: IncompleteRead", request=request)
    r = requests.Response()
    r.status_code = st
    r.headers["content-type"] = ct
    r._content = body
    r._content_consumed = True
    r.url = request.url
    r.request = request
    r.connection = self
    r.raw = io.BytesIO(b"")
    return r


def requests_close(self):
    rec = getattr(self, "_sim_rec", None)
    if rec is not None:
        rec.close()
        self._sim_rec = None


def bq_answer(srv, path, q):
    dbs = srv.state["dbs"]
    path = unquote(path)

    def err(code, msg, reason="notFound"):
        return code, {"error": {"code": code, "message": msg, "errors": [{"reason": reason, "message": msg}]}}

    def page(items, key, conv):
        # the page token names the last entry seen, as the real service's tokens do
        items = sorted(items)
        tok = (q.get("pageToken") or [""])[0]
        rest = [x for x in items if x > tok]
        n = srv.page
        out = {"kind": key, key: [conv(x) for x in rest[:n]]}
        if len(rest) > n:
            out["nextPageToken"] = rest[n - 1]
        return 200, out

    m = re.fullmatch(r"/bigquery/v2/projects", path)
    if m:
        return page(dbs, "projects", lambda p: {"id": p, "numericId": "1", "friendlyName": p, "projectReference": {"projectId": p}})
    m = re.fullmatch(r"/bigquery/v2/projects/([^/]+)/datasets", path)
    if m:
        p = m.group(1)
        if p not in dbs:
            return err(404, "Not found: Project")
        return page(dbs[p], "datasets", lambda d: {"id": f"{p}:{d}", "datasetReference": {"projectId": p, "datasetId": d}})
    m = re.fullmatch(r"/bigquery/v2/projects/([^/]+)/datasets/([^/]+)/tables", path)
    if m:
        p, d = m.groups()
        if d not in dbs.get(p, {}):
            return err(404, "Not found: Dataset")
        return page(dbs[p][d], "tables", lambda t: {"id": f"{p}:{d}.{t}", "type": table_type("bq", d, t),
                                                    "tableReference": {"projectId": p, "datasetId": d, "tableId": t}})
    m = re.fullmatch(r"/bigquery/v2/projects/([^/]+)/datasets/([^/]+)/tables/([^/]+)", path)
    if m:
        p, d, t = m.groups()
        tb = dbs.get(p, {}).get(d, {}).get(t)
        if tb is None:
            return err(404, "Not found: Table")
        return 200, {"kind": "bigquery#table", "type": table_type("bq", d, t), "tableReference": {"projectId": p, "datasetId": d, "tableId": t},
                     "schema": {"fields": [model.bqcol(c)[0] for c in tb["cols"]]}}
    return err(404, "Not found")


# ------------------------------------------------------------- installation
def preload():
    import importlib
    for n in ("psycopg2", "psycopg2.errors", "psycopg2.extensions", "mysql.connector", "mysql.connector.errors",
              "mysql.connector.constants", "snowflake.connector", "snowflake.connector.errors", "sqlglot", "sqlglot.dialects",
              "thrift.transport.TSocket", "thrift.protocol.TBinaryProtocol", "pymetastore.metastore",
              "pymetastore.hive_metastore.ThriftHiveMetastore", "confluent_kafka.schema_registry", "google.cloud.bigquery",
              "google.auth", "google.auth.credentials", "google.auth.transport.requests", "google.api_core.datetime_helpers",
              "google.api_core.retry", "requests", "httpx", "referencing", "referencing.jsonschema", "referencing.retrieval",
              "proto_schema_parser.parser", "proto_schema_parser.generator", "proto_schema_parser.ast", "sqlite3"):
        importlib.import_module(n)
    import google.cloud.bigquery as b
    import google.auth.credentials as c
    b.Client(project="warm", credentials=c.AnonymousCredentials()).close()
    import sqlglot
    for d in ("postgres", "mysql", "snowflake", "sqlite"):
        sqlglot.parse_one("SELECT 1", read=d).sql(dialect="sqlite")
    import rich
    rich.get_console()


class Stdout:
    """Output of the simulated process a task belongs to."""

    encoding = "utf-8"
    errors = "strict"

    def __init__(self, real, name):
        self.real, self.name_ = real, name

    def write(self, s):
        t = cur()
        if t is None or t.proc is None:
            return len(s)
        t.proc.__dict__.setdefault(self.name_, []).append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError("not a real file")

    def writable(self):
        return True


def install():
    import datetime
    import psycopg2
    import mysql.connector
    import snowflake.connector
    import thrift.transport.TSocket as TS
    import httpx
    import requests.adapters
    import google.auth
    import google.auth.credentials
    import google.api_core.datetime_helpers as dh
    import time

    psycopg2.connect = pg_connect
    mysql.connector.connect = my_connect
    mysql.connector.MySQLConnection = lambda **kw: my_connect(**kw)
    snowflake.connector.connect = sf_connect
    snowflake.connector.Connect = sf_connect
    sqlite3.connect = sq_connect
    TS.TSocket = make_tsocket(TS.TSocket)
    # one TLS context for all clients with the default settings: building it costs more than the rest of a request
    import httpx._transports.default as hd
    real_ctx, ctxs = hd.create_ssl_context, {}

    def create_ssl_context(cert=None, verify=True, trust_env=True, http2=False):
        if cur() and (cert is not None or not isinstance(verify, bool)):
            # files that only have to be named: nothing is encrypted here
            k = (verify, cert)
            if k not in ctxs:
                ctxs[k] = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
                pem = (cert, None) if isinstance(cert, str) else tuple(cert or (None, None))
                ctxs[k].sim = {"ssl.ca.location": verify if isinstance(verify, str) else None,
                               "ssl.certificate.location": pem[0], "ssl.key.location": pem[1]}
            return ctxs[k]
        if cert is not None or not isinstance(verify, bool):
            return real_ctx(cert=cert, verify=verify, trust_env=trust_env, http2=http2)
        k = (verify, trust_env, http2)
        if k not in ctxs:
            ctxs[k] = real_ctx(cert=None, verify=verify, trust_env=trust_env, http2=http2)
        return ctxs[k]
    hd.create_ssl_context = create_ssl_context
    real_t, real_c = httpx.HTTPTransport.handle_request, httpx.HTTPTransport.close
    httpx.HTTPTransport.handle_request = lambda self, r: httpx_send(self, r) if cur() else real_t(self, r)

    def tclose(self):
        httpx_close(self)
        real_c(self)
    httpx.HTTPTransport.close = tclose
    httpx.HTTPTransport.__exit__ = lambda self, *a: tclose(self)
    httpx.HTTPTransport.__enter__ = lambda self: self
    # the installed httpx predates the `proxy` argument the registry client passes
    real_init = httpx.Client.__init__

    def init(self, *a, **kw):
        if "proxy" in kw and kw["proxy"] is None:
            kw.pop("proxy")
        if cur() is not None:
            # no real TLS context: the transport is simulated
            v = kw.get("verify", True)
            kw["verify"] = "off" if v is False else v if isinstance(v, str) else False
        real_init(self, *a, **kw)
    httpx.Client.__init__ = init
    rsend, rclose = requests.adapters.HTTPAdapter.send, requests.adapters.HTTPAdapter.close
    requests.adapters.HTTPAdapter.send = lambda self, request, **kw: requests_send(self, request, **kw) if cur() else rsend(self, request, **kw)

    def aclose(self):
        requests_close(self)
        rclose(self)
    requests.adapters.HTTPAdapter.close = aclose

    class Cred(google.auth.credentials.AnonymousCredentials):
        def apply(self, headers, token=None):
            w = world()
            srv = next((s for s in w.servers.values() if s.family == "bq"), None) if w else None
            headers["authorization"] = f"Bearer {srv.pw if srv else ''}"

        def before_request(self, request, method, url, headers):
            self.apply(headers)

    def default(*a, **kw):
        w = world()
        srv = next((s for s in w.servers.values() if s.family == "bq"), None) if w else None
        if srv is None:
            raise google.auth.exceptions.DefaultCredentialsError("no credentials")
        try:
            netop(srv, "connect")
        except NetFault as f:
            raise google.auth.exceptions.DefaultCredentialsError(f"metadata server: {f.kind}")
        return Cred(), srv.default_db
    google.auth.default = default
    # the retry deadline reads the wall clock
    real_now = dh.utcnow
    dh.utcnow = lambda: (datetime.datetime(2023, 11, 14) + datetime.timedelta(seconds=time.monotonic())) if cur() else real_now()
    sys.stdout = Stdout(sys.stdout, "out")
    sys.stderr = Stdout(sys.stderr, "err")
