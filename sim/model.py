"""Reference model of the upstreams: what they hold, and which Recap schema that is.

Written from the documentation of the upstreams and of Recap's type system.
A column is {"n": name, "k": kind, "a": kind arguments, "null": bool, "def": default}.
base(family, column) gives the Recap type of the column as a dict, or None if
Recap documents no mapping (the schema is then refused).
"""
from __future__ import annotations

import json
import re

MAXF = 1073741824
SQMAX = 2147483647
I64 = 9_223_372_036_854_775_807


def _i(bits, **kw):
    return {"type": "int", "bits": bits, **kw}


def _unit(p):
    if p is None:
        return None
    return "second" if p == 0 else "millisecond" if p <= 3 else "microsecond" if p <= 6 else None


def _ts(p, dflt):
    return _i(64, logical="build.recap.Timestamp", unit=_unit(p) or dflt)


def _dec(nbytes, p, s):
    return {"type": "bytes", "logical": "build.recap.Decimal", "bytes": nbytes, "variable": False,
            "precision": p, "scale": s}


# --------------------------------------------------------------- PostgreSQL
# kind -> (information_schema fields, recap type)
def pg(c):
    k, a = c["k"], c.get("a")
    z = {"data_type": k, "udt_name": k, "character_maximum_length": None, "character_octet_length": None,
         "numeric_precision": None, "numeric_scale": None, "datetime_precision": None, "attndims": 0}
    t = None
    if k == "bigint":
        z.update(udt_name="int8", numeric_precision=64, numeric_scale=0)
        t = _i(64)
    elif k == "integer":
        z.update(udt_name="int4", numeric_precision=32, numeric_scale=0)
        t = _i(32)
    elif k == "smallint":
        z.update(udt_name="int2", numeric_precision=16, numeric_scale=0)
        t = _i(16)
    elif k == "double precision":
        z.update(udt_name="float8", numeric_precision=53)
        t = {"type": "float", "bits": 64}
    elif k == "real":
        z.update(udt_name="float4", numeric_precision=24)
        t = {"type": "float", "bits": 32}
    elif k == "boolean":
        z.update(udt_name="bool")
        t = {"type": "bool"}
    elif k == "text":
        z.update(character_octet_length=MAXF)
        t = {"type": "string", "bytes": MAXF}
    elif k == "jsonb":
        t = {"type": "string"}
    elif k == "character varying":
        z.update(udt_name="varchar", character_maximum_length=a, character_octet_length=4 * a)
        t = {"type": "string", "bytes": 4 * a}
    elif k == "character":
        z.update(udt_name="bpchar", character_maximum_length=a, character_octet_length=4 * a)
        t = {"type": "string", "bytes": 4 * a, "variable": False}
    elif k == "uuid":
        t = {"type": "string", "logical": "build.recap.UUID", "bytes": 36, "variable": False}
    elif k == "bytea":
        t = {"type": "bytes", "bytes": MAXF}
    elif k == "bit":
        z.update(character_maximum_length=a)
        t = {"type": "bytes", "bytes": (a + 7) // 8, "variable": False}
    elif k == "timestamp without time zone":
        z.update(udt_name="timestamp", datetime_precision=a)
        t = _ts(a, "microsecond")
    elif k == "numeric":
        z.update(numeric_precision=a[0], numeric_scale=a[1])
        t = _dec(32, a[0], a[1])
    elif k == "ARRAY":
        z.update(udt_name="_" + a[0], attndims=a[1])
        v = {"int4": _i(32), "int8": _i(64), "text": {"type": "string", "bytes": MAXF}, "float8": {"type": "float", "bits": 64},
             "varchar": {"type": "string", "bytes": MAXF}}.get(a[0])
        if v is not None:
            al = "_root." + re.sub(r"^(?=[0-9])|[^a-zA-Z0-9_]", "_", c["n"])
            t = {"type": "list", "alias": al, "values": {"type": "union", "types": [v, al]}}
    elif k == "enum":
        z.update(data_type="USER-DEFINED", udt_name=a["name"])
        t = {"type": "enum", "symbols": list(a["labels"])}
    return z, t


# -------------------------------------------------------------------- MySQL
def mysql(c):
    k, a = c["k"], c.get("a")
    z = {"DATA_TYPE": k, "CHARACTER_MAXIMUM_LENGTH": None, "CHARACTER_OCTET_LENGTH": None, "NUMERIC_PRECISION": None,
         "NUMERIC_SCALE": None, "DATETIME_PRECISION": None, "COLUMN_TYPE": k}
    t = None
    ints = {"bigint": (64, 19), "int": (32, 10), "mediumint": (24, 7), "smallint": (16, 5), "tinyint": (8, 3)}
    if k in ints:
        z.update(NUMERIC_PRECISION=ints[k][1], NUMERIC_SCALE=0)
        t = _i(ints[k][0])
    elif k == "double":
        z.update(NUMERIC_PRECISION=22)
        t = {"type": "float", "bits": 64}
    elif k == "float":
        z.update(NUMERIC_PRECISION=12)
        t = {"type": "float", "bits": 32}
    elif k in ("varchar", "char"):
        z.update(CHARACTER_MAXIMUM_LENGTH=a, CHARACTER_OCTET_LENGTH=4 * a)
        t = {"type": "string", "bytes": 4 * a, "variable": k == "varchar"}
    elif k == "text":
        z.update(CHARACTER_MAXIMUM_LENGTH=65535, CHARACTER_OCTET_LENGTH=65535)
        t = {"type": "string", "bytes": 65535}
    elif k == "enum":
        z.update(CHARACTER_MAXIMUM_LENGTH=a, CHARACTER_OCTET_LENGTH=4 * a)
        t = {"type": "string", "bytes": 4 * a, "variable": False}
    elif k in ("varbinary", "binary"):
        z.update(CHARACTER_MAXIMUM_LENGTH=a, CHARACTER_OCTET_LENGTH=a)
        t = {"type": "bytes", "bytes": a, "variable": k == "varbinary"}
    elif k == "blob":
        z.update(CHARACTER_MAXIMUM_LENGTH=65535, CHARACTER_OCTET_LENGTH=65535)
        t = {"type": "bytes", "bytes": 65535}
    elif k == "bit":
        z.update(NUMERIC_PRECISION=a)
        t = {"type": "bytes", "bytes": 8, "variable": False}
    elif k in ("timestamp", "datetime"):
        z.update(DATETIME_PRECISION=a)
        t = _ts(a, "microsecond")
    elif k == "decimal":
        z.update(NUMERIC_PRECISION=a[0], NUMERIC_SCALE=a[1])
        t = _dec(32, a[0], a[1])
    elif k == "year":
        t = _i(16, signed=False)
    elif k == "json":
        t = {"type": "string"}
    return z, t


# ---------------------------------------------------------------- Snowflake
def snow(c):
    k, a = c["k"], c.get("a")
    z = {"DATA_TYPE": k, "CHARACTER_MAXIMUM_LENGTH": None, "CHARACTER_OCTET_LENGTH": None, "NUMERIC_PRECISION": None,
         "NUMERIC_SCALE": None, "DATETIME_PRECISION": None}
    t = None
    if k == "NUMBER":
        z.update(NUMERIC_PRECISION=a[0], NUMERIC_SCALE=a[1])
        t = _dec(16, a[0], a[1])
    elif k == "FLOAT":
        t = {"type": "float", "bits": 64}
    elif k == "BOOLEAN":
        t = {"type": "bool"}
    elif k == "TEXT":
        z.update(CHARACTER_MAXIMUM_LENGTH=a, CHARACTER_OCTET_LENGTH=4 * a)
        t = {"type": "string", "bytes": 4 * a}
    elif k == "BINARY":
        z.update(CHARACTER_MAXIMUM_LENGTH=a, CHARACTER_OCTET_LENGTH=a)
        t = {"type": "bytes", "bytes": a}
    elif k == "DATE":
        t = _i(32, logical="build.recap.Date", unit="day")
    elif k == "TIMESTAMP_NTZ":
        z.update(DATETIME_PRECISION=9)
        t = _ts(None, "nanosecond")
    elif k == "TIME":
        z.update(DATETIME_PRECISION=9)
        t = _i(32, logical="build.recap.Time", unit="nanosecond")
    return z, t


# ------------------------------------------------------------------- SQLite
def sqlite(c):
    """SQLite's documented affinity rules."""
    k = c["k"]
    u = k.upper()
    arg = None
    if "(" in u:
        arg = int(u[u.index("(") + 1:].split(",")[0].rstrip(") "))
    if "INT" in u:
        t = _i(64)
    elif "CHAR" in u or "CLOB" in u or "TEXT" in u:
        t = {"type": "string", "bytes": arg or SQMAX}
    elif "BLOB" in u or not u:
        t = {"type": "bytes", "bytes": arg or SQMAX}
    elif "REAL" in u or "FLOA" in u or "DOUB" in u:
        t = {"type": "float", "bits": 32 if arg and arg <= 23 else 64}
    else:
        t = {"type": "union", "types": ["null", _i(64), {"type": "float", "bits": 64},
                                        {"type": "string", "bytes": SQMAX}, {"type": "bytes", "bytes": SQMAX}]}
    return k, t


# ---------------------------------------------------------------- HiveMetastore
def hms(c):
    """kind is a Hive type; returns (hive type string, recap type)."""
    return _hive(c["k"])


def _hive(k):
    if isinstance(k, str):
        t = {"boolean": {"type": "bool"}, "tinyint": _i(8), "smallint": _i(16), "int": _i(32), "bigint": _i(64),
             "float": {"type": "float", "bits": 32}, "double": {"type": "float", "bits": 64}, "string": {"type": "string"},
             "binary": {"type": "bytes", "bytes": 2_147_483_647},
             "date": _i(32, logical="build.recap.Date", unit="day"),
             "timestamp": _i(64, logical="build.recap.Timestamp", unit="nanosecond", timezone="UTC")}.get(k)
        return k, t
    op = k[0]
    if op == "decimal":
        return f"decimal({k[1]},{k[2]})", _dec(16, k[1], k[2])
    if op == "varchar":
        return f"varchar({k[1]})", {"type": "string", "bytes": k[1]}
    if op == "char":
        return f"char({k[1]})", {"type": "string", "bytes": k[1], "variable": False}
    if op == "array":
        s, t = _hive(k[1])
        return f"array<{s}>", {"type": "list", "values": opt(t)}
    if op == "map":
        s1, t1 = _hive(k[1])
        s2, t2 = _hive(k[2])
        return f"map<{s1},{s2}>", {"type": "map", "keys": opt(t1), "values": opt(t2)}
    if op == "struct":
        subs = [(n, *_hive(x)) for n, x in k[1]]
        return ("struct<" + ",".join(f"{n}:{s}" for n, s, _ in subs) + ">",
                {"type": "struct", "fields": [{**opt(t), "name": n} for n, _, t in subs]})
    raise ValueError(k)


def opt(t):
    return {"type": "union", "types": ["null", t], "default": None}


# ----------------------------------------------------------------- BigQuery
def bq(c):
    k, a = c["k"], c.get("a")
    z = {"name": c["n"], "type": k, "mode": c.get("mode", "NULLABLE")}
    t = None
    if k in ("STRING", "BYTES"):
        t = {"type": k.lower()}
        if a:
            z["maxLength"] = str(a)
            t["bytes"] = a
    elif k in ("INTEGER", "INT64"):
        t = _i(64)
    elif k == "FLOAT":
        t = {"type": "float", "bits": 64}
    elif k == "BOOLEAN":
        t = {"type": "bool"}
    elif k in ("TIMESTAMP", "DATETIME"):
        t = _i(64, logical="build.recap.Timestamp", unit="microsecond")
    elif k == "TIME":
        t = _i(32, logical="build.recap.Time", unit="microsecond")
    elif k == "DATE":
        t = _i(32, logical="build.recap.Date", unit="day")
    elif k == "NUMERIC":
        p, s = a or (None, None)
        if p:
            z["precision"], z["scale"] = str(p), str(s)
        t = _dec(16, p or 38, s or 0)
    elif k == "RECORD":
        subs = [bqcol(x) for x in a]
        z["fields"] = [x[0] for x in subs]
        if all(x[1] is not None for x in subs):
            t = {"type": "struct", "fields": [x[1] for x in subs]}
    if c.get("doc"):
        z["description"] = c["doc"]
    return z, t


def bqcol(c):
    z, t = bq(c)
    if t is None:
        return z, None
    mode = c.get("mode", "NULLABLE")
    if mode == "REPEATED":
        t = {"type": "list", "values": t}
    if mode == "NULLABLE":
        t = opt(t)
    t = {**t, "name": c["n"]}
    if c.get("doc"):
        t["doc"] = c["doc"]
    if c.get("def"):
        z["defaultValueExpression"] = c["def"]
        t["default"] = c["def"]
    return z, t


# ------------------------------------------------------------- documents
AVRO = {"int": "int", "long": "long", "string": "string", "double": "double", "bool": "boolean", "bytes": "bytes",
        "ts": {"type": "long", "logicalType": "timestamp-millis"}}
AVR = {"int": _i(32), "long": _i(64), "string": {"type": "string", "bytes": I64}, "double": {"type": "float", "bits": 64},
       "bool": {"type": "bool"}, "bytes": {"type": "bytes", "bytes": I64},
       "ts": _i(64, logical="build.recap.Timestamp", unit="millisecond")}
JST = {"int": "integer", "string": "string", "double": "number", "bool": "boolean"}
JSR = {"int": _i(32), "string": {"type": "string"}, "double": {"type": "float", "bits": 64}, "bool": {"type": "bool"}}
PRT = {"int": "int32", "long": "int64", "double": "double", "bool": "bool", "string": "string", "bytes": "bytes", "uint": "uint32"}
PRR = {"int": _i(32), "long": _i(64), "double": {"type": "float", "bits": 64}, "bool": {"type": "bool"},
       "string": {"type": "string", "bytes": 2_147_483_648}, "bytes": {"type": "bytes", "bytes": 2_147_483_648},
       "uint": _i(32, signed=False)}


def doc_text(doc):
    """Schema document text of a file or registry subject."""
    f, cols = doc["fmt"], doc["cols"]
    if f == "avro":
        out = {"type": "record", "name": doc["name"], "namespace": doc["ns"], "fields": []}
        for c in cols:
            a = c.get("a")
            t = AVRO[c["k"]] if c["k"] in AVRO else \
                {"type": "array", "items": AVRO[a]} if c["k"] == "arr" else \
                {"type": "map", "values": AVRO[a]} if c["k"] == "map" else \
                {"type": "enum", "name": a[0], "symbols": a[1]} if c["k"] == "enum" else \
                {"type": "record", "name": a[0], "fields": [{"name": n, "type": AVRO[k]} for n, k in a[1]]} if c["k"] == "rec" else \
                a if c["k"] == "same" else [AVRO[x] for x in a]
            fld = {"name": c["n"], "type": t}
            if c["k"] == "ts":
                fld = {"name": c["n"], **t}
            if c["null"]:
                fld = {"name": c["n"], "type": ["null", t], "default": None}
            if c.get("doc"):
                fld["doc"] = c["doc"]
            out["fields"].append(fld)
        return json.dumps(out)
    if f == "json":
        out = {"type": "object", "properties": {}, "required": [c["n"] for c in cols if not c["null"]]}
        if doc.get("id"):
            out["$id"] = doc["id"]
        for c in cols:
            if c["k"] == "ref":
                p = {"$ref": c["a"]["url"]}
            elif c["k"] == "arr":
                p = {"type": "array", "items": {"type": JST[c["a"]]}}
            elif c["k"] == "obj":
                p = {"type": "object", "properties": {n: {"type": JST[k]} for n, k in c["a"]}, "required": [c["a"][0][0]]}
            elif c["k"] in ("date-time", "date", "time"):
                p = {"type": "string", "format": c["k"]}
            elif c["k"] == "either":
                p = {"type": [JST[x] for x in c["a"]]}
            else:
                p = {"type": {"int": "integer", "string": "string", "double": "number", "bool": "boolean"}[c["k"]]}
            if c.get("doc"):
                p["description"] = c["doc"]
            out["properties"][c["n"]] = p
        return json.dumps(out)
    if f == "proto":
        lines = ['syntax = "proto3";', f"package {doc['ns']};", "", f"message {doc['name']} {{"]
        more = []
        for i, c in enumerate(cols):
            a = c.get("a")
            k = c["k"]
            t = PRT[k] if k in PRT else f"repeated {PRT[a]}" if k == "rep" else f"map<{PRT[a[0]]}, {PRT[a[1]]}>" if k == "map" else \
                f"optional {PRT[a]}" if k == "opt" else a[0]
            if k == "msg":
                more.append(f"message {a[0]} {{ " + " ".join(f"{PRT[y]} {x} = {j + 1};" for j, (x, y) in enumerate(a[1])) + " }")
            if k == "enum":
                more.append(f"enum {a[0]} {{ " + " ".join(f"{x} = {j};" for j, x in enumerate(a[1])) + " }")
            lines.append(f"  {t} {c['n']} = {i + 1};")
        lines.append("}")
        lines += more
        return "\n".join(lines) + "\n"
    raise ValueError(f)


def doc_recap(doc, refs=None):
    f, cols = doc["fmt"], doc["cols"]
    if f == "avro":
        fields = []
        for c in cols:
            ns, a = doc["ns"], c.get("a")
            k = c["k"]
            if k in AVR:
                t = AVR[k]
            elif k == "arr":
                t = {"type": "list", "values": AVR[a]}
            elif k == "map":
                t = {"type": "map", "keys": {"type": "string", "bytes": I64}, "values": AVR[a]}
            elif k == "enum":
                t = {"type": "enum", "symbols": a[1], "alias": f"{ns}.{a[0]}"}
            elif k == "rec":
                t = {"type": "struct", "alias": f"{ns}.{a[0]}",
                     "fields": [{**AVR[x], "name": n, "alias": f"{ns}.{n}"} for n, x in a[1]]}
            elif k == "same":
                t = {"type": f"{ns}.{a}"}
            else:
                t = {"type": "union", "types": [AVR[x] for x in a]}
            if c["null"]:
                t = opt(t)
            t = {**t, "name": c["n"]}
            if c["null"] or k in AVR and k != "ts" or k == "union":
                t["alias"] = f"{doc['ns']}.{c['n']}"
            if c.get("doc"):
                t["doc"] = c["doc"]
            fields.append(t)
        return {"type": "struct", "fields": fields, "alias": f"{doc['ns']}.{doc['name']}", "name": doc["name"]}
    if f == "json":
        fields, seen = [], set()
        for c in cols:
            if c["k"] == "ref":
                sub = (refs or {})[c["a"]["url"]]
                if c["a"]["url"] in seen:
                    t = {"type": urn_alias(sub["id"])}
                else:
                    seen.add(c["a"]["url"])
                    t = doc_recap(sub, refs)
            else:
                k, a = c["k"], c.get("a")
                if k in JSR:
                    t = JSR[k]
                elif k == "arr":
                    t = {"type": "list", "values": JSR[a]}
                elif k == "obj":
                    t = {"type": "struct", "fields": [{**(JSR[x] if i == 0 else opt(JSR[x])), "name": n} for i, (n, x) in enumerate(a)]}
                elif k == "either":
                    t = {"type": "union", "types": [JSR[x] for x in a]}
                else:
                    t = {"type": "string", "logical": {"date-time": "org.iso.8601.DateTime", "date": "org.iso.8601.Date",
                                                       "time": "org.iso.8601.Time"}[k]}
                if c.get("doc"):
                    t = {**t, "doc": c["doc"]}
            if c["null"]:
                d = t.pop("doc", None)
                t = opt(t)
                if d:
                    t["doc"] = d
            fields.append({**t, "name": c["n"]})
        out = {"type": "struct", "fields": fields}
        if doc.get("id"):
            out["alias"] = urn_alias(doc["id"])
        return out
    if f == "proto":
        fields = []
        for c in cols:
            k, a = c["k"], c.get("a")
            if k in PRR:
                t = PRR[k]
            elif k == "opt":
                t = PRR[a]
            elif k == "rep":
                t = {"type": "list", "values": PRR[a]}
            elif k == "map":
                t = {"type": "map", "keys": PRR[a[0]], "values": PRR[a[1]]}
            elif k == "enum":
                t = {"type": "enum", "symbols": a[1], "alias": f"{doc['ns']}.{a[0]}"}
            else:
                t = {"type": "struct", "alias": f"{doc['ns']}.{a[0]}", "fields": [{**opt(PRR[y]), "name": x} for x, y in a[1]]}
            fields.append({**opt(t), "name": c["n"]})
        return {"type": "struct", "fields": fields, "alias": f"{doc['ns']}.{doc['name']}"}
    raise ValueError(f)


def urn_alias(urn):
    """https://a.b.c/x/y.json -> c.b.a.x.y.json"""
    host, _, path = urn.split("://", 1)[1].partition("/")
    return ".".join(reversed(host.split("."))) + "." + path.replace("/", ".").replace("-", ".").lower()


# ------------------------------------------------------------ whole tables
def table_recap(family, name, tbl, refs=None):
    """Recap struct of a table (dict), or None if Recap refuses a column type."""
    cols = tbl["cols"]
    if family in ("csr", "fs"):
        if tbl.get("broken"):
            return None
        return doc_recap(tbl, refs)
    fields = []
    used = set()
    for c in cols:
        if family == "bq":
            t = bqcol(c)[1]
            if t is None:
                return None
            fields.append(t)
            continue
        t = {"pg": pg, "mysql": mysql, "snow": snow, "sqlite": sqlite, "hms": hms}[family](c)[1]
        if t is None:
            return None
        if t.get("alias"):
            while t["alias"] in used:
                v = t["values"]["types"][0]
                al = t["alias"] + "_"
                t = {**t, "alias": al, "values": {"type": "union", "types": [v, al]}}
            used.add(t["alias"])
        if family == "hms":
            t = {**opt(t), "name": c["n"]}
            if c.get("doc"):
                t["doc"] = c["doc"]
            fields.append(t)
            continue
        if c["null"]:
            if t["type"] == "union":
                t = {**t, "default": c.get("def")}
            else:
                t = {"type": "union", "types": ["null", t], "default": c.get("def")}
        elif c.get("def") is not None:
            t = {**t, "default": c["def"]}
        fields.append({**t, "name": c["n"]})
    out = {"type": "struct", "fields": fields}
    if family == "hms":
        out["name"] = name
    return out


# -------------------------------------------------------- output formats
class Unsupported(Exception):
    """The schema has no equivalent in the format: the request is refused."""


class Unknown(Exception):
    """Not predicted by this model."""


def to_avro(t):
    d = {}
    if t.get("doc"):
        d["doc"] = t["doc"]
    if t.get("name"):
        d["name"] = t["name"]
    if "default" in t:
        d["default"] = t["default"]
    if t.get("alias"):
        d["aliases"] = [t["alias"]]
    k = t["type"]
    lg = t.get("logical")
    if lg:
        d |= _avro_logical(t, lg)
    elif k == "null":
        d["type"] = "null"
    elif k == "bool":
        d["type"] = "boolean"
    elif k == "int":
        s = t.get("signed", True)
        if s and t["bits"] <= 32:
            d["type"] = "int"
        elif t["bits"] <= 32 or (s and t["bits"] <= 64):
            d["type"] = "long"
        else:
            raise Unknown()
    elif k == "float":
        d["type"] = "float" if t["bits"] <= 32 else "double"
    elif k in ("string", "bytes"):
        if t.get("bytes") is None:
            raise Unsupported()     # unbounded lengths have no Avro equivalent in Recap
        if k == "string":
            d["type"] = "string"
        elif t.get("variable", True):
            d["type"] = "bytes"
        else:
            d["type"] = "fixed"
            d["size"] = t["bytes"]
    elif k == "struct":
        d["type"] = "record"
        fs = []
        for f in t["fields"]:
            x = to_avro(f)
            fs.append({"type": x} if isinstance(x, str) else x)
        d["fields"] = fs
    elif k == "enum":
        d["type"], d["symbols"] = "enum", t["symbols"]
    elif k == "list":
        d["type"], d["items"] = "array", to_avro(t["values"])
    elif k == "map":
        if t["keys"]["type"] != "string":
            raise Unsupported()
        d["type"], d["values"] = "map", to_avro(t["values"])
    elif k == "union":
        d["type"] = [to_avro(x if isinstance(x, dict) else {"type": x}) for x in t["types"]]
    elif "." in k:
        d["type"] = k
    else:
        raise Unknown()
    if len(d) == 1 and isinstance(d["type"], str):
        return d["type"]
    return d


def _avro_logical(t, lg):
    k, u = t["type"], t.get("unit")
    if lg == "build.recap.Decimal" and isinstance(t.get("precision"), int):
        return {"type": "bytes", "logicalType": "decimal", "precision": t["precision"], "scale": t.get("scale", 0)}
    if lg == "build.recap.Date" and k == "int" and t["bits"] <= 32:
        return {"type": "int", "logicalType": "date"}
    if lg == "build.recap.Time" and u == "millisecond" and t["bits"] <= 32:
        return {"type": "int", "logicalType": "time-millis"}
    if lg == "build.recap.Time" and u == "microsecond":
        return {"type": "long", "logicalType": "time-micros"}
    if lg == "build.recap.Timestamp" and u == "millisecond":
        return {"type": "long", "logicalType": "timestamp-millis"}
    if lg == "build.recap.Timestamp" and u == "microsecond":
        return {"type": "long", "logicalType": "timestamp-micros"}
    if lg == "build.recap.UUID":
        return {"type": "string", "logicalType": "uuid"}
    raise Unsupported()


def to_json(t):
    out = _js(t)
    defs = {}
    _js_defs(t, defs)
    if defs:
        out["$defs"] = defs
    return out


def _kids(t):
    k = t["type"]
    if k == "struct":
        return t["fields"]
    if k == "union":
        return [x if isinstance(x, dict) else {"type": x} for x in t["types"]]
    if k in ("list", "map"):
        return [t["values"] if isinstance(t["values"], dict) else {"type": t["values"]}]
    return []


def _js_defs(t, defs):
    if t.get("alias"):
        defs[t["alias"]] = _js(t, False)
    for x in _kids(t):
        _js_defs(x, defs)


def _optional(t):
    if t["type"] != "union" or "default" not in t:
        return False
    rest = [x for x in t["types"] if x not in ("null", {"type": "null"})]
    return len(rest) == 1 and len(rest) < len(t["types"])


def _js(t, refs=True):
    if refs and t.get("alias"):
        return {"$ref": f"#/$defs/{t['alias']}"}
    d = {}
    if "default" in t:
        d["default"] = t["default"]
    if t.get("doc"):
        d["description"] = t["doc"]
    k = t["type"]
    if k == "union":
        if _optional(t):
            x = [x for x in _kids(t) if x != {"type": "null"}][0]
            return {**d, **_js(x)}
        return {**d, "oneOf": [_js(x) for x in _kids(t)]}
    if k == "struct":
        d |= {"type": "object", "properties": {}}
        for f in t["fields"]:
            d["properties"][f["name"]] = _js(f)
            if not _optional(f):
                d.setdefault("required", []).append(f["name"])
        return d
    if k == "list":
        return {**d, "type": "array", "items": _js(_kids(t)[0])}
    if k == "map":
        return {**d, "type": "object", "additionalProperties": _js(_kids(t)[0])}
    if k == "enum":
        return {**d, "type": "string", "enum": t["symbols"]}
    simple = {"bool": "boolean", "int": "integer", "float": "number", "string": "string", "null": "null"}
    if k in simple:
        return {**d, "type": simple[k]}
    if k == "bytes":
        return {**d, "type": "string", "format": "byte"}
    if "." in k:
        if set(t) - {"type"}:
            raise Unknown()
        return {**d, "$ref": f"#/$defs/{k}"}
    raise Unknown()


def to_proto(t):
    """Token list of the message; only flat messages of scalar fields are predicted."""
    if not t.get("alias"):
        raise Unsupported()
    pkg, msg = t["alias"].rsplit(".", 1)
    out = ["package", pkg, ";", "message", msg, "{"]
    for i, f in enumerate(t["fields"]):
        card = []
        x = f
        if f["type"] == "union":
            if not _optional(f):
                raise Unknown()
            x = [y for y in _kids(f) if y != {"type": "null"}][0]
            card = ["optional"]
        k = x["type"]
        if k == "bool":
            ty = "bool"
        elif k == "int":
            ty = ("" if x.get("signed", True) else "u") + ("int32" if x["bits"] <= 32 else "int64")
        elif k == "float":
            ty = "float" if x["bits"] <= 32 else "double"
        elif k in ("string", "bytes"):
            if (x.get("bytes") or 1 << 62) > 2_147_483_647:
                raise Unsupported()
            ty = k
        else:
            raise Unknown()
        out += card + [ty, f["name"], "=", str(i + 1), ";"]
    return out + ["}"]


def proto_tokens(text):
    for ch in ";{}=":
        text = text.replace(ch, f" {ch} ")
    return text.split()


def render(t, fmt):
    if fmt == "avro":
        x = to_avro(t)
        return {"type": x} if isinstance(x, str) else x
    if fmt == "json":
        return to_json(t)
    if fmt == "protobuf":
        return to_proto(t)
    raise Unknown()
