"""Recap schemas as JSON: generator, and an independent canonical form.

canon() is written from the documentation of the schema language, not from
recap's code: two payloads denote the same schema iff their canonical forms
are equal.  Rules: strings name a type, lists are unions, `optional` is a
union with null and a default, attributes equal to their documented defaults
may be omitted, built-in aliases abbreviate their definition, a user alias
reference denotes the definition without doc/default, and doc/name of the
single non-null member of an optional belong to the optional.
"""
from __future__ import annotations

import copy

I64 = 9_223_372_036_854_775_807
I32 = 2_147_483_648
BUILTIN = {
    "int8": {"type": "int", "bits": 8}, "uint8": {"type": "int", "bits": 8, "signed": False},
    "int16": {"type": "int", "bits": 16}, "uint16": {"type": "int", "bits": 16, "signed": False},
    "int32": {"type": "int", "bits": 32}, "uint32": {"type": "int", "bits": 32, "signed": False},
    "int64": {"type": "int", "bits": 64}, "uint64": {"type": "int", "bits": 64, "signed": False},
    "float16": {"type": "float", "bits": 16}, "float32": {"type": "float", "bits": 32},
    "float64": {"type": "float", "bits": 64},
    "string32": {"type": "string", "bytes": I32}, "string64": {"type": "string", "bytes": I64},
    "bytes32": {"type": "bytes", "bytes": I32}, "bytes64": {"type": "bytes", "bytes": I64},
    "uuid": {"type": "string", "logical": "build.recap.UUID", "bytes": 36, "variable": False},
    "decimal128": {"type": "bytes", "logical": "build.recap.Decimal", "bytes": 16, "variable": False,
                   "precision": 28, "scale": 14},
    "decimal256": {"type": "bytes", "logical": "build.recap.Decimal", "bytes": 32, "variable": False,
                   "precision": 56, "scale": 28},
    "duration64": {"type": "int", "logical": "build.recap.Duration", "bits": 64, "unit": "millisecond"},
    "interval128": {"type": "bytes", "logical": "build.recap.Interval", "bytes": 16, "variable": False,
                    "unit": "millisecond"},
    "time32": {"type": "int", "logical": "build.recap.Time", "bits": 32, "unit": "second"},
    "time64": {"type": "int", "logical": "build.recap.Time", "bits": 64, "unit": "second"},
    "timestamp64": {"type": "int", "logical": "build.recap.Timestamp", "bits": 64, "unit": "millisecond",
                    "timezone": "UTC"},
    "date32": {"type": "int", "logical": "build.recap.Date", "bits": 32, "unit": "day"},
    "date64": {"type": "int", "logical": "build.recap.Date", "bits": 64, "unit": "day"},
}
DEFAULTS = {
    "int": {"signed": True}, "string": {"bytes": None, "variable": True},
    "bytes": {"bytes": None, "variable": True}, "list": {"length": None, "variable": True},
}
COMMON = {"doc": None, "alias": None, "logical": None}
CONCRETE = {"null", "bool", "int", "float", "string", "bytes", "list", "map", "struct", "enum", "union"}
NULL = {"type": "null"}


def _norm(d):
    if isinstance(d, str):
        d = {"type": d}
    elif isinstance(d, list):
        d = {"type": "union", "types": d}
    d = dict(d)
    if d.pop("optional", False):
        name, default = d.pop("name", None), d.pop("default", None)
        if d["type"] != "union":
            d = {"type": "union", "types": ["null", d]}
        elif "null" not in d["types"]:
            d["types"] = ["null"] + list(d["types"])
        if name is not None:
            d["name"] = name
        d["default"] = default
    t = d["type"]
    if isinstance(t, list):
        d["types"] = t
        d["type"] = t = "union"
    if t in BUILTIN:
        d = {**BUILTIN[t], **{k: v for k, v in d.items() if k != "type"}}
        t = d["type"]
    for k, v in {**COMMON, **DEFAULTS.get(t, {})}.items():
        if k in d and d[k] == v:
            del d[k]
    if t == "union":
        d["types"] = [_norm(x) for x in d["types"]]
    elif t == "list":
        d["values"] = _norm(d["values"])
    elif t == "map":
        d["keys"], d["values"] = _norm(d["keys"]), _norm(d["values"])
    elif t == "struct":
        d["fields"] = [_norm(x) for x in d.get("fields", [])]
    if t == "union" and "default" in d and NULL in d["types"]:
        rest = list(d["types"])
        rest.remove(NULL)
        # with a default the position of null carries no meaning
        d["types"] = [dict(NULL)] + rest
        if len(rest) == 1 and not (d.keys() - {"type", "types", "default", "doc", "name"}):
            x = rest[0]
            # doc and name belong to the optional as a whole
            if not ({"default"} & x.keys()) and x["type"] != "union" and x != NULL:
                if ("doc" in x) != ("doc" in d) or ("doc" not in x):
                    if not ("name" in x and "name" in d):
                        for k in ("doc", "name"):
                            if k in x:
                                d[k] = x.pop(k)
    return d


def _walk(n):
    yield n
    for k in ("values", "keys"):
        if n["type"] in ("list", "map") and k in n:
            yield from _walk(n[k])
    if n["type"] == "struct":
        for f in n["fields"]:
            yield from _walk(f)
    if n["type"] == "union":
        for f in n["types"]:
            yield from _walk(f)


def _expand(n, defs, stack):
    n = dict(n)
    t = n["type"]
    if t not in CONCRETE:
        if t in stack or t not in defs:
            return n
        base = {k: v for k, v in defs[t].items() if k not in ("alias", "doc", "default")}
        base = copy.deepcopy(base)
        base.update({k: v for k, v in n.items() if k != "type"})
        return _expand(base, defs, stack | {t})
    st = stack | {n["alias"]} if "alias" in n else stack
    if t == "list":
        n["values"] = _expand(n["values"], defs, st)
    elif t == "map":
        n["keys"] = _expand(n["keys"], defs, st)
        n["values"] = _expand(n["values"], defs, st)
    elif t == "struct":
        n["fields"] = [_expand(x, defs, st) for x in n["fields"]]
    elif t == "union":
        n["types"] = [_expand(x, defs, st) for x in n["types"]]
    return n


def canon(d):
    n = _norm(copy.deepcopy(d))
    defs = {x["alias"]: x for x in _walk(n) if "alias" in x and x["type"] in CONCRETE}
    return _expand(n, defs, frozenset())


# ---- generator -------------------------------------------------------
WORDS = ["id", "name", "größe", "a b", "x.y", "日本", "e\u0301", "quote\"d", "tab\t", "\U0001f600", "", "null", "type", "\u2028"]


def _json(rng, depth=0):
    k = rng.randrange(10 if depth < 2 else 7)
    if k == 0:
        return None
    if k == 1:
        return rng.random() < 0.5
    if k == 2:
        return rng.choice([0, 1, -1, 2**31, 2**63, -2**63, 10**30, rng.randrange(1000)])
    if k == 3:
        return rng.choice([0.5, -1.5, 1e300, 1e-9, 3.141592653589793])
    if k <= 6:
        return rng.choice(WORDS)
    if k <= 8:
        return [_json(rng, depth + 1) for _ in range(rng.randrange(3))]
    return {rng.choice(["k", "é", "a b"]): _json(rng, depth + 1) for _ in range(rng.randrange(3))}


class Gen:
    def __init__(self, rng, size):
        self.rng = rng
        self.budget = size
        self.aliases = []
        self.nalias = 0

    def attrs(self, d, field=None):
        r = self.rng
        if r.random() < 0.15:
            d["doc"] = r.choice(WORDS) + str(r.randrange(100))
        if field is not None and r.random() < 0.9:
            d["name"] = field
        if r.random() < 0.12:
            d["default"] = _json(r)
        if r.random() < 0.08:
            d[r.choice(["x-extra", "unit", "größe", "pii", "low"])] = _json(r)
        if r.random() < 0.05:
            d["logical"] = r.choice(["my.Logical", "build.recap.Date"])
        return d

    def near(self):
        """The definition of a built-in alias, or one that differs from it in a detail."""
        r = self.rng
        name = r.choice(sorted(BUILTIN))
        d = dict(BUILTIN[name])
        if r.random() < 0.25:
            return d
        if r.random() < 0.2:
            d = {"type": name}
            if BUILTIN[name]["type"] == "int":
                d["unit"] = r.choice(["second", "microsecond", "day"])
            return d
        k = r.choice(sorted(d.keys() - {"type"}))
        if k == "unit":
            d[k] = r.choice(["second", "millisecond", "microsecond", "nanosecond", "day", "month"])
        elif k in ("signed", "variable"):
            d[k] = not d[k]
        elif k == "timezone":
            d[k] = r.choice(["UTC+1", "Europe/Berlin", None, ""])
        elif k == "logical":
            d[k] = r.choice([x["logical"] for x in BUILTIN.values() if "logical" in x] + ["build.recap.uuid"])
        elif k in ("precision", "scale"):
            d[k] = r.choice([d[k] + 1, d[k] - 1, 0, 10])
        else:
            d[k] = r.choice([d[k] - 1, max(1, d[k] // 2), min(d[k] * 2, 2147483647 if k == "bits" else I64), min(d[k] + 1, I64)])
        if r.random() < 0.2:
            d.pop(r.choice(sorted(d.keys() - {"type", "bits", "bytes"}) or ["type"]) if d.keys() - {"type", "bits", "bytes"} else "none", None)
        elif r.random() < 0.2:
            d[r.choice(["unit", "timezone", "precision", "x-more"])] = r.choice(["second", "UTC", 1])
        return d

    def node(self, depth, field=None):
        r = self.rng
        self.budget -= 1
        deep = depth > 0 and self.budget > 0
        k = r.randrange(22)
        if k >= 20:
            d = self.near()
        elif k < 3:
            d = {"type": r.choice(sorted(BUILTIN))}
        elif k == 3 and self.aliases and r.random() < 0.8:
            d = {"type": r.choice(self.aliases)}
        elif k == 4:
            d = {"type": "int", "bits": r.choice([1, 7, 8, 16, 24, 32, 64, 2147483647])}
            if r.random() < 0.4:
                d["signed"] = r.random() < 0.5
        elif k == 5:
            d = {"type": "float", "bits": r.choice([16, 32, 64, 80])}
        elif k in (6, 7):
            d = {"type": r.choice(["string", "bytes"])}
            if r.random() < 0.6:
                d["bytes"] = r.choice([1, 36, 2147483648, I64])
                if r.random() < 0.4:
                    d["variable"] = r.random() < 0.5
        elif k == 8:
            d = {"type": r.choice(["bool", "null", "bool"])}
        elif k == 9:
            d = {"type": "enum", "symbols": [r.choice(WORDS) + str(i) for i in range(r.randrange(3))]}
        elif k <= 11 and deep:
            d = {"type": "list", "values": self.node(depth - 1)}
            if r.random() < 0.3:
                d["length"] = r.choice([1, 5, I64])
                if r.random() < 0.5:
                    d["variable"] = False
        elif k == 12 and deep:
            d = {"type": "map", "keys": self.node(depth - 1), "values": self.node(depth - 1)}
        elif k <= 15 and deep:
            d = {"type": "struct", "fields": [self.node(depth - 1, f"f{i}{r.choice(WORDS)}")
                                              for i in range(r.randrange(4))]}
        elif k <= 18 and deep:
            types = [x for x in (self.node(depth - 1) for _ in range(r.randrange(1, 4)))
                     if x not in ("null", NULL)]
            if r.random() < 0.6 or not types:
                types.insert(r.randrange(len(types) + 1), "null")
            d = {"type": "union", "types": types}
            if r.random() < 0.2:
                if r.random() < 0.4:
                    types.append(["string", r.choice(["bool", {"type": "int", "bits": 7}])])
                d = {"type": types}
        else:
            d = {"type": r.choice(["int64", "string", "bool", "int32"])}
        t = d["type"]
        self.attrs(d, field)
        if t == "union" and "null" in d["types"] and r.random() < 0.4:
            d["default"] = None if r.random() < 0.7 else _json(r)
        if t != "null" and r.random() < 0.2:
            d["optional"] = True
        if isinstance(t, str) and t in CONCRETE and r.random() < 0.12 and "optional" not in d:
            self.nalias += 1
            a = r.choice(["a.B", "com.x.Typ", "_root.z"]) + str(self.nalias)
            d["alias"] = a
            self.aliases.append(a)
        if len(d) == 1 and isinstance(t, str) and r.random() < 0.7:
            return t
        if d.keys() == {"type", "types"} and r.random() < 0.7:
            return d["types"]
        return d


def schema(rng, tag, rich):
    """A unique, valid schema."""
    if not rich:
        return {"type": "struct", "fields": [
            {"type": rng.choice(["int32", "int64", "string", "bool"]), "name": f"f_{tag}"}]}
    g = Gen(rng, rng.choice([3, 8, 20]))
    k = rng.random()
    if k < 0.7:
        n = rng.choice([0, 1, 2, 3, 6, 12])
        d = {"type": "struct", "doc": tag,
             "fields": [g.node(rng.choice([0, 1, 2, 3]), f"f{i}") for i in range(n)]}
        if rng.random() < 0.2:
            d["alias"] = "top.Level"
            if rng.random() < 0.5:
                d["fields"].append({"type": "top.Level", "name": "self_ref", "optional": True})
        return d
    if k < 0.75:
        return {"type": "int", "bits": 7, "x-tag": tag}
    n = g.node(3)
    return {"type": "list", "values": n, "x-tag": tag}
