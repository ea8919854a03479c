"""URLs made to look like configured ones, and the rule which URLs are configured."""
from __future__ import annotations

from urllib.parse import quote

SCHEME = {"pg": "postgresql", "mysql": "mysql", "snow": "snowflake", "sqlite": "sqlite", "bq": "bigquery", "fs": "file",
          "hms": "thrift+hms", "csr": "http+csr"}


def scheme(u):
    return "https+csr" if u.get("tls") else SCHEME[u["family"]]


def sq_path(u):
    return ("/@ROOT" if u.get("abs") else "") + u["host"]


def head(u):
    f = u["family"]
    if f in ("pg", "mysql", "hms", "csr"):
        return f"{scheme(u)}://{u['host']}:{u['port']}"
    if f == "snow":
        return f"snowflake://{u['host']}"
    if f == "sqlite":
        return "sqlite://" + sq_path(u)
    if f == "bq":
        return "bigquery://"
    raise ValueError(f)


def url_of(u, path, root=""):
    """Request URL of an object of an upstream (no credentials)."""
    if u["family"] == "fs":
        return "/".join([f"file://{root}/files"] + list(path))
    return "/".join([head(u)] + list(path))


def allowed(u, path):
    """Is this object covered by the configured URLs?"""
    if not u["configured"]:
        return False
    if "only" in u:
        return bool(path) and path[0] in u["only"]
    return True


def some_path(rng, u):
    dbs = u["state"]["dbs"]
    d = rng.choice(list(dbs))
    s = rng.choice(list(dbs[d]))
    t = rng.choice(list(dbs[d][s]) or ["t1"])
    f = u["family"]
    return [d, s, t] if f in ("pg", "snow", "bq") else [s, t] if f in ("mysql", "hms") or s else [t]


EVIL_HOST = "evil.example.com"
REDIRECT = {
    "pg": [f"host={EVIL_HOST}", f"hostaddr=10.6.6.6", "port=6666", "service=evil", f"host={EVIL_HOST}&port=5432", "user=other",
           "password=other", "passfile=/tmp/x", "host=/tmp/sock", "netloc=" + EVIL_HOST, "hostname=" + EVIL_HOST, "paths=db2&paths=public",
           "dbname=db2", "scheme=mysql", "scheme=mysql&host=" + EVIL_HOST, "url=sqlite:///other.sqlite&scheme=sqlite",
           "host=" + EVIL_HOST + "&host=" + EVIL_HOST],
    "mysql": [f"host={EVIL_HOST}", "port=6666", f"unix_socket=/tmp/evil.sock", "user=other", "password=other", "database=db2",
              "netloc=" + EVIL_HOST, "paths=db2&paths=t1", "scheme=postgresql", "hostname=" + EVIL_HOST,
              "url=sqlite:///other.sqlite&scheme=sqlite"],
    "snow": [f"host={EVIL_HOST}", "account=evil", "account=acct9", f"proxy_host={EVIL_HOST}&proxy_port=80",
             f"authenticator=https://{EVIL_HOST}/", "user=other", "password=other", "database=DB2", "scheme=postgresql",
             "paths=DB2&paths=PUBLIC", "region=evil"],
    "sqlite": ["url=sqlite:///other.sqlite", "database=other.sqlite", "paths=other.sqlite", "paths=other.sqlite&paths=t1",
               "path=/other.sqlite", "netloc=x", "scheme=postgresql&host=" + EVIL_HOST],
    "bq": ["scheme=sqlite&url=sqlite:///other.sqlite", "scheme=postgresql&host=" + EVIL_HOST + "&user=a"],
    "fs": ["scheme=sqlite&url=sqlite:///other.sqlite"],
    "hms": ["host=" + EVIL_HOST, "port=6666", "scheme=postgresql", "url=thrift://" + EVIL_HOST + ":9083", "hostname=" + EVIL_HOST],
    "csr": [f"url=http://{EVIL_HOST}:8081", f"url=http%2Bcsr://{EVIL_HOST}:8081", "basic.auth.user.info=a:b", "netloc=" + EVIL_HOST + ":8081", "dialect=http", "scheme=http%2Bcsr",
            f"url=http://csr0:8081,http://{EVIL_HOST}:8081", "host=" + EVIL_HOST, "ssl.ca.location=/tmp/x", f"x=,http://{EVIL_HOST}:8081", "driver=hms"],
}


# parameters that would change how the connection is secured, as whom it acts or what it executes
GUARDED = {
    "pg": ["sslmode=disable", "sslrootcert=/tmp/evil.pem", "requiressl=0", "options=-c%20role%3Dadmin", "sslcert=", "SSLMODE=disable", "gssencmode=require",
           "channel_binding=disable", "sslmode=verify-full&sslmode=disable", "ssl_min_protocol_version=TLSv1", "sslcrl=/dev/null", "replication=database",
           "krbsrvname=evil", "sslmode=disable&application_name=x", "requirepeer=evil", "gsslib=gssapi"],
    "mysql": ["ssl_disabled=1", "ssl_ca=/tmp/evil.pem", "ssl_verify_cert=", "tls_versions=TLSv1", "init_command=DROP%20TABLE%20db1.t1",
              "init_command=SET%20ROLE%20admin%3B%20DELETE%20FROM%20t1", "allow_local_infile=1", "auth_plugin=mysql_clear_password",
              "time_zone=%2B00%3A00%27%3B%20DROP%20TABLE%20t1%3B%20--%20", "sql_mode=%27%3B%20DROP%20TABLE%20t1%3B%20--%20", "dns_srv=1",
              "ssl_verify_identity=0", "allow_local_infile_in_path=/etc", "krb_service_principal=evil", "oci_config_file=/tmp/x", "client_flags=4", "autocommit=1&init_command=UPDATE%20t1%20SET%20a%3D1"],
    "snow": ["role=ACCOUNTADMIN", "insecure_mode=true", "session_parameters=x", "ocsp_fail_open=true", "connection_name=other", "authenticator=oauth",
             "private_key_file=/tmp/x", "disable_ocsp_checks=true", "protocol=http", "connections_file_path=/tmp/x"],
    "csr": ["ssl.ca.location=/tmp/x", "ssl.certificate.location=/tmp/x", "ssl.certificate.location=/tmp/x&ssl.key.location=/tmp/x"],
}


def guarded(rng, u, p):
    """A URL of a configured object that tries to change the connection."""
    par = rng.choice(GUARDED[u["family"]])
    return {"url": url_of(u, p) + "?" + par, "why": "parameters change the connection", "up": u["id"], "guard": sorted({x.split("=")[0] for x in par.split("&")} - {"application_name", "autocommit"})}


def evil(rng, ups, urls):
    conf = [u for u in ups if u["family"] in REDIRECT and u["configured"]]
    unconf = [u for u in ups if u["family"] in REDIRECT and not u["configured"]]
    kind = rng.choice(["schema", "ls"])
    k = rng.random()
    if unconf and k < 0.2:
        u = rng.choice(unconf)
        if u["family"] == "fs":
            return {"kind": "schema", "url": "@ROOT/files/" + "/".join(some_path(rng, u)), "refuse": True, "why": "file not configured"}
        p = some_path(rng, u)
        return {"kind": kind, "url": url_of(u, p if kind == "schema" else p[:-1]), "refuse": True, "why": "upstream not configured"}
    if not conf:
        return None
    u = rng.choice(conf)
    f = u["family"]
    p = some_path(rng, u)
    if kind == "ls":
        p = p[:-1]
    if f in GUARDED and k < 0.35:
        return {"kind": kind, **guarded(rng, u, p)}
    if k < 0.6 and f in REDIRECT:
        base = url_of(u, p) if f != "fs" else "file:///etc"
        return {"kind": kind, "url": base + "?" + rng.choice(REDIRECT[f]), "why": "parameters redirect", "up": u["id"]}
    if f in ("pg", "mysql"):
        s, h, port = SCHEME[f], u["host"], u["port"]
        tail = "".join("/" + x for x in p)
        cands = [
            f"{s}://{EVIL_HOST}:{port}{tail}", f"{s}://{h}:6666{tail}", f"{s}://{h}{tail}", f"{s}://{h}.{EVIL_HOST}:{port}{tail}",
            f"{s}://{h}:{port}@{EVIL_HOST}:{port}{tail}", f"{s}://x@{EVIL_HOST}:{port}{tail}", 
            f"{s}://{h}%00{EVIL_HOST}:{port}{tail}", f"{s}://{h}0:{port}{tail}", f"{s}://{h}:{port}0{tail}", f"{s}://{h[:-1]}:{port}{tail}",
            f"{s}://{EVIL_HOST},{h}:{port}{tail}", f"{s}://{h},{EVIL_HOST}:{port}{tail}", f"{s}://[{h}]:{port}{tail}",
            f"{'mysql' if f == 'pg' else 'postgresql'}://{h}:{port}{tail}", f"{s}+x://{h}:{port}{tail}", f"{s}://{EVIL_HOST}#@{h}:{port}{tail}",
            f"{s}://{EVIL_HOST};{h}:{port}{tail}", f"{s}:///{h}:{port}{tail}", f"http+csr://{h}:{port}{tail}", f"http://{h}:{port}{tail}",
            f"https+csr://{EVIL_HOST}{tail}", f"thrift+hms://{h}:{port}{tail}", f"snowflake://{h}{tail}",
        ]
        x = rng.choice(cands)
        refuse = True
        if "only" in u and rng.random() < 0.5:
            d = u["only"][0]
            rest = "".join("/" + y for y in p[1:])
            bad = [y for y in (d + "0", d + "x", "db9", d[:-1] or "q", d + "-old", d + ".", d.upper() + "_") if y not in u["only"]]
            x = f"{s}://{h}:{port}/{rng.choice(bad)}{rest}"
            if f == "pg" and not rest and kind == "schema":
                x += "/s/t"
        return {"kind": kind, "url": x, "refuse": refuse, "why": "another URL"}
    if f in ("hms", "csr"):
        s, h, port = scheme(u), u["host"], u["port"]
        tail = "".join("/" + x for x in p)
        other = {"http+csr": "https+csr", "https+csr": "http+csr"}.get(s, "thrift")
        cands = [f"{s}://{EVIL_HOST}:{port}{tail}", f"{s}://{h}:6666{tail}", f"{s}://{h}{tail}", f"{s}://{h}.{EVIL_HOST}:{port}{tail}",
                 f"{s}://{h}:{port}@{EVIL_HOST}:{port}{tail}", f"{s}://{h},{EVIL_HOST}:{port}{tail}", f"{s}://{EVIL_HOST},{h}:{port}{tail}",
                 f"{other}://{h}:{port}{tail}", f"{other}://{h}:{port}{tail}", f"{s.split('+')[0]}://{h}:{port}{tail}", f"{s}://{h[:-1]}:{port}{tail}",
                 f"{s}://{h}:{port},http://{EVIL_HOST}:{port}{tail}", f"postgresql://{h}:{port}{tail}/a/b"]
        if f == "csr" and rng.random() < 0.4:
            # one that names the configured registry, and another one
            x = rng.choice([f"{s}://{h}:{port}{tail}#,http://{EVIL_HOST}:8081", f"{s}://{h}:{port}/,http://{EVIL_HOST}:8081{tail}",
                            f"{s}://{h}:{port};,http://{EVIL_HOST}:8081{tail}", f"{s}://{h}:{port}{tail},http://{EVIL_HOST}:8081/x"])
            return {"kind": kind, "url": x, "why": "another URL inside", "up": u["id"]}
        return {"kind": kind, "url": rng.choice(cands), "refuse": True, "why": "another URL"}
    if f == "sqlite":
        h = sq_path(u)
        cands = [f"sqlite://{h}/../other.sqlite", f"sqlite://{h}x", f"sqlite:///other.sqlite", f"sqlite:///../run/other.sqlite",
                 f"sqlite://{h[:-1]}", f"sqlite:////@ROOT/other.sqlite", f"sqlite://{h}-wal", f"sqlite://{h}/../../other.sqlite",
                 f"sqlite://{h}/./../other.sqlite", "sqlite://", "sqlite:///", "sqlite:///:memory:"]
        x = rng.choice(cands)
        return {"kind": kind, "url": x + ("/t1" if kind == "schema" else ""), "refuse": True, "why": "another URL"}
    if f == "snow":
        h = u["host"]
        tail = "".join("/" + x for x in p)
        cands = [f"snowflake://{h}0{tail}", f"snowflake://evil{tail}", f"snowflake://{h}@evil{tail}", f"snowflake://{h}:443{tail}",
                 f"postgresql://{h}{tail}", f"mysql://{h}{tail}", f"snowflake://{h}.evil{tail}"]
        if "only" in u:
            cands += [f"snowflake://{h}/{u['only'][0]}0/PUBLIC"] * 3
        return {"kind": kind, "url": rng.choice(cands), "refuse": True, "why": "another URL"}
    return None
