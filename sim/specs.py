"""Per-property settings of the search and the fixed parts of the evidence."""

REG_REAL = [
    "recap.cli serve, recap.server.app and routers (FastAPI, Starlette, pydantic unmodified)", "recap.storage.registry", "recap.types",
    "recap.settings", "fsspec LocalFileSystem on a scratch directory (real kernel file system under the seam)",
]
REG_STUB = [
    "uvicorn and TCP: the simulator runs what recap serve hands to uvicorn and delivers ASGI messages", "asyncio selector event loop (simulated clock)",
    "anyio worker threads (simulated tasks)", "cloud object store: in-memory fsspec file system simobj://",
    "time, os.urandom, threading locks",
]
REG_ASSUME = [
    "A crash kills the process; what it had written to the file system survives (no power loss).",
    "rename(2) on the local file system is atomic; an object upload is atomic.",
    "Python code between two seam operations (file-system call, lock, await, or source line in the runs with line preemption) is atomic.",
]
RULE_REG = (
    "Each run draws a workload (1-5 clients, up to 22 requests on 1-5 names, bodies, chunking, hang-ups), a storage back end, a "
    "scheduling policy and a fault plan from its seed; the run is non-trivial if it completed at least two operations and at least "
    "two operations overlapped or at least one fault (error, crash, restart, disconnect) was injected; distinct = distinct hash of "
    "the complete event log")

GW_REAL = [
    "recap.server.app and gateway/registry routers", "recap.commands", "recap.cli", "recap.clients.*", "recap.converters.*",
    "recap.settings", "pymetastore + thrift protocol", "confluent_kafka SchemaRegistryClient", "sqlite3 (real database files)",
    "FastAPI, Starlette, pydantic",
]
GW_STUB = [
    "psycopg2, mysql.connector, snowflake.connector: DB-API stand-ins that execute the real queries against a simulated catalog",
    "thrift socket: in-memory transport to a simulated metastore", "HTTP transport of the schema registry client",
    "google.cloud.bigquery.Client: stand-in with paged listings", "uvicorn, TCP, event loop, worker threads, time",
]
GW_ASSUME = [
    "The simulated upstreams answer catalog queries as the real ones do (information_schema columns, types, ordering as listed in DESIGN.md).",
    "Python code between two seam operations (upstream call, lock, await, or source line in the runs with line preemption) is atomic.",
]
RULE_GW = (
    "Each run draws upstreams, tables, a workload of gateway, CLI and Python API requests, concurrent DDL on the upstreams, a "
    "scheduling policy and a fault plan from its seed; the run is non-trivial if it completed at least two operations and at least "
    "two operations overlapped, an upstream changed during the run, or at least one fault was injected; distinct = distinct hash of "
    "the complete event log")


def reg(q=75, t=900, **kw):
    return {"quick_s": q, "thorough_s": t, "real": REG_REAL, "stub": REG_STUB, "assumptions": REG_ASSUME, "rule": RULE_REG, **kw}


def gw(q=75, t=900, **kw):
    return {"quick_s": q, "thorough_s": t, "real": GW_REAL, "stub": GW_STUB, "assumptions": GW_ASSUME, "rule": RULE_GW, **kw}


SPECS = {
    "C01": reg(), "C02": reg(), "C03": reg(), "C04": reg(),
    "C05": reg(canned=[{"seed": "canned-overlap"}]),
    "C06": gw(), "C07": gw(q=100), "C08": gw(q=90), "C09": gw(), "C10": gw(), "C11": gw(), "C12": reg(), "C13": reg(),
}
