#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
CLAIMED = [f"C{i:02d}" for i in range(1, 14)]
NA = {
    "N01": "pure, single-threaded function of its input: no schedule, clock, I/O, crash or peer for a simulator to control; the parts of it that reach users through the gateway are exercised as inputs of C07",
    "N02": "pure function of one catalog row: nothing to schedule or fail; the column types the simulated upstreams hold are checked as part of C07",
    "N03": "pure function of its input; the bodies the registry accepts or refuses are exercised as inputs of C04",
    "N04": "pure function of a string: nothing to schedule or fail; the URLs the gateway simulation uses are exercised as part of C07 and C09",
}
NOTE = {
    "C01": "Seeded exploration of crash points (every file-system call, torn writes) x workloads x schedules against a per-name linearizability oracle with durable state only surviving; not exhaustive. Trusts the simulator, the reference model, and that a killed process leaves what it wrote to the file system.",
    "C02": "Seeded exploration of interleavings of the real server (event loop, worker threads, uploads, disconnects), every history checked for linearizability against a reference model; not exhaustive.",
    "C03": "Seeded exploration of storage errors at every file-system or object-store call, incl. short and partial writes; responses and later reads checked against the reference model; not exhaustive.",
    "C04": "Seeded exploration of generated schemas, names, malformed bodies, chunkings and disconnects against an independent canonical form and containment probes; not exhaustive.",
    "C05": "Seeded exploration of several server processes, API processes and restarts sharing a storage (incl. listing caches); strict for stores that do not overlap, the overlapping case is a known finding.",
    "C06": "Seeded exploration of upstream failures at every connection, query, fetch and conversion step; open connections counted when the request ends, before any garbage collection; not exhaustive.",
    "C07": "Seeded exploration of concurrent DDL, concurrent requests and request histories; answers compared with an independent model of every upstream state during the request; not exhaustive.",
    "C08": "Seeded exploration of failures, timeouts and broken-off reads of every upstream call; every success compared with the model; recovery checked after faults stop; not exhaustive.",
    "C09": "Seeded exploration of failures with secrets planted in every configured URL; all responses and all connection attempts inspected; not exhaustive.",
    "C10": "Seeded exploration of stalls of upstreams and clients under a simulated clock; bounded response time of unaffected requests; not exhaustive.",
    "C11": "Seeded exploration of hostile and missing names, failures and concurrent changes; every statement, call and HTTP method the upstreams receive is classified, every file compared byte for byte, every answer compared with the model; not exhaustive.",
    "C12": "Seeded exploration of repeated storage failures, refused bodies and hang-ups; files in the storage, open handles and the effect of reads checked once nothing is in progress; not exhaustive.",
    "C13": "Seeded exploration of storages laid out by earlier releases (names, version sets, schemas), served under crashes, errors and concurrent stores; histories checked for linearizability with the earlier versions as initial state; not exhaustive.",
}
props = [json.loads(l)["id"] for l in open(f"{HERE}/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "python3 setup_check.py",
    "checks": [{
        "property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
        "technique": "deterministic simulation with fault injection: seeded search over schedules and fault sequences",
        "level": "exploration", "level_note": NOTE[p]} for p in CLAIMED],
    "not_applicable": [{"property": p, "reason": NA.get(p, "check under construction")} for p in props if p not in CLAIMED],
    "notes": "No hooks in /repo: the seams are the fsspec, DB-API, HTTP, thrift and ASGI interfaces and the Python runtime (see DESIGN.md). Known and fixed findings: known_findings.json. Replay: python3 check.py --replay FILE.",
}
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
