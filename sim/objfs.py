"""Simulated object store behind the real fsspec interface (stands in for S3/GCS/ABS).

Object-store semantics: no directories, an object appears atomically when its
upload completes (file closed), strongly consistent listing.  With
cache=True an instance remembers listings until it writes there itself or
invalidate_cache() is called, as s3fs and gcsfs do; instances are per thread
and process, as fsspec makes them.
"""
from __future__ import annotations

import io
import weakref

from fsspec import AbstractFileSystem

from . import core
from .core import cur, SimCrash


class ObjError(Exception):
    """What a vendor SDK raises."""


FAULTS = {
    "oserror": lambda p: OSError(5, "Input/output error", p),
    "timeout": lambda p: TimeoutError("timed out"),
    "denied": lambda p: PermissionError(13, "Access Denied", p),
    "sdk": lambda p: ObjError("An error occurred (InternalError)"),
    "throttle": lambda p: OSError(16, "SlowDown: please reduce your request rate", p),
}


def _store():
    return cur().sim.objstore


def _op(site, path):
    t = cur()
    sim = t.sim
    sim.check_alive(t)
    if t.no_preempt:
        return t, None
    sim.event(f"{site} {path}")
    sim.yield_point()
    d = sim.fault(site, path)
    if d is None:
        return t, None
    k = d["kind"]
    if k == "crash" and d.get("when", "before") == "before":
        t.proc.kill(f"at {site}")
        raise SimCrash()
    if k in FAULTS and not d.get("ambig"):
        raise FAULTS[k](path)
    return t, d


def _after(t, d, path):
    if d is None:
        return
    if d["kind"] == "crash":
        t.proc.kill("after op")
        raise SimCrash()
    if d.get("ambig"):
        raise FAULTS[d["kind"]](path)


class _Writer(io.BytesIO):
    """Like AbstractBufferedFile, closing uploads, even when leaving a block by exception."""

    def __init__(self, fs, path):
        super().__init__()
        self.fs, self.path = fs, path
        self.proc = cur().proc
        cur().sim.objopen.append(weakref.ref(self))

    def close(self):
        if self.closed:
            return
        data = self.getvalue()
        super().close()
        t = cur()
        if t is None or (self.proc is not None and self.proc.dead):
            return
        t, d = _op("obj_put", self.path)
        _store()[self.path] = data
        self.fs.wrote(self.path)
        _after(t, d, self.path)

    def __del__(self):
        pass


class SimObjFS(AbstractFileSystem):
    protocol = "simobj"
    root_marker = ""

    def __init__(self, cache=False, detail_default=True, inv="parents", **kw):
        super().__init__(**kw)
        self.cache = cache
        self.inv = inv      # invalidate_cache(path) also forgets the parents (s3fs, gcsfs), or not (adlfs)
        self.listings = {}
        self.detail_default = detail_default

    def invalidate_cache(self, path=None):
        if path is None:
            self.listings.clear()
        else:
            path = self._strip_protocol(path)
            self.listings.pop(path, None)
            while path and self.inv == "parents":
                self.listings.pop(path, None)
                path = self._parent(path)

    def wrote(self, path):
        """An instance forgets the listings its own changes affect."""
        while path:
            path = self._parent(path)
            self.listings.pop(path, None)

    def mkdir(self, path, create_parents=True, **kw):
        pass

    def makedirs(self, path, exist_ok=False):
        pass

    def ls(self, path, detail=True, refresh=False, **kw):
        path = self._strip_protocol(path)
        if self.cache and not refresh and path in self.listings:
            core.cur().sim.count("probe", "listing_cache_hit")
            out = self.listings[path]
        else:
            t, d = _op("obj_list", path)
            store = _store()
            out = {}
            for k in store:
                if k == path:
                    out[k] = {"name": k, "size": len(store[k]), "type": "file"}
                elif k.startswith(path + "/"):
                    head = k[len(path) + 1:].split("/", 1)
                    n = f"{path}/{head[0]}"
                    if len(head) == 1:
                        out[n] = {"name": n, "size": len(store[k]), "type": "file"}
                    else:
                        out.setdefault(n, {"name": n, "size": 0, "type": "directory"})
            out = [out[k] for k in sorted(out)]
            if self.cache and out:
                self.listings[path] = out
            _after(t, d, path)
        if not out and "/" in path:
            raise FileNotFoundError(path)
        return [dict(o) for o in out] if detail else [o["name"] for o in out]

    def info(self, path, **kw):
        path = self._strip_protocol(path)
        t, d = _op("obj_get", path)
        store = _store()
        if path in store:
            return {"name": path, "size": len(store[path]), "type": "file"}
        if any(k.startswith(path + "/") for k in store):
            return {"name": path, "size": 0, "type": "directory"}
        raise FileNotFoundError(path)

    def _open(self, path, mode="rb", **kw):
        path = self._strip_protocol(path)
        if "w" in mode or "x" in mode:
            return _Writer(self, path)
        t, d = _op("obj_get", path)
        store = _store()
        if path not in store:
            raise FileNotFoundError(path)
        data = store[path]
        if d is not None and d["kind"] == "eof":
            data = data[: int(len(data) * d.get("arg", 0.5))]
        return io.BytesIO(data)

    def cp_file(self, a, b, **kw):
        a, b = self._strip_protocol(a), self._strip_protocol(b)
        t, d = _op("obj_put", b)
        store = _store()
        if a not in store:
            raise FileNotFoundError(a)
        store[b] = store[a]
        self.wrote(b)
        _after(t, d, b)

    def rm_file(self, path):
        path = self._strip_protocol(path)
        t, d = _op("obj_put", path)
        t.sim.mutations.append((core.REQ.get(), "obj_rm", path))
        if _store().pop(path, None) is None:
            raise FileNotFoundError(path)
        self.wrote(path)
        _after(t, d, path)

    _rm = rm_file

    def rm(self, path, recursive=False, maxdepth=None):
        for p in path if isinstance(path, list) else [path]:
            self.rm_file(p)


class SimObjFSNames(SimObjFS):
    """A backend whose ls() lists names unless details are asked for."""

    protocol = "simobjn"

    def ls(self, path, detail=False, **kw):
        return super().ls(path, detail=detail, **kw)


def install():
    import fsspec
    fsspec.register_implementation("simobj", SimObjFS, clobber=True)
    fsspec.register_implementation("simobjn", SimObjFSNames, clobber=True)
