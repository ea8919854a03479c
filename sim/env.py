"""One-time installation of the simulator in a worker process."""
from __future__ import annotations

import gc
import logging
import os
import shutil
import sys
import tempfile
import threading

_done = False
BASE = None


def install(gateway=False):
    global _done, BASE
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    logging.disable(logging.CRITICAL)
    os.environ.pop("RECAP_SECRETS", None)
    for k in list(os.environ):
        if k.startswith("RECAP_") and k not in ("RECAP_REPO", "RECAP_SIM_BASE"):
            del os.environ[k]
    shm = "/dev/shm"
    base = shm if os.path.isdir(shm) and os.access(shm, os.W_OK) else None
    BASE = os.environ.get("RECAP_SIM_BASE") or tempfile.mkdtemp(prefix="recap-sim-", dir=base)
    os.chdir(BASE)
    # everything third-party is imported before the seams go in
    import dotenv, fastapi, starlette, anyio, anyio.to_thread, fsspec, pydantic, pydantic_settings  # noqa
    import anyio._backends._asyncio  # noqa
    import asyncio, concurrent.futures, concurrent.futures.thread, uuid, secrets, zoneinfo  # noqa
    import fsspec.implementations.local, fsspec.implementations.memory, fsspec.asyn  # noqa
    import fastapi.openapi.utils, httpx, json, shutil as _s, pathlib, urllib.parse  # noqa
    import encodings.idna, encodings.latin_1, encodings.utf_8, encodings.ascii, encodings.unicode_escape  # noqa
    import importlib
    for n in ("typer", "typer.main", "typer.rich_utils", "click", "rich", "rich.console", "rich.json", "rich.markup", "rich.traceback",
              "rich.progress", "rich.table", "rich.pretty", "rich.emoji", "rich._emoji_codes", "rich.jupyter", "rich.highlighter", "uvicorn"):
        importlib.import_module(n)
    if gateway:
        from . import upstream
        upstream.preload()
    from . import core, loader, seams, asgi, objfs
    objfs.install()
    core.FS_CLASSES[:] = [fsspec.implementations.local.LocalFileSystem,
                          fsspec.implementations.memory.MemoryFileSystem,
                          objfs.SimObjFS, objfs.SimObjFSNames]
    loader.install()
    seams.install()
    asgi.install()
    asgi.install_serve()
    if gateway:
        upstream.install()
    import warnings
    warnings.simplefilter("ignore")
    gc.disable()


def cleanup():
    if BASE and os.path.isdir(BASE):
        os.chdir("/")
        shutil.rmtree(BASE, ignore_errors=True)


_n = 0


def fresh_scratch():
    """Empty per-run scratch directory; always the same path within a process tree."""
    global _n
    d = os.path.join(BASE, "run")
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.mkdir(d)
    return d


def end_run():
    global _n
    from . import seams
    for i in [i for i in threading._active if i >= 1000 and isinstance(threading._active[i], threading._DummyThread)]:
        if i < 10_000_000:
            threading._active.pop(i, None)
    for fd in list(seams.FDS):
        try:
            seams.REAL["os.close"](fd)
        except OSError:
            pass
    seams.FDS.clear()
    seams.FDREQ.clear()
    _n += 1
    if _n % 50 == 0:
        gc.collect()
