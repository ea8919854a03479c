"""Simulated HTTP server process: the real recap.server.app on a simulated event loop.

Stubbed: uvicorn and the network.  Real: FastAPI/Starlette/recap.  Each server
process has one event-loop task and up to 40 worker-thread tasks (anyio's
default limit), reused last-in-first-out as anyio does.
"""
from __future__ import annotations

import asyncio
import asyncio.base_events
import contextlib
import contextvars
import json
import sys
import zlib
from urllib.parse import quote, unquote

from . import core
from .core import cur, REQ, SimAbort, SimCrash, SimProcess

WORKERS = 40       # anyio's default limit, see C10
EXECUTOR = 32      # asyncio's default executor on a machine with many cores


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        loop = self.loop
        sim, proc = loop.sim, loop.proc
        t = cur()
        sim.check_alive(t)
        if timeout is not None and timeout <= 0:
            sim.yield_point()
            return []
        loop._woken = False
        if loop._ready:
            return []
        loop._waiting = t
        try:
            sim.block("loop", timeout)
        finally:
            loop._waiting = None
        return []

    def close(self):
        pass

    def get_map(self):
        return {}


class SimLoop(asyncio.base_events.BaseEventLoop):
    def __init__(self, sim, proc):
        super().__init__()
        self.sim = sim
        self.proc = proc
        self._selector = _Selector(self)
        self._clock_resolution = 1e-9
        self._waiting = None
        self.idle_workers = []
        self.n_workers = 0
        self.busy = 0
        self.queue = []
        self.set_exception_handler(lambda loop, ctx: None)

    def time(self):
        return self.sim.now

    def _process_events(self, ev):
        pass

    def _write_to_self(self):
        if self._waiting is not None:
            self.sim.wake(self._waiting)

    def _timer_handle_cancelled(self, h):
        super()._timer_handle_cancelled(h)

    def run_in_executor(self, executor, func, *args):
        if executor is not None:
            return asyncio.wrap_future(executor.submit(func, *args), loop=self)
        fut = self.create_future()
        self.submit(fut, lambda: func(*args), contextvars.copy_context(), EXECUTOR)
        return fut

    async def shutdown_default_executor(self, timeout=None):
        return None

    # worker threads; `limit` bounds the default executor, anyio's limiters bound the others
    def submit(self, fut, fn, ctx, limit=None):
        if limit is not None:
            if self.busy >= limit:
                self.queue.append((fut, fn, ctx))
                self.sim.count("probe", "workers_exhausted")
                return
            self.busy += 1
        self._start(self._worker(), fut, fn, ctx, limit)

    def _worker(self):
        if self.idle_workers:
            return self.idle_workers.pop()
        self.n_workers += 1
        return self.n_workers

    def _start(self, wid, fut, fn, ctx, limit):
        sim, proc = self.sim, self.proc
        req = ctx.get(REQ)

        def body():
            try:
                r, e = ctx.run(fn), None
            except (SimCrash, SimAbort):
                raise
            except BaseException as ex:  # noqa
                r, e = None, ex

            def done():
                if not fut.cancelled():
                    if e is not None:
                        fut.set_exception(e if not isinstance(e, StopIteration) else RuntimeError(repr(e)))
                    else:
                        fut.set_result(r)

            sim.yield_point()
            self.call_soon_threadsafe(done)
            if limit is not None and self.queue:
                self._start(wid, *self.queue.pop(0), limit)
            else:
                if limit is not None:
                    self.busy -= 1
                self.idle_workers.append(wid)

        sim.spawn(f"{proc.label}.w:{req}", body, proc=proc, ident=proc.pid * 100 + 10 + wid)


def install():
    import anyio.to_thread
    real = anyio.to_thread.run_sync

    async def run_sync(func, *args, cancellable=False, limiter=None, abandon_on_cancel=None):
        loop = asyncio.get_running_loop()
        if not isinstance(loop, SimLoop):
            return await real(func, *args, cancellable=cancellable, limiter=limiter)
        limiter = limiter or anyio.to_thread.current_default_thread_limiter()
        if limiter.available_tokens < 1:
            loop.sim.count("probe", "workers_exhausted")
        async with limiter:
            fut = loop.create_future()
            loop.submit(fut, lambda: func(*args), contextvars.copy_context())
            # as in anyio: a cancelled caller waits for its thread
            cancelled = None
            while not fut.done():
                try:
                    await asyncio.shield(fut)
                except asyncio.CancelledError as e:
                    if fut.cancelled():
                        raise
                    cancelled = e
                except BaseException:
                    break
            if cancelled is not None:
                raise cancelled
            return fut.result()

    anyio.to_thread.run_sync = run_sync


class Conn:
    """One HTTP exchange, seen from both ends."""

    def __init__(self, sim, proc, opid):
        self.sim, self.proc, self.opid = sim, proc, opid
        self.inbox = []          # asgi messages for the app
        self.in_event = None     # asyncio.Event, created in the loop
        self.client_gone = False
        self.status = None
        self.headers = []
        self.body = b""
        self.complete = False
        self.reset = False
        self.app_done = False
        self.app_done_seq = None
        self.app_exc = None
        self.waiter = None
        self.sent_all = False

    def wake(self):
        if self.waiter is not None:
            self.sim.wake(self.waiter)


# What `recap serve` hands to uvicorn, which is not run: the simulator delivers the requests.
def install_serve():
    import uvicorn

    def run(app, **kw):
        t = cur()
        if t is None or t.proc is None:
            raise RuntimeError("uvicorn.run outside of the simulator")
        host(t.proc, app, kw)

    def server_run(self, sockets=None):
        c = self.config
        run(c.app, workers=c.workers, limit_concurrency=c.limit_concurrency, lifespan=c.lifespan, factory=c.factory)

    async def server_serve(self, sockets=None):
        server_run(self)

    uvicorn.run = run
    uvicorn.Server.run = server_run
    uvicorn.Server.serve = server_serve


def number(x):
    return x if isinstance(x, int) and not isinstance(x, bool) else 0


def host(proc, app, kw):
    """uvicorn's part of a server process: import the application, then serve it."""
    import importlib
    sim = proc.sim
    n = number(kw.get("workers"))
    if n > 1 and proc.incarnation != WORKER:
        # the process only supervises; each worker is a process of its own
        for i in range(min(n, 8)):
            w = SimProcess(sim, f"{proc.slot}.{proc.incarnation}w{i}", WORKER)
            w.on_kill.append(lambda w=w: _reset_conns(w))
            w.boot_waiters = []
            w.main = sim.spawn(f"{w.label}.loop", lambda w=w: host(w, app, {**kw, "workers": 1}), proc=w, ident=w.pid * 100)
            proc.workers.append(w)
        proc.on_kill.append(lambda: [w.kill("parent") for w in proc.workers])
        while not all(w.ready or w.dead for w in proc.workers):
            sim.sleep(0.01)
        started(proc)
        sim.block("supervisor")
        return
    t = cur()
    t.no_preempt += 1
    try:
        if isinstance(app, str):
            name, _, attr = app.partition(":")
            app = importlib.import_module(name)
            for a in attr.split("."):
                app = getattr(app, a)
        if kw.get("factory"):
            app = app()
    finally:
        t.no_preempt -= 1
    proc.app = app
    proc.limit = number(kw.get("limit_concurrency"))
    loop = SimLoop(sim, proc)
    proc.loop = loop
    if kw.get("lifespan") != "off":
        lifespan(loop, app)
    started(proc)
    try:
        loop.run_forever()
    finally:
        asyncio._set_running_loop(None)
        sys.set_asyncgen_hooks(None, None)


def started(proc):
    proc.ready = True
    proc.sim.event(f"BOOT {proc.label}")
    for w in proc.boot_waiters:
        proc.sim.wake(w)


WORKER = "w"


def boot(sim, slot, incarnation):
    """Start a server process with `recap serve`; returns the SimProcess (ready once its app is imported)."""
    proc = SimProcess(sim, slot, incarnation)
    proc.workers = []

    def main():
        t = cur()
        t.no_preempt += 1
        try:
            from recap.cli import app as cli
        finally:
            t.no_preempt -= 1
        try:
            cli(args=["serve"], prog_name="recap")
        except SystemExit:
            pass
        if not proc.ready:
            # serves by other means than uvicorn
            host(proc, "recap.server.app:app", {})

    proc.boot_waiters = []
    proc.on_kill.append(lambda: _reset_conns(proc))
    proc.main = sim.spawn(f"{proc.label}.loop", main, proc=proc, ident=proc.pid * 100)
    return proc


def lifespan(loop, app):
    """Run the application's startup as an ASGI server does; it stays in its lifespan afterwards."""
    inbox = [{"type": "lifespan.startup"}]
    started = loop.create_future()

    async def receive():
        if inbox:
            return inbox.pop(0)
        await loop.create_future()      # the process is killed, never shut down

    async def send(msg):
        if msg["type"].startswith("lifespan.startup") and not started.done():
            started.set_result(msg)

    async def run():
        try:
            await app({"type": "lifespan", "asgi": {"version": "3.0", "spec_version": "2.0"}, "state": {}}, receive, send)
        except Exception:
            pass
        if not started.done():
            started.set_result(None)

    async def main():
        loop.lifespan = loop.create_task(run())
        await started

    loop.run_until_complete(main())


def _reset_conns(proc):
    for c in proc.conns:
        if not c.complete:
            c.reset = True
            c.wake()
    for w in proc.boot_waiters:
        proc.sim.wake(w)


def usual(opid):
    """Headers that HTTP clients send by themselves."""
    h = zlib.crc32(str(opid).encode())
    out = [("user-agent", ("curl/8.5.0", "python-httpx/0.27.0", "Mozilla/5.0")[h % 3])]
    a = (None, "*/*", "*/*", "application/json", "application/json, text/plain, */*")[h // 3 % 5]
    if a:
        out.append(("accept", a))
    if h // 15 % 2:
        out.append(("accept-encoding", "gzip, deflate, br"))
        out.append(("connection", "keep-alive"))
    return out


def unpacked(c):
    """The body as a client sees it that asked for a compressed one."""
    for k, v in c.headers:
        if k.lower() == b"content-encoding" and v.lower() in (b"gzip", b"deflate"):
            with contextlib.suppress(zlib.error):
                return zlib.decompress(c.body, 47)
    return c.body


def request(proc, opid, method, path, headers=(), raw_path=None, query=b"", length=None):
    """Open a connection and send the request head.  None = connection refused."""
    sim = proc.sim
    if proc.dead or not proc.ready:
        return None
    if proc.workers:
        live = [w for w in proc.workers if w.ready and not w.dead]
        if not live:
            return None
        proc = live[zlib.crc32(str(opid).encode()) % len(live)]
    c = Conn(sim, proc, opid)
    proc.conns.append(c)
    headers = usual(opid) + list(headers)
    if length is not None:
        headers.append(("content-length", str(length)) if zlib.crc32(str(opid).encode()) % 7 < 4 else ("transfer-encoding", "chunked"))
    raw = raw_path if raw_path is not None else quote(path).encode()
    scope = {
        "type": "http", "asgi": {"version": "3.0", "spec_version": "2.3"},
        "http_version": "1.1", "method": method, "scheme": "http",
        "path": unquote(raw.decode("ascii")), "raw_path": raw, "query_string": query,
        "root_path": "",
        "headers": [(b"host", b"sim")] + [(k.lower().encode(), v.encode("latin-1")) for k, v in headers],
        "client": ("10.0.0.1", 5555), "server": ("10.0.0.2", 8000), "state": {},
    }

    async def receive():
        while True:
            if c.inbox:
                return c.inbox.pop(0)
            if c.client_gone:
                return {"type": "http.disconnect"}
            c.in_event.clear()
            await c.in_event.wait()

    async def send(msg):
        if c.client_gone or c.reset:
            return
        if msg["type"] == "http.response.start":
            c.status = msg["status"]
            c.headers = msg.get("headers", [])
        elif msg["type"] == "http.response.body":
            c.body += msg.get("body", b"")
            if not msg.get("more_body"):
                c.body = unpacked(c)
                c.complete = True
                sim.yield_point()
                c.wake()

    async def serve():
        REQ.set(opid)
        c.in_event = asyncio.Event()
        try:
            await proc.app(scope, receive, send)
        except Exception as e:
            c.app_exc = e
            if not c.complete:
                if c.status is None:
                    c.status = 500
                    c.body = b"Internal Server Error"
                else:
                    c.reset = True
                c.complete = True
        finally:
            c.app_done = True
            c.app_done_seq = sim.seq
            c.wake()

    def start():
        if proc.limit and sum(not x.app_done for x in proc.conns) > proc.limit:
            c.status, c.body = 503, b"Service Unavailable"
            c.headers = [(b"content-type", b"text/plain; charset=utf-8")]
            c.complete = c.app_done = True
            c.app_done_seq = sim.seq
            c.wake()
            return
        proc.loop.create_task(serve())

    proc.loop.call_soon_threadsafe(start)
    return c


def push(c, data, more):
    """Client sends one body chunk."""
    if c.reset or c.proc.dead:
        return
    c.inbox.append({"type": "http.request", "body": data, "more_body": more})
    if not more:
        c.sent_all = True
    if c.in_event is not None:
        c.proc.loop.call_soon_threadsafe(c.in_event.set)


def hangup(c):
    c.client_gone = True
    if c.in_event is not None and not c.proc.dead:
        c.proc.loop.call_soon_threadsafe(c.in_event.set)


def wait(c, timeout=None, until=None):
    """Wait for the response (or `until`); 'ok' | 'reset' | 'timeout'."""
    sim = c.sim
    end = None if timeout is None else sim.now + timeout
    cond = until or (lambda: c.complete)
    t = cur()
    while not cond():
        if c.reset:
            return "reset"
        c.waiter = t
        sim.block(f"http {c.opid}", None if end is None else end - sim.now)
        c.waiter = None
        if end is not None and sim.now >= end and not cond():
            return "timeout"
    return "ok"
