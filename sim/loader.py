"""Fresh recap module instances per simulated process, from /repo's sources."""
from __future__ import annotations

import importlib.abc
import importlib.util
import os
import sys
import types

from . import core

REPO = os.environ.get("RECAP_REPO", "/repo")
PKG = os.path.join(REPO, "recap")
TOOL = 3  # sys.monitoring tool id

_code: dict[str, types.CodeType] = {}
_paths: dict[str, tuple[str, bool]] = {}


def scan():
    for d, dirs, files in os.walk(PKG):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        rel = os.path.relpath(d, REPO).replace(os.sep, ".")
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            if f == "__init__.py":
                _paths[rel] = (os.path.join(d, f), True)
            else:
                _paths[f"{rel}.{f[:-3]}"] = (os.path.join(d, f), False)
        if rel not in _paths:  # namespace package (directory without __init__)
            _paths[rel] = (d, None)
    core.RECAP_NAMES.update(_paths)


def all_code(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from all_code(c)


_lines = {"on": False}


def _set(code, ev):
    for x in all_code(code):
        sys.monitoring.set_local_events(TOOL, x, ev)


def lines(on):
    """Switch preemption at source lines of recap on or off (between runs)."""
    if on != _lines["on"]:
        _lines["on"] = on
        for c in _code.values():
            _set(c, sys.monitoring.events.LINE if on else 0)


def get_code(name):
    path, _ = _paths[name]
    c = _code.get(path)
    if c is None:
        with open(path, "rb") as f:
            src = f.read()
        c = compile(src, path, "exec", dont_inherit=True)
        _code[path] = c
        if _lines["on"]:
            _set(c, sys.monitoring.events.LINE)
    return c


class Loader(importlib.abc.Loader):
    def __init__(self, name):
        self.name = name

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = get_code(self.name)
        t = core.cur()
        if t is None:
            exec(code, module.__dict__)
            return
        t.no_preempt += 1
        try:
            exec(code, module.__dict__)
        finally:
            t.no_preempt -= 1


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        ent = _paths.get(fullname)
        if ent is None:
            return None
        p, is_pkg = ent
        if is_pkg is None:
            spec = importlib.util.spec_from_loader(fullname, None, is_package=True)
            spec.submodule_search_locations = [p]
            return spec
        spec = importlib.util.spec_from_file_location(
            fullname, p, loader=Loader(fullname),
            submodule_search_locations=[os.path.dirname(p)] if is_pkg else None)
        spec.cached = None
        return spec


def _on_line(code, line):
    t = core.cur()
    if t is None or t.no_preempt:
        return None
    sim = t.sim
    if not sim.line_preempt or sim.aborting:
        return None
    sim.yield_point(0.00001, sim.p_line)
    return None


def install():
    scan()
    sys.dont_write_bytecode = True
    sys.monitoring.use_tool_id(TOOL, "recap-sim")
    sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, _on_line)
    sys.meta_path.insert(0, Finder())
    for k in [k for k in sys.modules if k == "recap" or k.startswith("recap.")]:
        raise core.HarnessError(f"{k} imported before the simulator")
