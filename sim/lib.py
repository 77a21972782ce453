"""Fresh copies of the library under test.

The library is compiled from REPO's working tree in memory (no .pyc is read or
written).  fresh() executes it again from nothing, so each simulated run starts
with a process that has never called it.  Two code caches are kept: the
"plain" one, and the "instr" one whose code objects carry the INSTRUCTION
events the scheduler uses.
"""
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "general_robotics_toolbox"
SRC = os.path.join(REPO, "src")

_code_cache = {}
_on_code = []          # callbacks(code) run once per instrumented code object


def _walk(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            for x in _walk(c):
                yield x


def get_code(path, kind):
    with open(path, "rb") as f:
        data = f.read()
    key = (path, kind, data)
    c = _code_cache.get(key)
    if c is None:
        c = compile(data, path, "exec", dont_inherit=True)
        _code_cache[key] = c
        if kind == "instr":
            for cb in _on_code:
                for sub in _walk(c):
                    cb(sub)
    return c


def prime(kind):
    """Read the sources once (before any file seam is installed)."""
    base = os.path.join(SRC, PKG)
    for root, _, files in sorted(os.walk(base)):
        for fn in sorted(files):
            if fn.endswith(".py"):
                p = os.path.join(root, fn)
                try:
                    _pinned[(p, kind)] = get_code(p, kind)
                except SyntaxError:
                    pass


_pinned = {}


importing = [0]


class _Loader(importlib.abc.Loader):
    def __init__(self, path, kind):
        self.path = path
        self.kind = kind

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _pinned.get((self.path, self.kind)) or get_code(self.path, self.kind)
        importing[0] += 1       # no preemption while the real import lock is held
        try:
            exec(code, module.__dict__)
        finally:
            importing[0] -= 1

    def get_filename(self, name=None):
        return self.path

    def get_source(self, name=None):
        with open(self.path, "r") as f:
            return f.read()


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self):
        self.kind = "plain"

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        rel = name.split(".")
        base = os.path.join(SRC, *rel)
        if os.path.isfile(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            spec = importlib.util.spec_from_file_location(
                name, p, loader=_Loader(p, self.kind), submodule_search_locations=[base])
            return spec
        p = base + ".py"
        if os.path.isfile(p):
            return importlib.util.spec_from_file_location(name, p, loader=_Loader(p, self.kind))
        raise ModuleNotFoundError("No module named %r" % name, name=name)


finder = _Finder()


def install():
    if finder not in sys.meta_path:
        sys.meta_path.insert(0, finder)


def _ours():
    return [k for k in sys.modules if k == PKG or k.startswith(PKG + ".")]


class Lib(object):
    """One instance of the library. Attribute access imports submodules."""

    def __init__(self, kind):
        self.kind = kind
        self.mods = {}
        self.rox = self.imp(PKG)

    def imp(self, name):
        """import `name` inside this instance"""
        with Active(self):
            return importlib.import_module(name)

    def sub(self, short):
        full = PKG + "." + short
        if _stack and _stack[-1] is self:
            m = sys.modules.get(full)
        else:
            m = self.mods.get(full)
        if m is None:
            m = self.imp(full)
        return m

    def __getattr__(self, short):
        if short.startswith("_"):
            raise AttributeError(short)
        return self.sub({"rr": "robotraconteur"}.get(short, short))


_stack = []


class Active(object):
    """Make a Lib the one sys.modules shows (imports done while calls run)."""

    def __init__(self, lib):
        self.lib = lib

    def __enter__(self):
        self.noop = bool(_stack) and _stack[-1] is self.lib
        if self.noop:
            return self.lib
        _stack.append(self.lib)
        self.saved = {k: sys.modules.pop(k) for k in _ours()}
        sys.modules.update(self.lib.mods)
        self.kind = finder.kind
        finder.kind = self.lib.kind
        return self.lib

    def __exit__(self, *a):
        if self.noop:
            return
        _stack.pop()
        finder.kind = self.kind
        self.lib.mods = {k: sys.modules.pop(k) for k in _ours()}
        sys.modules.update(self.saved)


def fresh(kind="plain"):
    install()
    return Lib(kind)
