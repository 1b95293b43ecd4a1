"""Imports the library under test from the working tree, afresh for every simulated process.

Each run starts with newly executed modules (from code compiled once), as a new process would: nothing a run leaves
behind in module globals, caches or locks can reach the next run.  The modules' imports of numpy, threading and time are
answered with the simulator's versions of them.
"""
import builtins
import importlib.util
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
_codes = {}
_root = None


def _scan(root):
    out = {}
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in sorted(dirs) if x != "__pycache__"]
        rel = os.path.relpath(d, root)
        pk = () if rel == "." else tuple(rel.split(os.sep))
        for f in sorted(files):
            if f.endswith(".py"):
                path = os.path.join(d, f)
                name = pk if f == "__init__.py" else pk + (f[:-3],)
                out[name] = [path, f == "__init__.py", None]
    return out


class _Finder:
    """Finds modules of the package and of its copies (one per simulated MPI process)."""

    @staticmethod
    def find_spec(fullname, path=None, target=None):
        p = fullname.split(".")
        if p[0] not in _copies:
            return None
        e = _codes.get(tuple(p[1:]))
        if e is None:
            return None
        spec = importlib.util.spec_from_loader(fullname, _Loader(e), origin=e[0], is_package=e[1])
        spec.has_location = True
        if e[1]:
            spec.submodule_search_locations = [os.path.dirname(e[0])]
        return spec


_copies = {"stochopy"}


class _Loader:
    def __init__(self, e):
        self.e = e

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        path, _, code = self.e
        if code is None:
            with open(path, "rb") as f:
                code = self.e[2] = compile(f.read(), path, "exec", dont_inherit=True)
        module.__file__ = path
        module.__builtins__ = _builtins
        exec(code, module.__dict__)

    def get_source(self, name):
        with open(self.e[0]) as f:
            return f.read()


_builtins = dict(vars(builtins))
_seen = {}


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    m = builtins.__import__(name, globals, locals, fromlist, level)
    return _seen.get(id(m), m)


_builtins["__import__"] = _import


def load_main():
    import joblib  # noqa: F401  (imported with the normal bytecode cache)
    import joblib.parallel  # noqa: F401
    import numpy  # noqa: F401

    from . import core, seams

    global _root
    _root = os.path.join(os.path.realpath(REPO), "stochopy")
    if not os.path.isdir(_root):
        raise RuntimeError("no package at %s" % _root)
    sys.dont_write_bytecode = True
    core.REPO_PREFIX = _root + os.sep
    _codes.clear()
    _codes.update(_scan(_root))
    for real, sim in seams.modules():
        _seen[id(real)] = sim
    if _Finder not in sys.meta_path:
        sys.meta_path.insert(0, _Finder)
    return fresh(0)


def _drop(name):
    for n in [n for n in sys.modules if n == name or n.startswith(name + ".")]:
        del sys.modules[n]


def fresh(r):
    """The package as a process that just started has it (r: its MPI rank)."""
    name = "stochopy" if r == 0 else "stochopy_r%d" % r
    _copies.add(name)
    _drop(name)
    return importlib.import_module(name)


def functions(mod, method):
    """(generic entry, direct entry) of a method in a module instance."""
    if method in ("mcmc", "hmc"):
        sub = mod.sample
        return sub.sample, getattr(sub, method)
    sub = mod.optimize
    return sub.minimize, getattr(sub, method)
