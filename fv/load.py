"""Load /repo's falwa package twice: once for symbolic execution, once for concrete replay."""
import contextlib
import importlib
import os
import shutil
import sys
import tempfile
import types

import numpy as np

from . import f2py, symnp, sym

REPO = os.environ.get("FV_REPO", "/repo")
SRC = os.path.join(REPO, "src", "falwa")
MODULES = ["constant", "basis", "utilities", "stat_utils", "data_storage", "wrapper", "barotropic_field", "oopinterface", "xarrayinterface"]

_WORK = None


def workdir():
    global _WORK
    if _WORK is None:
        _WORK = tempfile.mkdtemp(prefix="fv_", dir=os.environ.get("FV_TMP", "/tmp"))
        import atexit
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_WORK, ignore_errors=True))
    return _WORK


def kernel_exports():
    """(python module, function) pairs that falwa/__init__.py imports from extension modules"""
    import ast
    tree = ast.parse(open(os.path.join(SRC, "__init__.py")).read())
    r = []
    for n in tree.body:
        if isinstance(n, ast.ImportFrom) and n.level == 1 and n.module:
            if not os.path.exists(os.path.join(SRC, n.module + ".py")):
                for a in n.names:
                    r.append((n.module, a.name))
    return r


class Pkg:
    """one private copy of the falwa package"""

    def __init__(self, backend):
        self.backend = backend
        self.session = f2py.Session()
        self.kernels = f2py.Kernels(SRC, workdir())
        self.mods = {}
        self.load()

    def load(self):
        saved = {k: v for k, v in sys.modules.items() if k == "falwa" or k.startswith("falwa.")}
        for k in saved:
            del sys.modules[k]
        if os.path.dirname(SRC) not in sys.path:
            sys.path.insert(0, os.path.dirname(SRC))
        wb = sys.dont_write_bytecode
        sys.dont_write_bytecode = True
        finder = None
        if self.backend == "sym":
            from . import merge
            finder = merge.Finder()
            sys.meta_path.insert(0, finder)
        try:
            for mod, name in kernel_exports():
                m = types.ModuleType("falwa." + mod)
                k = f2py.Kernel(self.kernels, mod, name, self.backend, self.session)
                setattr(m, name, k)
                m.__file__ = mod
                sys.modules["falwa." + mod] = m
            importlib.import_module("falwa")
            for n in MODULES:
                importlib.import_module("falwa." + n)
            self.mods = {k: v for k, v in sys.modules.items() if k == "falwa" or k.startswith("falwa.")}
        finally:
            if finder is not None:
                sys.meta_path.remove(finder)
            for k in [k for k in sys.modules if k == "falwa" or k.startswith("falwa.")]:
                del sys.modules[k]
            sys.modules.update(saved)
            sys.dont_write_bytecode = wb
        if self.backend == "sym":
            from . import stubs
            proxy = symnp.make_proxy()
            for k, m in self.mods.items():
                for n, v in list(m.__dict__.items()):
                    if v is np:
                        m.__dict__[n] = proxy
                    elif getattr(v, "__module__", "") is not None and callable(v) and id(v) in stubs.by_id():
                        m.__dict__[n] = stubs.by_id()[id(v)]
                    elif v in _MATH_FUNCS if _hashable(v) else False:
                        m.__dict__[n] = stubs.math_function(v)
                    elif isinstance(v, types.ModuleType) and v.__name__ == "math":
                        m.__dict__[n] = stubs.MathProxy()
                    elif isinstance(v, types.ModuleType) and v.__name__.split(".")[0] == "scipy":
                        m.__dict__[n] = stubs.ScipyProxy(v)
        for k, m in self.mods.items():
            if "print" not in m.__dict__ and k != "falwa":
                m.__dict__["print"] = lambda *a, **kw: None

    def __getattr__(self, n):
        m = self.__dict__.get("mods", {}).get("falwa." + n)
        if m is None:
            raise AttributeError(n)
        return m

    @contextlib.contextmanager
    def active(self):
        saved = {k: v for k, v in sys.modules.items() if k == "falwa" or k.startswith("falwa.")}
        for k in saved:
            del sys.modules[k]
        sys.modules.update(self.mods)
        try:
            yield self
        finally:
            for k in [k for k in sys.modules if k == "falwa" or k.startswith("falwa.")]:
                del sys.modules[k]
            sys.modules.update(saved)


def _hashable(v):
    try:
        hash(v)
        return True
    except Exception:
        return False


import math
_MATH_FUNCS = {getattr(math, n) for n in ("exp", "log", "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "radians", "degrees", "fabs", "pow")}
