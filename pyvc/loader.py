"""Load /repo's modepy with rewritten bodies, in its own module namespace."""
from __future__ import annotations

import builtins
import hashlib
import importlib.util
import os
import sys
import types

from . import rewrite, runtime

REPO = os.environ.get("VERIF_REPO", "/repo")

DATA = ("xg_quad_data", "vr_quad_data_tri", "vr_quad_data_tet", "witherden_vincent_quad_data",
        "jaskowiec_sukumar_tet_data")


class Modules(dict):
    """module name -> instrumented module, loaded on first use"""

    def __init__(self, world):
        super().__init__()
        self.world = world

    def __missing__(self, name):
        return self.world.load(name)


class World:
    """One instrumented copy of the package."""

    def __init__(self, root=None, package="modepy"):
        self.root = root or REPO
        self.package = package
        self.modules = Modules(self)
        self.np = runtime.NpShim()
        self.math = runtime.MathShim()
        self.la = self.np.linalg
        self.overrides = {}
        self.heapq = runtime.HeapShim()
        self.hashes = {}
        self.pytools = {}
        self.patched = []

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            raise ImportError("relative import")
        if name in self.overrides:
            return self.overrides[name]
        top = name.split(".")[0]
        if top == self.package:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self._exists(f"{name}.{f}"):
                        self.load(f"{name}.{f}")
                return m
            return self.modules[top]
        if name == "numpy":
            return self.np
        if name == "numpy.linalg":
            if fromlist:
                return self.la
            return self.np
        if name == "math":
            return self.math
        if name == "heapq":
            return self.heapq
        if name == "pytools" and fromlist:
            return PytoolsShim(builtins.__import__(name, globals, locals, fromlist, 0), self)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def _path(self, name):
        rel = name.replace(".", "/")
        p = os.path.join(self.root, rel, "__init__.py")
        if os.path.exists(p):
            return p, True
        return os.path.join(self.root, rel + ".py"), False

    def _exists(self, name):
        return os.path.exists(self._path(name)[0])

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            parent = name.rsplit(".", 1)[0]
            self.load(parent)
            if name in self.modules:
                return self.modules[name]
        path, ispkg = self._path(name)
        if not os.path.exists(path):
            raise ModuleNotFoundError(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rsplit(".", 1)[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        self.modules[name] = m
        src = open(path).read()
        self.hashes[name] = hashlib.sha256(src.encode()).hexdigest()[:16]
        bd = dict(builtins.__dict__)
        if name.rsplit(".", 1)[-1] in DATA or name.endswith("version"):
            bd["__import__"] = builtins.__import__
            m.__dict__["__builtins__"] = bd
            code = compile(src, path, "exec", dont_inherit=True)
        else:
            bd.update(runtime.BUILTINS)
            bd["__import__"] = self.imp
            m.__dict__["__builtins__"] = bd
            m.__dict__["__pv__"] = runtime.PV
            code = rewrite.rewrite(src, name, path)
        # dataclasses / pickle look modules up by name
        saved = sys.modules.get(name)
        sys.modules[name] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.modules[name]
            raise
        finally:
            if saved is not None:
                sys.modules[name] = saved
            else:
                sys.modules.pop(name, None)
        if "." in name:
            parent, leaf = name.rsplit(".", 1)
            setattr(self.modules[parent], leaf, m)
        return m

    def patch(self, qualname, replacement):
        """Replace a function by its contract stub in every module that imported it."""
        mod, attr = qualname.rsplit(".", 1)
        orig = getattr(self.modules[mod], attr)
        undo = []
        for m in self.modules.values():
            for k, v in list(m.__dict__.items()):
                if v is orig:
                    undo.append((m, k, v))
                    setattr(m, k, replacement)
        self.patched.extend(undo)
        return orig, undo

    def restore(self):
        """undo all patches (a harness is run again for every path)"""
        for m, k, v in reversed(self.patched):
            setattr(m, k, v)
        self.patched.clear()

    @staticmethod
    def unpatch(undo):
        for m, k, v in undo:
            setattr(m, k, v)


class PytoolsShim:
    def __init__(self, mod, world=None):
        self._m = mod
        self._w = world

    def __getattr__(self, name):
        if self._w is not None and name in self._w.pytools:
            return self._w.pytools[name]
        if name == "product":
            return runtime.b_prod_like
        if name == "single_valued":
            return _single_valued
        return getattr(self._m, name)


def _single_valued(it, equality_pred=None):
    s = runtime._to_seq(it)
    if s is not None:
        raise runtime.Unsupported("single_valued over a symbolic sequence")
    it = iter(it)
    first = next(it)
    for x in it:
        if not (x == first):
            raise ValueError("non-single-valued")
    return first
