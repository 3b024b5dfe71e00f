"""Declaring checks: verification-condition harnesses and concrete contract batteries."""
from __future__ import annotations

import inspect
import json
import math
import os
import random
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class Check:
    def __init__(self, pid, title="", level="proof", trusted=(), assumptions=(), bounded=()):
        self.pid = pid
        self.title = title
        self.level = level
        self.vcs = []
        self.batteries = []
        self.trusted = list(trusted)
        self.assumptions = list(assumptions)
        self.bounded = list(bounded)

    def vc(self, name, functions=(), timeout=120, max_paths=400, uses=()):
        """Register a harness fn(v, W): W is the instrumented package."""
        def deco(fn):
            self.vcs.append(dict(name=name, fn=fn, functions=list(functions),
                                 timeout=timeout, max_paths=max_paths, uses=list(uses)))
            return fn
        return deco

    def battery(self, name, functions=(), timeout=400, thorough=False):
        def deco(fn):
            self.batteries.append(dict(name=name, fn=fn, functions=list(functions),
                                       timeout=timeout, thorough=thorough))
            return fn
        return deco


def _js(x):
    if isinstance(x, np.ndarray):
        if x.size > 60:
            return {"shape": list(x.shape), "head": [_js(y) for y in x.ravel()[:20]]}
        return _js(x.tolist())
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, (list, tuple)):
        return [_js(y) for y in x]
    if isinstance(x, dict):
        return {str(k): _js(v) for k, v in x.items()}
    if x is None or isinstance(x, (int, float, str, bool)):
        return x
    return repr(x)[:300]


class Battery:
    """Evaluates postconditions on the real code; collects failures."""

    def __init__(self, name, seed=SEED, max_fail=20):
        self.name = name
        self.rng = random.Random(seed)
        self.nprng = np.random.RandomState(seed)
        self.evals = 0
        self.distinct = set()
        self.failures = []
        self.nfail = 0
        self.max_fail = max_fail
        self.samples = []
        self.thorough = THOROUGH

    def _count(self, what, inputs):
        self.evals += 1
        k = f"{what}|{sorted(inputs.items(), key=lambda t: t[0])!r}"
        if len(k) > 400:
            k = str(hash(k))
        if k not in self.distinct:
            self.distinct.add(k)
            if len(self.samples) < 3:
                self.samples.append({"contract": what, "inputs": _js(inputs)})

    def fail(self, what, inputs, **info):
        self.nfail += 1
        if len(self.failures) < self.max_fail:
            self.failures.append({"battery": self.name, "contract": what,
                                  "inputs": _js(inputs),
                                  "key": key_of(what, inputs),
                                  **{k: _js(v) for k, v in info.items()}})

    def ok(self, what, cond, info=None, **inputs):
        self._count(what, inputs)
        if not bool(cond):
            self.fail(what, inputs, info=info)
            return False
        return True

    def close(self, what, got, want, rtol=1e-9, atol=1e-11, **inputs):
        self._count(what, inputs)
        try:
            g = np.asarray(got, dtype=complex if np.iscomplexobj(got) else float)
            w = np.asarray(want, dtype=complex if np.iscomplexobj(want) else float)
        except Exception as e:
            self.fail(what, inputs, got=repr(got)[:200], want=repr(want)[:200], error=str(e))
            return False
        if g.shape != w.shape:
            self.fail(what, inputs, got=f"shape {g.shape}", want=f"shape {w.shape}")
            return False
        if g.size == 0:
            return True
        d = np.abs(g - w)
        lim = atol + rtol * np.abs(w)
        bad = ~(d <= lim)
        if bad.any():
            i = tuple(int(j[0]) for j in np.nonzero(bad)) if g.ndim else ()
            self.fail(what, inputs, got=g[i], want=w[i], index=list(i),
                      maxerr=float(np.nanmax(np.where(np.isfinite(d), d, 1e300))))
            return False
        return True

    def equal(self, what, got, want, **inputs):
        self._count(what, inputs)
        try:
            r = got == want
            if isinstance(r, np.ndarray):
                r = r.all()
            r = bool(r)
        except Exception as e:
            r = False
        if not r:
            self.fail(what, inputs, got=got, want=want)
            return False
        return True

    def raises(self, what, exc, fn, **inputs):
        self._count(what, inputs)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = fn()
        except exc:
            return True
        except Exception as e:      # noqa: BLE001
            self.fail(what, inputs, got=f"{type(e).__name__}: {e}"[:300],
                      want=f"raises {exc}")
            return False
        self.fail(what, inputs, got=repr(r)[:200], want=f"raises {exc}")
        return False

    def private(self, mod, name, *args):
        """mod.name(*args), or None where the module has no such (private) name or it
        does not take these arguments: private names are not part of any property"""
        fn = getattr(mod, name, None)
        if fn is None:
            return None
        try:
            inspect.signature(fn).bind(*args)
        except TypeError:
            return None
        ok, r = self.call(name, lambda: fn(*args), args=args)
        return r if ok else None

    def call(self, what, fn, **inputs):
        """fn() must not raise; -> (ok, value)"""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return True, fn()
        except Exception as e:      # noqa: BLE001
            self._count(what, inputs)
            tb = traceback.extract_tb(e.__traceback__)
            self.fail(what, inputs, got=f"{type(e).__name__}: {e}"[:300],
                      where=" <- ".join(f"{f.name}:{f.lineno}" for f in reversed(tb[-5:])))
            return False, None


def key_of(what, inputs):
    return what + " " + json.dumps(_js(inputs), sort_keys=True)
