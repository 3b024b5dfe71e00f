"""C25: results depend only on arguments: nothing passed in or shared is modified.

Deductive part: every harness of the other contracts is run again, over the same symbolic
inputs and along all its paths, with frame obligations only: a store into an argument's buffer,
a change of a list, dict or array reachable from the arguments of a public function, a change of
module-level state, and a result whose memory was neither allocated during the call nor passed
in are failed obligations.  A function that satisfies them and reads nothing but its arguments
and the (never written) module-level constants is a function of its arguments.
"""
import copy
import functools
import hashlib
import importlib
import inspect
import os
import sys
import types
import warnings

import numpy as np

from pyvc.core import CUR
from pyvc.sym import SArr
from pyvc.terms import Node
from .base import Check

CHECK = Check(
    "C25", level="other",
    trusted=["a function that writes only to memory allocated during the call and reads only "
             "its arguments and constants is a function of its arguments"],
    assumptions=["functions given as arguments (bases, integrands, maps) do not modify what "
                 "they are given"],
    bounded=["functions outside the reach of the other contracts' harnesses, the tables, and "
             "all histories of calls: concrete executions"])

SRC = [f"c{k:02d}" for k in (*range(1, 25), 26)]


# {{{ what is reachable from a value

ATOMS = (int, float, complex, str, bytes, bool, type(None), Node, types.FunctionType,
         types.BuiltinFunctionType, types.ModuleType, type, np.dtype)


def reach(root, depth=6, limit=4000):
    """-> {id: object} of the arrays, lists, dicts and sets reachable from root"""
    found, seen, work = {}, set(), [(root, depth)]
    while work and len(seen) < limit:
        x, d = work.pop()
        if isinstance(x, ATOMS) or id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, (SArr, np.ndarray)):
            found[id(x)] = x
            if isinstance(x, np.ndarray) and x.dtype == object and d > 0 and x.size < 500:
                work.extend((y, d - 1) for y in x.ravel())
            continue
        if isinstance(x, (list, dict, set)):
            found[id(x)] = x
        if d <= 0:
            continue
        if isinstance(x, dict):
            work.extend((y, d - 1) for y in x.values())
        elif isinstance(x, list):
            work.extend((y, d - 1) for y in list.__iter__(x))
        elif isinstance(x, (tuple, set, frozenset)):
            work.extend((y, d - 1) for y in x)
        elif isinstance(x, functools.partial):
            work.extend((y, d - 1) for y in x.args)
        elif type(x).__module__.startswith(("modepy", "contracts.")):
            work.extend((y, d - 1) for y in getattr(x, "__dict__", {}).values())
            for c in type(x).__mro__:
                if c.__module__.startswith("contracts."):
                    work.extend((y, d - 1) for y in vars(c).values())
            for k in getattr(type(x), "__slots__", ()):
                if hasattr(x, k):
                    work.append((getattr(x, k), d - 1))
    return found


def state(x):
    """enough of the content of one reachable object to notice a change"""
    if isinstance(x, SArr):
        return ("sarr", x.buf.version)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("obj", x.shape, tuple(id(y) for y in x.ravel()))
        return ("arr", x.shape, str(x.dtype), hashlib.sha1(
            np.ascontiguousarray(x).tobytes()).hexdigest())
    if isinstance(x, dict):
        return ("dict", tuple((id(k), id(y)) for k, y in x.items()))
    if isinstance(x, set):
        return ("set", tuple(sorted(id(y) for y in x)))
    return ("list", tuple(id(y) for y in list.__iter__(x)), id(getattr(x, "sym", None)))

# }}}


# {{{ module-level state

def fingerprint(x, depth=4):
    if isinstance(x, np.ndarray) and x.dtype != object:
        return state(x)
    if isinstance(x, (int, float, complex, str, bytes, bool, type(None))):
        return ("v", repr(x))
    if depth <= 0:
        return ("deep",)
    if isinstance(x, dict):
        return ("d", tuple((repr(k)[:80], fingerprint(y, depth - 1)) for k, y in x.items()))
    if isinstance(x, (list, tuple)):
        return ("l", tuple(fingerprint(y, depth - 1) for y in x))
    if isinstance(x, (set, frozenset)):
        return ("s", tuple(sorted(repr(y)[:80] for y in x)))
    if isinstance(x, np.ndarray):
        return ("o", x.shape, tuple(fingerprint(y, depth - 1) for y in x.ravel()))
    if isinstance(x, SArr):
        return ("sarr", x.buf.version)
    if isinstance(x, types.FunctionType):
        return ("f", fingerprint(x.__defaults__, depth - 1),
                fingerprint({k: y for k, y in x.__dict__.items() if k != "__wrapped__"},
                            depth - 1))
    if isinstance(x, type) and x.__module__.startswith("modepy"):
        return ("c", tuple((k, fingerprint(y, depth - 1)) for k, y in sorted(vars(x).items())
                           if not k.startswith("__") and not k.startswith("_abc")))
    if not isinstance(x, (type, types.ModuleType)) and \
            type(x).__module__.startswith("modepy"):
        # memoised attributes of an instance are not part of its value
        return ("i", type(x).__name__, tuple(
            (k, fingerprint(y, depth - 1)) for k, y in sorted(
                getattr(x, "__dict__", {}).items()) if not k.startswith("_")))
    return ("x", type(x).__name__)


def module_state(mods):
    out = {}
    for mn, m in mods.items():
        for k, x in list(m.__dict__.items()):
            if k.startswith("__") or isinstance(x, types.ModuleType):
                continue
            if getattr(x, "__module__", mn) != mn and isinstance(
                    x, (type, types.FunctionType)):
                continue
            out[mn + "." + k] = fingerprint(x)
    return out

# }}}


# {{{ monitoring the public functions of the instrumented package

DEPTH = [0]


def bufs(objs):
    return {x.buf.serial for x in objs.values() if isinstance(x, SArr)}


def monitored(fn, name, tables):
    @functools.wraps(fn)
    def g(*a, **kw):
        v = CUR[0]
        if DEPTH[0] or v is None or not v.frame_only:
            return fn(*a, **kw)
        from pyvc.sym import Buf
        before = reach((a, kw))
        was = {k: state(x) for k, x in before.items()}
        mark = Buf.count
        DEPTH[0] += 1
        try:
            res = fn(*a, **kw)
        finally:
            DEPTH[0] -= 1
        changed = [x for k, x in before.items() if state(x) != was[k]]
        if changed:
            v.fail(f"frame: {name} modifies nothing it is given",
                   f"a {type(changed[0]).__name__} reachable from the arguments is modified")
        else:
            v.ok(f"frame: {name} modifies nothing it is given", "frame")
        given = bufs(before)
        bad = None
        for x in reach(res).values():
            if isinstance(x, SArr):
                if x.buf.serial <= mark and x.buf.serial not in given:
                    bad = "a symbolic array that existed before the call"
            elif isinstance(x, np.ndarray) and x.size and x.flags.writeable:
                for n, t in tables:
                    if np.may_share_memory(x, t) and np.shares_memory(x, t):
                        bad = f"memory of {n}"
        if bad:
            v.fail(f"frame: the result of {name} is its own", bad)
        else:
            v.ok(f"frame: the result of {name} is its own", "frame")
        return res
    g.__signature__ = None
    del g.__signature__
    return g


def tables_of(mods):
    out = []
    for mn, m in mods.items():
        for k, x in list(m.__dict__.items()):
            if isinstance(x, (type, types.FunctionType, types.ModuleType)):
                continue
            for y in reach(x, limit=100000).values():
                if isinstance(y, np.ndarray) and y.size:
                    out.append((f"{mn}.{k}", y))
    return out


def instrument(W):
    tables = tables_of(W.modules)
    for mn, m in list(W.modules.items()):
        if mn.endswith("_data"):
            continue
        for k, x in list(m.__dict__.items()):
            if getattr(x, "__module__", None) != mn:
                continue
            if isinstance(x, types.FunctionType) and not k.startswith("_"):
                W.patch(f"{mn}.{k}", monitored(x, f"{mn}.{k}", tables))
            elif isinstance(x, type):
                for kk, y in list(vars(x).items()):
                    if isinstance(y, types.FunctionType) and (
                            kk == "__call__" or not kk.startswith("_")):
                        try:
                            setattr(x, kk, monitored(y, f"{mn}.{k}.{kk}", tables))
                        except (AttributeError, TypeError):
                            pass

# }}}


# {{{ the frame obligations of every harness

def _frame(fn):
    def h(v, W):
        before = module_state(W.modules)
        if not v.frame_only:
            v.frame_only = True
            v.frame_before = before
            instrument(W)
            W.patched.clear()       # the monitors stay for all paths
            v.frame_before = before = module_state(W.modules)
        first = v.frame_before

        def end(v):
            for b in v.inputs:
                if not b.log:
                    v.ok(f"frame: argument {b.name} is not modified", "frame")
            now = module_state(W.modules)
            bad = [k for k in first if k in now and now[k] != first[k]
                   and now[k][0] != "x" and first[k][0] != "x"]
            if bad:
                # a cache is not a violation; what callers see decides (the battery)
                from pyvc.core import Unsupported
                raise Unsupported(f"module-level state changes: {bad[:3]}")
            v.ok("frame: module-level state is not modified", "frame")
        v.on_path_end = end
        fn(v, W)
    return h


for _m in SRC:
    _c = importlib.import_module(f"contracts.{_m}").CHECK
    for _vc in _c.vcs:
        if "lemma" in _vc["name"]:
            continue
        CHECK.vc(f"{_m.upper()} {_vc['name']}", functions=_vc["functions"],
                 timeout=_vc["timeout"], max_paths=_vc["max_paths"],
                 uses=_vc["uses"])(_frame(_vc["fn"]))

# }}}


# {{{ concrete histories

def leaves(x, path="", depth=8, out=None, seen=None):
    """[(path, array or atom)] of everything an observer sees in a result"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if isinstance(x, (np.ndarray, np.generic)):
        if isinstance(x, np.ndarray) and x.dtype == object:
            out.append((path, ("object array", x.shape)))
            for i, y in enumerate(x.ravel()):
                leaves(y, f"{path}[{i}]", depth - 1, out, seen)
        else:
            out.append((path, x))
        return out
    if isinstance(x, (int, float, complex, str, bool, type(None))):
        out.append((path, x))
        return out
    if depth <= 0 or id(x) in seen:
        return out
    seen.add(id(x))
    try:
        if isinstance(x, dict):
            for k, y in x.items():
                leaves(y, f"{path}[{k!r}]", depth - 1, out, seen)
        elif isinstance(x, (list, tuple)):
            out.append((path, (type(x).__name__, len(x))))
            for i, y in enumerate(x):
                leaves(y, f"{path}[{i}]", depth - 1, out, seen)
        elif isinstance(x, functools.partial):
            leaves(x.args, path + ".args", depth - 1, out, seen)
            leaves(x.keywords, path + ".keywords", depth - 1, out, seen)
        elif isinstance(x, types.FunctionType):
            for i, c in enumerate(x.__closure__ or ()):
                leaves(c.cell_contents, f"{path}.cell{i}", depth - 1, out, seen)
        elif type(x).__module__.startswith("modepy"):
            for k, y in sorted(getattr(x, "__dict__", {}).items()):
                if not k.startswith("_memoize"):
                    leaves(y, f"{path}.{k}", depth - 1, out, seen)
    finally:
        seen.discard(id(x))
    return out


def frozen(lv):
    return [(p, np.array(y, copy=True) if isinstance(y, np.ndarray) else y) for p, y in lv]


def same(a, b):
    """index of the first difference, or None"""
    if len(a) != len(b):
        return f"{len(a)} and {len(b)} parts"
    for (p, x), (q, y) in zip(a, b):
        if p != q:
            return f"{p} / {q}"
        ax, ay = isinstance(x, (np.ndarray, np.generic)), isinstance(y, (np.ndarray, np.generic))
        if ax != ay:
            return f"{p}: {x!r} / {y!r}"
        if ax or isinstance(x, (float, complex)):
            x_, y_ = np.asarray(x), np.asarray(y)
            if x_.shape != y_.shape or x_.dtype != y_.dtype:
                return f"{p}: {x_.dtype}{x_.shape} / {y_.dtype}{y_.shape}"
            if x_.dtype.kind in "fc":
                fin = np.isfinite(x_)
                if (fin != np.isfinite(y_)).any():
                    return f"{p}: finite or not"
                d = np.abs(np.where(fin, x_, 0) - np.where(fin, y_, 0))
                sc = 1.0 + np.max(np.abs(np.where(fin, x_, 0)), initial=0)
                if (d > 1e-9 * sc).any():
                    return f"{p}: differs by {float(d.max()):.3g}"
            elif (x_ != y_).any():
                return f"{p}: values"
        elif type(x) is not type(y) or x != y:
            return f"{p}: {x!r} / {y!r}"
    return None


def scribble(lv):
    """what a careless caller may do to a result"""
    for _, y in lv:
        if not isinstance(y, np.ndarray) or not y.size:
            continue
        z, todo = y, [y]
        while isinstance(z.base, np.ndarray):
            z = z.base
            todo.append(z)
        for z in todo:
            if z.flags.writeable and z.dtype.kind in "fciub":
                if z.dtype.kind == "b":
                    z[...] = ~z
                elif z.dtype.kind in "iu":
                    z += 7
                else:
                    z *= -3
                    z += 0.37


def lists(x, depth=6):
    """modify the lists of a result"""
    if isinstance(x, list):
        x.append(None)
        x.reverse()
    elif isinstance(x, dict):
        x.clear()
    elif isinstance(x, tuple) and depth > 0:
        for y in x:
            lists(y, depth - 1)


def readonly(lv):
    for _, y in lv:
        if isinstance(y, np.ndarray):
            y.flags.writeable = False


def relayout(x):
    """the same values in another memory layout"""
    if isinstance(x, np.ndarray) and x.dtype != object and x.ndim:
        big = np.full(tuple(2 * n for n in x.shape), -77, dtype=x.dtype, order="F")
        y = big[tuple(slice(None, None, 2) for _ in x.shape)]
        y[...] = x
        return y
    return x


def real_modules():
    import modepy       # noqa: F401
    return {n: m for n, m in sys.modules.items()
            if (n == "modepy" or n.startswith("modepy.")) and m is not None
            and ".test" not in n}


class Histories:
    def __init__(self, B):
        self.B = B
        self.specs = []
        self.names = set()

    def add(self, name, fn, *build, **kw):
        """fn is called with what the builders return, made anew for every call"""
        if name not in self.names:
            self.names.add(name)
            self.specs.append((name, fn, build, kw))

    def args(self, spec):
        name, _, build, _ = spec
        seed = int(hashlib.sha1(name.encode()).hexdigest()[:8], 16)
        rng = np.random.RandomState(seed)
        return [b(rng) if callable(b) and getattr(b, "builder", False) else b for b in build]

    def call(self, spec, args):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return spec[1](*args, **spec[3])

    def run(self, rounds=2):
        B = self.B
        first = {}
        dead = set()
        for i, s in enumerate(self.specs):
            name = s[0]
            np.random.seed(i)
            a = self.args(s)
            la = leaves(a)
            was = frozen(la)
            try:
                r = self.call(s, a)
            except Exception as e:      # noqa: BLE001
                # whether it should raise is other properties' business: that it does so
                # every time is this one's
                first[i] = type(e).__name__
                if "C25_RAISES" in os.environ:
                    print("RAISES", name, f"{type(e).__name__}: {e}"[:160])
                continue
            d = same(was, leaves(a))
            B.ok("arguments are not modified", d is None, info=d, call=name)
            lr = leaves(r)
            first[i] = frozen(lr)
            # (documented for map_identity: "nodes is a copy of s")
            if name.startswith(("map ", "transplanted")):
                B.ok("the result is not memory of an argument", not any(
                    isinstance(y, np.ndarray) and isinstance(z, np.ndarray)
                    and np.shares_memory(y, z) for _, y in lr for _, z in leaves(a)), call=name)
            for n, t in self.tables():
                for p, y in lr:
                    if isinstance(y, np.ndarray) and y.size and y.flags.writeable and \
                            np.may_share_memory(y, t) and np.shares_memory(y, t):
                        B.ok("the result is not memory of a table", False, info=f"{p} {n}",
                             call=name)
            scribble(lr)
            lists(r)
            a = self.args(s)
            try:
                r2 = self.call(s, a)
                d = same(first[i], leaves(r2))
            except Exception as e:      # noqa: BLE001
                d = f"{type(e).__name__}: {e}"[:200]
            if not B.ok("the same result after the first one was modified", d is None, info=d,
                        call=name):
                dead.add(i)
                continue
            scribble(leaves(r2))
            # read-only arguments, other memory layout
            a = self.args(s)
            readonly(leaves(a))
            try:
                d = same(first[i], leaves(self.call(s, a)))
            except Exception as e:      # noqa: BLE001
                d = f"{type(e).__name__}: {e}"[:200]
            B.ok("the same result with read-only arguments", d is None, info=d, call=name)
            a = [relayout(x) for x in self.args(s)]
            if any(isinstance(x, np.ndarray) for x in a):
                try:
                    d = same(first[i], leaves(self.call(s, a)))
                except Exception as e:      # noqa: BLE001
                    d = f"{type(e).__name__}: {e}"[:200]
                B.ok("the same result in another memory layout", d is None, info=d, call=name)
        # the same calls in other orders
        state0 = (np.geterr(), np.random.get_state()[1][:5].tolist(), len(warnings.filters))
        for rd in range(rounds):
            order = [i for i in range(len(self.specs)) if i not in dead]
            B.rng.shuffle(order)
            for i in order:
                s = self.specs[i]
                a = self.args(s)
                try:
                    r = self.call(s, a)
                    if isinstance(first[i], str):
                        d = f"first {first[i]}, now a result"
                    else:
                        lr = leaves(r)
                        d = same(first[i], lr)
                        scribble(lr)
                        lists(r)
                except Exception as e:      # noqa: BLE001
                    d = None if first[i] == type(e).__name__ else \
                        f"{type(e).__name__}: {e}"[:200]
                B.ok("the same result in any order of calls", d is None, info=d, call=s[0],
                     round=rd)
        state1 = (np.geterr(), np.random.get_state()[1][:5].tolist(), len(warnings.filters))
        B.ok("global numpy state is not modified", state0 == state1, calls=len(self.specs))

    def tables(self):
        n = len(real_modules())
        if getattr(self, "_nt", None) != n:
            self._nt, self._t = n, tables_of(real_modules())
        return self._t


def A(fn):
    fn.builder = True
    return fn


def arr(*shape, lo=-0.9, hi=0.9):
    return A(lambda r: r.uniform(lo, hi, size=shape))


def shapes_zoo(small=False):
    import modepy as mp
    S, H, TP = mp.Simplex, mp.Hypercube, mp.TensorProductShape
    out = [S(1), S(2), S(3), H(1), H(2), H(3), TP((S(2), S(1))), TP((H(1), S(2)))]
    return out[:6] if small else [S(0), H(0), *out]


def spaces_zoo():
    import modepy as mp
    out = []
    for sh in shapes_zoo():
        for o in (0, 1, 2, 4):
            if sh.dim >= 3 and o > 2:
                continue
            try:
                out.append((mp.space_for_shape(sh, o), sh))
            except Exception:       # noqa: BLE001
                continue
    out.append((mp.space_for_shape(mp.Hypercube(2), (1, 3)), mp.Hypercube(2)))
    return out


def nm(*xs):
    return ",".join(getattr(x, "__name__", None) or repr(x) for x in xs)


def nodes_of(sp, sh):
    import modepy as mp

    def b(r):
        return np.array(mp.edge_clustered_nodes_for_space(sp, sh))
    return A(b)


def funcs(b, what, x):
    """values of all functions of a basis, and their multi-indices"""
    return [f(x) for f in getattr(b, what)], list(b.mode_ids)


@CHECK.battery("histories: bases, matrices", functions=["modepy.modes", "modepy.matrices"])
def _(B):
    import modepy as mp
    import modepy.matrices as mat
    import modepy.modes as mo
    from modepy import modal_decay as md
    H = Histories(B)
    for n in (0, 1, 2, 5):
        for al, be in ((0.0, 0.0), (1.0, 0.5), (-0.5, -0.5), (2.0, 1.0)):
            for f in (mo.jacobi, mo.grad_jacobi, mo.scaled_jacobi):
                for sh in ((4,), (2, 3), (1,)):
                    H.add(f"{f.__name__}({al},{be},{n},{sh})", f, al, be, n, arr(*sh))
                H.add(f"{f.__name__}({al},{be},{n},scalar)", f, al, be, n, 0.25)
    for o in ((0, 0), (1, 2), (2, 0)):
        for sh in ((2, 5), (2, 2, 3)):
            for f in (mo.pkdo_2d, mo.grad_pkdo_2d, mo.monomial, mo.grad_monomial):
                H.add(f"{f.__name__}({o},{sh})", f, o, arr(*sh))
            for ax in (0, 1):
                H.add(f"diff_monomial({o},{ax},{sh})", mo.diff_monomial, o, ax, arr(*sh))
    for o in ((0, 0, 0), (1, 0, 2)):
        for f in (mo.pkdo_3d, mo.grad_pkdo_3d, mo.monomial, mo.grad_monomial):
            H.add(f"{f.__name__}({o})", f, o, arr(3, 5))
    H.add("zerod_basis", mo.zerod_basis, arr(0, 3))
    for sp, sh in spaces_zoo():
        for mk in (mp.basis_for_space, mp.orthonormal_basis_for_space,
                   mp.monomial_basis_for_space):
            k = nm(mk, sp, sh)

            def bas(r, mk=mk, sp=sp, sh=sh):
                return mk(sp, sh)
            bas = A(bas)
            try:
                mk(sp, sh)
            except Exception:       # noqa: BLE001
                continue
            H.add("functions " + k, funcs, bas, "functions", arr(sh.dim, 4))
            H.add("gradients " + k, funcs, bas, "gradients", arr(sh.dim, 4))
            shared = mk(sp, sh)
            for w in ("functions", "gradients"):
                H.add(f"{w} of one object {k}",
                      lambda x, w=w, b=shared: funcs(b, w, x), arr(sh.dim, 4))
            H.add("degrees " + k, md.degree_vector, bas)
            nod = nodes_of(sp, sh)

            def on(f, *what):
                def g(b, *a):
                    return f(*[getattr(b, w) if w else b for w in what], *a)
                return g
            H.add("vandermonde " + k, on(mat.vandermonde, "functions"), bas, nod)
            H.add("multi_vandermonde " + k, on(mat.multi_vandermonde, "gradients"), bas, nod)
            H.add("differentiation_matrices " + k,
                  on(mat.differentiation_matrices, "functions", "gradients"), bas, nod)
            H.add("diff_matrices " + k, on(mat.diff_matrices, ""), bas, nod)
            H.add("diff_matrices from " + k,
                  lambda b, x, y: mat.diff_matrices(b, x, from_nodes=y), bas,
                  arr(sh.dim, 3, hi=-0.5), nod)
            H.add("resampling " + k, on(mat.resampling_matrix, "functions"), bas,
                  arr(sh.dim, 5, hi=-0.4), nod)
            H.add("mass " + k, on(mat.mass_matrix, ""), bas, nod)
            H.add("inverse mass " + k, on(mat.inverse_mass_matrix, ""), bas, nod)
            H.add("error estimator " + k,
                  lambda b, x: md.interp_error_coefficient_estimator_matrix(x, 1, b),
                  bas, nod)
            if sh.dim:
                quad = A(lambda r, sp=sp, sh=sh: mp.quadrature_for_space(sp, sh))
                H.add("test matrix " + k,
                      lambda b, q, x: mat.nodal_quadrature_test_matrix(
                          q, b.functions, b.functions, x), bas, quad, nod)
                H.add("test matrix 2 " + k,
                      lambda b, q: mat.nodal_quadrature_test_matrix(
                          q, b.functions, b.functions), bas, quad)
                H.add("bilinear " + k,
                      lambda b, q, x: mat.nodal_quadrature_bilinear_form_matrix(
                          q, b.functions, b.functions, b.functions, b.functions, x), bas,
                      quad, nod)
        if sh.dim and mp.node_tuples_for_space(sp):
            for ax in range(sh.dim):
                H.add(f"permutation {nm(sp, sh)} {ax}", mat.diff_matrix_permutation,
                      A(lambda r, sp=sp: list(mp.node_tuples_for_space(sp))), ax)
        if 1 <= sh.dim <= 3 and not isinstance(sh, mp.TensorProductShape) or \
                sh in (mp.Hypercube(2), mp.Hypercube(3)):
            try:
                nf = len(mp.faces_for_shape(sh))
            except Exception:       # noqa: BLE001
                continue
            for fi in range(nf):
                def face(r, sh=sh, fi=fi):
                    return mp.faces_for_shape(sh)[fi]

                def fq(r, sh=sh, fi=fi, sp=sp):
                    f = mp.faces_for_shape(sh)[fi]
                    return mp.quadrature_for_space(mp.space_for_shape(f, 2), f)

                def fnod(r, sh=sh, fi=fi, sp=sp):
                    f = mp.faces_for_shape(sh)[fi]
                    return mp.edge_clustered_nodes_for_space(mp.space_for_shape(
                        f, getattr(sp, "order", 2)), f)
                b = A(lambda r, sp=sp, sh=sh: mp.basis_for_space(sp, sh))
                fb = A(lambda r, sh=sh, fi=fi, sp=sp: mp.basis_for_space(mp.space_for_shape(
                    mp.faces_for_shape(sh)[fi], getattr(sp, "order", 2)),
                    mp.faces_for_shape(sh)[fi]))
                k = f"{nm(sp, sh)} {fi}"
                H.add("face modal mass " + k,
                      lambda f, q, b1, b2: mat.modal_mass_matrix_for_face(
                          f, q, b2.functions, b1.functions), A(face), A(fq), b, fb)
                H.add("face nodal mass " + k,
                      lambda f, q, b1, b2, x, y: mat.nodal_mass_matrix_for_face(
                          f, q, b2.functions, b1.functions, x, y), A(face), A(fq), b, fb,
                      nodes_of(sp, sh), A(fnod))
                H.add("face modal quad mass " + k,
                      lambda f, q, b1: mat.modal_quad_mass_matrix_for_face(
                          f, q, b1.functions), A(face), A(fq), b)
                H.add("face nodal quad mass " + k,
                      lambda f, q, b1, x: mat.nodal_quad_mass_matrix_for_face(
                          f, q, b1.functions, x), A(face), A(fq), b, nodes_of(sp, sh))
    for n, d in ((2, 1), (3, 2), (2, 3)):
        q = A(lambda r, n=n, d=d: mp.LegendreGaussTensorProductQuadrature(n, d))
        H.add(f"spectral mass {n} {d}", mat.spectral_diag_nodal_mass_matrix, q)
    H.run()


@CHECK.battery("histories: nodes, shapes, spaces, tools, decay", functions=[
    "modepy.nodes", "modepy.shapes", "modepy.spaces", "modepy.tools", "modepy.modal_decay"])
def _(B):
    import modepy as mp
    import modepy.nodes as no
    import modepy.shapes as sh_
    import modepy.tools as to
    from modepy import modal_decay as md
    H = Histories(B)
    for d in (1, 2, 3):
        for n in (1, 2, 3, 5):
            tup = A(lambda r, d=d, n=n: list(mp.node_tuples_for_space(mp.PN(d, n))))
            for f in (no.equidistant_nodes, no.warp_and_blend_nodes):
                H.add(f"{f.__name__}({d},{n})", f, d, n)
                H.add(f"{f.__name__}({d},{n}) tuples", f, d, n, tup)
            for f in (no.legendre_gauss_tensor_product_nodes,
                      no.legendre_gauss_lobatto_tensor_product_nodes):
                H.add(f"{f.__name__}({d},{n})", f, d, n)
            H.add(f"tensor_product_nodes({d},{n})", no.tensor_product_nodes, d, arr(n))
            H.add(f"tensor_product_nodes list({d},{n})",
                  lambda *a: no.tensor_product_nodes(list(a)),
                  *[arr(1, n) for _ in range(d)])
            H.add(f"tensor_product_nodes list2({d},{n})",
                  lambda *a: no.tensor_product_nodes(list(a)),
                  *[arr(1 + k % 2, n) for k in range(d)])
    for n in (2, 3, 6):
        for sc in (True, False):
            H.add(f"warp_factor({n},{sc})", no.warp_factor, n, arr(5), sc)
    for sp, sh in spaces_zoo():
        k = nm(sp, sh)
        H.add("node_tuples " + k, mp.node_tuples_for_space, sp)
        H.add("equispaced " + k, mp.equispaced_nodes_for_space, sp, sh)
        H.add("edge clustered " + k, mp.edge_clustered_nodes_for_space, sp, sh)
        if sh.dim:
            H.add("submesh " + k, mp.submesh_for_shape, sh,
                  A(lambda r, sp=sp: list(mp.node_tuples_for_space(sp))))
            x = A(lambda r, sp=sp: r.normal(size=(3, sp.space_dim)))
            if isinstance(sp, mp.TensorProductSpace):
                H.add("reshape " + k, to.reshape_array_for_tensor_product_space, sp, x)
                H.add("unreshape " + k, lambda s, y: to.unreshape_array_for_tensor_product_space(
                    s, to.reshape_array_for_tensor_product_space(s, y)), sp, x)
            if getattr(sp, "order", None) in (1, 2):
                H.add("Lebesgue " + k, to.estimate_lebesgue_constant, sp.order,
                      nodes_of(sp, sh), sh)
                if not isinstance(sh, mp.TensorProductShape):
                    H.add("decay " + k, md.fit_modal_decay,
                          A(lambda r, sp=sp: r.normal(size=(4, sp.space_dim))), sh.dim,
                          sp.order)
    for sh in shapes_zoo():
        k = nm(sh)
        H.add("vertices " + k, mp.unit_vertices_for_shape, sh)
        for o in (1, 2):
            H.add(f"space {k} {o}", lambda s, o: repr(mp.space_for_shape(s, o)), sh, o)
        H.add("random " + k, mp.random_nodes_for_shape, sh, 5,
              A(lambda r: np.random.default_rng(7)))
        try:
            nf = len(mp.faces_for_shape(sh))
        except Exception:       # noqa: BLE001
            nf = 0
        for fi in range(nf):
            H.add(f"one face object {k} {fi}", lambda p, f=mp.faces_for_shape(sh)[fi]: (
                f.map_to_volume(p), mp.face_normal(f), f.volume_vertex_indices),
                arr(sh.dim - 1, 4))

            def facedata(s, fi, p):
                f = mp.faces_for_shape(s)[fi]
                return (f.volume_vertex_indices, f.face_index, f.dim, f.map_to_volume(p),
                        mp.face_normal(f), mp.face_normal(f, normalize=False),
                        mp.unit_vertices_for_shape(f))
            H.add(f"face {k} {fi}", facedata, sh, fi, arr(sh.dim - 1, 4))
    H.add("faces objects", lambda: [mp.faces_for_shape(mp.Simplex(d)) for d in (1, 2, 3)])
    H.add("faces objects cube", lambda: [mp.faces_for_shape(mp.Hypercube(d))
                                         for d in (1, 2, 3)])
    for d in (1, 2, 3):
        H.add(f"equilateral_to_unit {d}", to.equilateral_to_unit, arr(d, 4))
        H.add(f"unit_to_barycentric {d}", to.unit_to_barycentric, arr(d, 4))
        H.add(f"barycentric_to_unit {d}", to.barycentric_to_unit, arr(d + 1, 4))
        H.add(f"barycentric_to_equilateral {d}", to.barycentric_to_equilateral,
              arr(d + 1, 4))
        H.add(f"AffineMap {d}", lambda a, b, x: (lambda m: (m(x), m.jacobian, m.inverse(x)))(
            to.AffineMap(a, b)), arr(d, d), arr(d), arr(d, 5))
        for e in ((1,) * d, tuple(range(d))):
            def mono(e, x):
                m = to.Monomial(e, 1.5)
                return (m(x), [m.diff(k)(x) for k in range(len(e))], m.simplex_integral(),
                        m.hypercube_integral(), m.exponents)
            H.add(f"Monomial {e}", mono, A(lambda r, e=e: list(e)), arr(d, 4))
    for n in (2, 4, 7):
        H.add(f"skyline {n}", md.skyline_pessimize, arr(3, n, lo=0.1, hi=1))
        H.add(f"baseline {n}", md.create_decay_baseline,
              A(lambda r, n=n: np.arange(n)), n)
    for n in (3, 5):
        H.add(f"fit matrix {n}", md.get_decay_fit_matrix, A(lambda r, n=n: np.arange(1, n + 1)), 1,
              arr(n, lo=0.2, hi=1))
        H.add(f"mode numbers {n}", md.make_mode_number_vector,
              A(lambda r, n=n: [(i,) for i in range(n)]), 1)
        H.add(f"residual {n}", md.estimate_relative_expansion_residual,
              A(lambda r, n=n: r.normal(size=(4, n + 1))), 1, n)
        H.add(f"decay {n}", md.fit_modal_decay,
              A(lambda r, n=n: r.normal(size=(4, n + 1))), 1, n)
    H.run()


def rule_data(q):
    return (q.nodes, q.weights, getattr(q, "_exact_to", None) if not isinstance(
        getattr(q, "_exact_to", None), float) else None, q.dim if q.nodes.ndim else 0)


def all_rules():
    """(name, thunk) of every rule of the package with moderate size, and of every table"""
    import modepy as mp
    from modepy.quadrature import kronrod as kr
    out = []

    def add(name, fn):
        out.append((name, fn))
    for n in range(0, 8):
        for fd in (False, True):
            add(f"LG {n} {fd}", lambda n=n, fd=fd: mp.LegendreGaussQuadrature(
                n, force_dim_axis=fd))
            add(f"LGL {n} {fd}", lambda n=n, fd=fd: mp.LegendreGaussLobattoQuadrature(
                n, force_dim_axis=fd))
            add(f"CC {n} {fd}", lambda n=n, fd=fd: mp.ClenshawCurtisQuadrature(
                n, force_dim_axis=fd))
            add(f"JG {n} {fd}", lambda n=n, fd=fd: mp.JacobiGaussQuadrature(
                0.5, 1.0, n, force_dim_axis=fd))
            add(f"JGL {n} {fd}", lambda n=n, fd=fd: mp.JacobiGaussLobattoQuadrature(
                0.5, 1.0, n, force_dim_axis=fd))
            add(f"GG {n} {fd}", lambda n=n, fd=fd: mp.GaussGegenbauerQuadrature(
                0.5, n, force_dim_axis=fd))
            for k in (1, 2):
                add(f"CG {n} {k} {fd}", lambda n=n, k=k, fd=fd: mp.ChebyshevGaussQuadrature(
                    n, kind=k, force_dim_axis=fd))
                add(f"F {n} {k} {fd}", lambda n=n, k=k, fd=fd: mp.FejerQuadrature(
                    n, kind=k, force_dim_axis=fd))
    for n in range(1, 6):
        add(f"TP {n}", lambda n=n: mp.TensorProductQuadrature(
            [mp.LegendreGaussQuadrature(n), mp.LegendreGaussLobattoQuadrature(n + 1)]))
        add(f"transformed {n}", lambda n=n: mp.quadrature.Transformed1DQuadrature(
            mp.LegendreGaussQuadrature(n), 0.5, 2.0))
        for d in (1, 2, 3):
            add(f"LGTP {n} {d}", lambda n=n, d=d: mp.LegendreGaussTensorProductQuadrature(n, d))
            add(f"LGLTP {n} {d}",
                lambda n=n, d=d: mp.LegendreGaussLobattoTensorProductQuadrature(n, d))
            add(f"GM {n} {d}", lambda n=n, d=d: mp.GrundmannMoellerSimplexQuadrature(n, d))
    add("0d", lambda: mp.ZeroDimensionalQuadrature())
    for n in range(1, 9):
        add(f"kronrod {n}", lambda n=n: kr.make_kronrod_quadrature(n))
    for d in (2, 3):
        for o in range(0, 60):
            add(f"XG {o} {d}", lambda o=o, d=d: mp.XiaoGimbutasSimplexQuadrature(o, d))
            add(f"VR {o} {d}", lambda o=o, d=d: mp.VioreanuRokhlinSimplexQuadrature(o, d))
            add(f"WV {o} {d}", lambda o=o, d=d: mp.WitherdenVincentQuadrature(o, d))
            add(f"JS {o} {d}", lambda o=o, d=d: mp.JaskowiecSukumarQuadrature(o, d))
    for sp, sh in spaces_zoo():
        add(f"quadrature_for_space {nm(sp, sh)}",
            lambda sp=sp, sh=sh: mp.quadrature_for_space(sp, sh))
    return out


def _rule_histories(B, rules, rounds=2):
    from modepy.quadrature.kronrod import KronrodQuadrature
    H = Histories(B)
    for name, mk in rules:
        H.add(name, mk)

        def use(mk=mk):
            q = mk()
            f = lambda x: np.cos(x if x.ndim == 1 else x.sum(axis=0) if len(x) else  # noqa: E731
                                 np.ones(x.shape[1:]))
            if isinstance(q, KronrodQuadrature):
                return q(f), q.dim, q.exact_to
            try:
                ex = q.exact_to
            except AttributeError:
                ex = None
            ex = ex if isinstance(ex, int) else repr(ex)
            return q(f), q.dim, ex
        H.add("integral " + name, use)
    before = module_state(real_modules())
    H.run(rounds)
    now = module_state(real_modules())
    bad = [k for k in before if k in now and now[k] != before[k] and now[k][0] != "x"]
    # a cache may grow; a table may not change
    import modepy      # noqa: F401
    B.ok("no table is modified", not [k for k in bad if "_data" in k or k.rsplit(".", 1)[-1]
                                      .lstrip("_").isupper()], info=bad, rules=len(rules))


@CHECK.battery("histories: computed rules", functions=["modepy.quadrature"])
def _(B):
    _rule_histories(B, [r for r in all_rules() if r[0][:2] not in ("XG", "VR", "WV", "JS")])


@CHECK.battery("histories: every tabulated rule", functions=[
    "modepy.quadrature.xiao_gimbutas.XiaoGimbutasSimplexQuadrature",
    "modepy.quadrature.vioreanu_rokhlin.VioreanuRokhlinSimplexQuadrature",
    "modepy.quadrature.witherden_vincent.WitherdenVincentQuadrature",
    "modepy.quadrature.jaskowiec_sukumar.JaskowiecSukumarQuadrature"], timeout=600)
def _(B):
    import modepy as mp
    rules = [r for r in all_rules() if r[0][:2] in ("XG", "VR", "WV", "JS")]
    keep = []
    for n, mk in rules:
        try:
            mk()
            keep.append((n, mk))
        except mp.QuadratureRuleUnavailable:
            continue
    B.ok("there are tabulated rules", len(keep) > 50, n=len(keep))
    _rule_histories(B, keep, 1)


@CHECK.battery("histories: transplanted, Kronrod, construction", functions=[
    "modepy.quadrature.transplanted", "modepy.quadrature.kronrod",
    "modepy.quadrature.construction"])
def _(B):
    import modepy as mp
    from modepy.quadrature import construction as co
    from modepy.quadrature import kronrod as kr
    from modepy.quadrature import transplanted as tr
    H = Histories(B)
    maps = [("identity", tr.map_identity, {}), ("strip", tr.map_strip, {}),
            ("strip 1.6", tr.map_strip, {"rho": 1.6}),
            ("kte", tr.map_kosloff_tal_ezer, {}),
            ("kte rho", tr.map_kosloff_tal_ezer, {"rho": 1.7}),
            ("kte alpha", tr.map_kosloff_tal_ezer, {"alpha": 0.5})]
    for k in (1, 3, 9):
        maps.append((f"sausage {k}", functools.partial(tr.map_sausage, degree=k), {}))
    for name, f, kw in maps:
        for sh in ((5,), (2, 3), (1, 4)):
            H.add(f"map {name} {sh}", f, arr(*sh), **kw)
        for n in (1, 2, 5):
            H.add(f"transplanted {name} {n}", lambda n, f=f, kw=kw: (lambda q: (
                q.nodes, q.weights))(mp.transplanted_legendre_gauss_quadrature(
                    n, functools.partial(f, **kw))), n)
            H.add(f"transplanted 1d {name} {n}", lambda q, f=f, kw=kw: (lambda q: (
                q.nodes, q.weights))(mp.transplanted_1d_quadrature(
                    q, functools.partial(f, **kw))),
                A(lambda r, n=n: mp.ClenshawCurtisQuadrature(n + 1)))
    for n in range(1, 9):
        H.add(f"gauss {n}", kr.gauss, n)
        H.add(f"kronrod {n}", kr.kronrod, n)
        H.add(f"make_kronrod {n}", kr.make_kronrod_quadrature, n)
    for pts in ([0.0, 1.0], [0.0, 0.5, 2.0], [-np.inf, 0.0], [0.0, np.inf],
                [-np.inf, np.inf], [0.0, 1.0, np.inf], [-np.inf, 0.0, 1.0]):
        for o in (3, 7):
            H.add(f"quadgk {pts} {o}", lambda p, o: kr.quadgk(
                lambda x: np.exp(-x * x), *p, order=o), A(lambda r, p=pts: list(p)), o)

    def moncplx(n):
        return [functools.partial(lambda k, x: x**k, k) for k in range(n)]
    rng = np.random.RandomState(11)
    X = rng.uniform(-1, 1, 9) + 1j * rng.uniform(-1, 1, 9)
    Wt = rng.uniform(0.1, 1, 9)

    def integ(f):
        return (f(X) * Wt).sum()
    for n in (1, 2, 4):
        H.add(f"orthogonalize {n}", lambda n, x: [f(x) for f in co.orthogonalize_basis(
            integ, moncplx(n))], n, arr(5))
        H.add(f"guess nodes {n}", lambda n: np.sort_complex(co.guess_nodes_vioreanu_rokhlin(
            integ, co.orthogonalize_basis(integ, moncplx(n)))), n)
        H.add(f"linear combination {n}", lambda c, x: co.linearly_combine(
            c, moncplx(len(c)))(x), arr(n), arr(5))
        H.add(f"nested combination {n}", lambda c, d, x: co.linearly_combine(
            c, [co.LinearCombinationIntegrand(d, moncplx(2))] * len(c))(x), arr(n), arr(2),
            arr(5))
        H.add(f"weights {n}", lambda n, x, r: co.find_weights_undetermined_coefficients(
            moncplx(n), x, r), n, arr(n), arr(n))
        H.add(f"residual {n}", lambda n, x, w, r: (lambda q: (
            q.residual, q.dresid_dweights, q.dresid_dnodes,
            co.quad_gauss_newton_increment(q)))(co.quad_residual_and_jacobian(
                x, w, [functools.partial(lambda k, x: x[0]**k, k) for k in range(n)],
                [[functools.partial(lambda k, x: k * x[0]**max(k - 1, 0), k)
                  for k in range(n)]], r)), n, arr(1, n), arr(n), arr(n))
    H.add("adapt", lambda x: [f(x) for f in co.adapt_2d_integrands_to_complex_arg(
        [lambda p: p[0] + 2 * p[1], lambda p: p[0] * p[1]])], arr(5))
    if hasattr(co, "_identity_integrand"):
        H.add("identity", lambda x: co._identity_integrand(x), arr(5))
    H.run()

# }}}
