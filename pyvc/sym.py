"""Symbolic values: numbers, truth values, arrays, sequences."""
from __future__ import annotations

import functools
import itertools
import math
import numbers
import os
import types
from fractions import Fraction

import numpy as _np

from . import terms as T
from .core import CUR, PathEnd, Unsupported, cur
from .terms import Node


# {{{ lifting

IMAG = T.var("imaginary-unit", "R")


def lift(x) -> Node:
    if isinstance(x, Node):
        return x
    if isinstance(x, (SNum, SBool)):
        return x.t
    if isinstance(x, bool) or isinstance(x, _np.bool_):
        return T.TRUE if x else T.FALSE
    if isinstance(x, (int, _np.integer)):
        return T.num(int(x))
    if isinstance(x, Fraction):
        return T.num(x, "R")
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float in a symbolic expression")
        return T.num(Fraction(repr(x)), "R")
    if isinstance(x, SArr) and x.ndim == 0:
        return x.elem(())
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x[()])
    if isinstance(x, complex) and getattr(cur(), "complex_values", None) == "symbol":
        # contracts of complex arithmetic: a symbol for the imaginary unit
        return T.add(lift(x.real), T.mul(lift(x.imag), IMAG))
    raise Unsupported(f"cannot lift {type(x).__name__} to a term")


def lift_num(x):
    n = lift(x)
    if n.sort == "B":
        return T.ite(n, T.num(1), T.num(0))
    return n


def lift_bool(x) -> Node:
    n = lift(x)
    if n.sort != "B":
        return T.not_(T.eq(n, T.num(0)))
    return n


def wrap(n: Node):
    if n.sort == "B":
        if n is T.TRUE:
            return True
        if n is T.FALSE:
            return False
        return SBool(n)
    if n.op == "num" and n.sort == "I" and n.args[0].denominator == 1:
        return int(n.args[0])
    return SNum(n)


def is_symnum(x):
    return isinstance(x, SNum)


def is_scalar(x):
    return isinstance(x, (SNum, SBool, int, float, Fraction, _np.number, bool, _np.bool_)) or \
        isinstance(x, complex) and getattr(cur(), "complex_values", None) == "symbol"

# }}}


class SBool:
    __slots__ = ("t",)
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().decide(self.t)

    def __and__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        return wrap(T.and_(self.t, lift_bool(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        return wrap(T.or_(self.t, lift_bool(o)))

    __ror__ = __or__

    def __invert__(self):
        return wrap(T.not_(self.t))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return wrap(T.eq(self.t, lift_bool(o)))
        return NotImplemented

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return f"<{T.show(self.t)}>"

    def _num(self):
        return SNum(T.ite(self.t, T.num(1), T.num(0)))

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __int__(self):
        return 1 if bool(self) else 0


def _binop(f, rev=False):
    def op(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        if isinstance(o, _np.ndarray):
            if o.ndim:
                a = asarr(o)
                return a._ew(self, f, not rev)
            o = o[()]
        if not is_scalar(o):
            return NotImplemented
        x, y = self.t, lift_num(o)
        if rev:
            x, y = y, x
        return wrap(f(x, y))
    return op


def _cmpop(f, pos, neg):
    """comparison; with +-inf: the truth values for a finite left-hand side"""
    g = _binop(f)

    def op(self, o):
        if isinstance(o, (float, _np.floating)) and _np.isinf(o) and \
                getattr(cur(), "nonfinite", None) is None:
            return pos if o > 0 else neg
        return g(self, o)
    return op


def require(cond_node, exc, msg):
    """Branch: raise exc on the paths where cond is false."""
    if not cur().decide(cond_node):
        raise exc(msg)


def t_div(a, b):
    if b.op == "num":
        if b.args[0] == 0:
            if cur().np_div:
                return T.app("divzero", a)
            raise ZeroDivisionError("division by zero")
    elif cur().check_domain:
        require(T.not_(T.eq(b, T.num(0))), ZeroDivisionError, "division by zero")
    return T.div(a, b)


def t_floordiv(a, b):
    if b.op != "num":
        if not cur().entails(T.lt(T.num(0), b)):
            raise Unsupported("// with a divisor not known to be positive")
    elif b.args[0] <= 0:
        if b.args[0] == 0:
            raise ZeroDivisionError
        return T.idiv(T.neg(a), T.neg(b))
    if a.sort == "I" and b.sort == "I":
        return T.idiv(a, b)
    if _multinomial(a, b):
        from .norm import canon
        return canon(T.div(a, b))
    raise Unsupported("real //")


def _multinomial(a, b):
    """a/b = m! / (k1! k2! .. c), where c divides (m - k1 - k2 - ..)!  -- an integer"""
    from . import norm as N

    def factors(t):
        if t.op == "mul":
            return [y for x in t.args for y in factors(x)]
        return [t]
    num, ks, c = None, [], Fraction(1)
    for x in factors(a):
        if x.op == "app" and x.args[0] == "gamma" and num is None:
            num = x.args[1]
        elif not T.is_num(x, 1):
            return False
    for x in factors(b):
        if x.op == "app" and x.args[0] == "gamma":
            ks.append(x.args[1])
        elif x.op == "num":
            c *= x.args[0]
        else:
            return False
    if num is None or any(x.sort != "I" for x in (num, *ks)):
        return False
    # gamma(x) = (x - 1)!
    rest = T.sub(num, T.ONE)
    for k in ks:
        rest = T.sub(rest, T.sub(k, T.ONE))
    rest = N.canon(rest)
    if c.denominator != 1 or c <= 0:
        return False
    if rest.op != "num" or rest.args[0] < 0 or rest.args[0] > 20:
        return c == 1 and cur().entails(T.le(T.num(0), rest))
    return math.factorial(int(rest.args[0])) % int(c) == 0


def t_mod(a, b):
    if b.op != "num":
        if not cur().entails(T.lt(T.num(0), b)):
            raise Unsupported("% with a divisor not known to be positive")
    elif b.args[0] <= 0:
        raise Unsupported("% with nonpositive divisor")
    if a.sort == "I" and b.sort == "I":
        return T.imod(a, b)
    raise Unsupported("real %")


def t_pow(a, b):
    if a.op == "num" and a.args[0] == 0 and b.op != "num":
        c = T.eq(b, T.num(0))
        return T.ite(c, T.num(1), T.num(0))
    if b.op == "num" and b.args[0] == Fraction(1, 2):
        return T.sqrt(a)
    r = T.pow_(a, b)
    return r


class SNum:
    __slots__ = ("t",)
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, t):
        # type(x)(1) in the code under verification: the number
        self.t = t if isinstance(t, T.Node) else lift(t)

    def __and__(self, o):
        """bits of an integer below a power of two"""
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0 and self.t.sort == "I":
            return self % (o + 1)
        raise Unsupported("bitwise and")

    __rand__ = __and__

    def __rshift__(self, o):
        if isinstance(o, int) and self.t.sort == "I":
            return self // 2**o
        raise Unsupported("shift")

    def __lshift__(self, o):
        if isinstance(o, int) and self.t.sort == "I":
            return self * 2**o
        raise Unsupported("shift")

    __add__ = _binop(T.add)
    __radd__ = _binop(T.add, True)
    __sub__ = _binop(T.sub)
    __rsub__ = _binop(T.sub, True)
    __mul__ = _binop(T.mul)
    __rmul__ = _binop(T.mul, True)
    __truediv__ = _binop(t_div)
    __rtruediv__ = _binop(t_div, True)
    __floordiv__ = _binop(t_floordiv)
    __rfloordiv__ = _binop(t_floordiv, True)
    __mod__ = _binop(t_mod)
    __rmod__ = _binop(t_mod, True)
    __pow__ = _binop(t_pow)
    __rpow__ = _binop(t_pow, True)
    __lt__ = _cmpop(T.lt, True, False)
    __le__ = _cmpop(T.le, True, False)
    __gt__ = _cmpop(lambda a, b: T.lt(b, a), False, True)
    __ge__ = _cmpop(lambda a, b: T.le(b, a), False, True)
    __eq__ = _cmpop(T.eq, False, False)
    __ne__ = _cmpop(lambda a, b: T.not_(T.eq(a, b)), True, True)

    def __hash__(self):
        return hash(self.t)

    def __neg__(self):
        return wrap(T.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(T.abs_(self.t))

    def __bool__(self):
        return cur().decide(T.not_(T.eq(self.t, T.num(0))))

    def __index__(self):
        if self.t.op == "num" and self.t.args[0].denominator == 1:
            return int(self.t.args[0])
        raise Unsupported(f"symbolic integer used as a native index: {T.show(self.t)[:80]}")

    def __int__(self):
        if self.t.op == "num":
            return int(self.t.args[0])
        raise Unsupported("int() of a symbolic number")

    def __float__(self):
        if self.t.op == "num":
            return float(self.t.args[0])
        raise Unsupported("float() of a symbolic number")

    def __divmod__(self, o):
        return self // o, self % o

    def __repr__(self):
        return f"<{T.show(self.t)}>"

    def __format__(self, spec):
        return f"<{self.t.id}>"

    @property
    def dtype(self):
        return _np.dtype("int64" if self.t.sort == "I" else "float64")

    shape = ()
    ndim = 0
    size = 1

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def conj(self):
        return self

    conjugate = conj

    def copy(self):
        return self

    def item(self):
        return self

    def is_integer(self):
        if self.t.sort == "I":
            return True
        raise Unsupported("is_integer")

    def sqrt(self):
        return SNum(T.sqrt(self.t))


numbers.Number.register(SNum)


# {{{ arrays

class Buf:
    __slots__ = ("shape", "fn", "dtype", "name", "is_input", "frozen", "version", "log",
                 "serial")
    count = 0

    def __init__(self, shape, fn, dtype, name=None, is_input=False):
        self.shape = tuple(shape)     # Nodes
        self.fn = fn                  # index nodes -> Node or python object
        self.dtype = dtype
        self.name = name
        self.is_input = is_input
        self.frozen = False
        self.version = 0
        Buf.count += 1
        self.serial = Buf.count       # order of allocation
        self.log = []                 # writes: (cond(idx)->Node, value(idx)->Node)


def dimval(n):
    return wrap(lift(n))


F8 = _np.dtype("float64")
I8 = _np.dtype("int64")
B1 = _np.dtype("bool")
OBJ = _np.dtype("O")


def dtype_of(x):
    if isinstance(x, SArr):
        return x.dtype
    if isinstance(x, _np.ndarray):
        return x.dtype
    if isinstance(x, (SBool, bool)):
        return B1
    if isinstance(x, SNum):
        return I8 if x.t.sort == "I" else F8
    if isinstance(x, (int,)):
        return I8
    if isinstance(x, _np.generic):
        return x.dtype
    return F8


def result_dtype(a, b):
    """numpy promotion; python scalars are weak"""
    wa = not isinstance(a, (SArr, _np.ndarray, _np.generic))
    wb = not isinstance(b, (SArr, _np.ndarray, _np.generic))
    da, db = dtype_of(a), dtype_of(b)
    if da == OBJ or db == OBJ:
        return OBJ
    if wa and not wb and da.kind in "fi":
        if db.kind == "f" or db.kind == da.kind:
            return db
        if db.kind == "c":
            return db
    if wb and not wa and db.kind in "fi":
        if da.kind == "f" or da.kind == db.kind:
            return da
        if da.kind == "c":
            return da
    return _np.result_type(da, db)


def mask_selection(mask, dim):
    """The positions (in order) where a boolean vector is true, as an abstract index array."""
    from .core import cur
    v = cur()
    n = mask._shape[0]
    if n is not dim and not v.entails(T.eq(n, dim)):
        raise IndexError("boolean index did not match indexed array")
    c = T.var("?mask", "I")
    rd = snapshot(mask)
    key = (rd((c,)), n)
    ids = v.__dict__.setdefault("maskids", {})
    if key not in ids:
        # the same positions as an earlier mask?
        T.RANGES[c] = (T.ZERO, n)
        for (b0, n0), k0 in list(ids.items()):
            if n0 is n and v.entails(T.and_(T.or_(T.not_(b0), key[0]),
                                            T.or_(b0, T.not_(key[0])))):
                ids[key] = k0
                break
    k = ids.setdefault(key, f"{len(set(ids.values()))}")
    cnt = T.app("cnt#" + k, sort="I")
    v.axiom("cnt#" + k, lambda: [T.le(T.ZERO, cnt), T.le(cnt, n)])

    def ax(j):
        s = T.app("sel#" + k, j, sort="I")
        return [T.or_(T.lt(j, T.ZERO), T.le(cnt, j), T.and_(
            T.le(T.ZERO, s), T.lt(s, n), rd((s,))))]
    v.axiom("sel#" + k, ax)
    r = new_array((cnt,), lambda idx: T.app("sel#" + k, idx[0], sort="I"), _np.dtype(int))
    r.mask_id = k
    return r


def mask_rank(sel, i):
    return T.app("rank#" + sel.mask_id, i, sort="I")


class SArr:
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, buf, axes, shape):
        """axes: per buffer axis ('fix', node) or ('ax', view axis, start node, step int)"""
        self.buf = buf
        self.axes = axes
        self._shape = tuple(shape)    # Nodes

    # {{{ basics

    @property
    def shape(self):
        return tuple(dimval(s) for s in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = r * s
        return r

    @property
    def base(self):
        return None

    @property
    def T(self):
        n = self.ndim
        return self.transpose(tuple(range(n))[::-1])

    @property
    def real(self):
        return self

    @property
    def flags(self):
        raise Unsupported("array flags")

    def transpose(self, *perm):
        if len(perm) == 1 and isinstance(perm[0], (tuple, list)):
            perm = tuple(perm[0])
        if not perm:
            perm = tuple(range(self.ndim))[::-1]
        inv = {p: k for k, p in enumerate(perm)}
        axes = [a if a[0] == "fix" else ("ax", inv[a[1]], a[2], a[3]) for a in self.axes]
        return SArr(self.buf, axes, tuple(self._shape[p] for p in perm))

    def bufidx(self, idx):
        out = []
        for a in self.axes:
            if a[0] == "fix":
                out.append(a[1])
            else:
                i = idx[a[1]]
                if a[3] != 1:
                    i = T.mul(T.num(a[3]), i)
                out.append(T.add(a[2], i))
        return tuple(out)

    def elem(self, idx):
        return self.buf.fn(self.bufidx(tuple(idx)))

    def at(self, *idx):
        return wrapelem(self.elem(tuple(lift(i) for i in idx)))

    def __len__(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        n = self._shape[0]
        if n.op == "num":
            return int(n.args[0])
        raise Unsupported("len() of a symbolic array (native)")

    def len_(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        return dimval(self._shape[0])

    def __iter__(self):
        if not self._shape:
            raise TypeError("iteration over a 0-d array")
        n = self._shape[0]
        if n.op == "num":
            return iter([self[i] for i in range(int(n.args[0]))])
        raise Unsupported("native iteration over a symbolic axis")

    def __bool__(self):
        if not self._shape:
            return bool(wrap(lift_bool(self.elem(()))))
        if all(s.op == "num" for s in self._shape):
            tot = 1
            for s in self._shape:
                tot *= int(s.args[0])
            if tot == 1:
                return bool(wrap(lift_bool(self.elem((T.num(0),) * self.ndim))))
        raise ValueError("truth value of an array is ambiguous")

    def __repr__(self):
        return f"<SArr {self.shape} {self.dtype}>"

    def __hash__(self):
        raise TypeError("unhashable type: array")

    def __float__(self):
        raise Unsupported("float(array)")

    # }}}

    # {{{ indexing

    def _normkey(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = tuple(list(k) if isinstance(k, tuple) else k for k in key)
        n_real = sum(1 for k in key if k is not None and k is not Ellipsis
                     and not (isinstance(k, SArr) and k.dtype == B1)) + sum(
                         k.ndim for k in key if isinstance(k, SArr) and k.dtype == B1)
        out = []
        seen = False
        for k in key:
            if k is Ellipsis:
                if seen:
                    raise IndexError("multiple ellipsis")
                seen = True
                out += [slice(None)] * (self.ndim - n_real)
            else:
                out.append(k)
        if not seen:
            out += [slice(None)] * (self.ndim - n_real)
        if n_real > self.ndim:
            raise IndexError("too many indices for array")
        return out

    def _index(self, key):
        """-> ('view', SArr) | ('fancy', [...]) | ('mask', ...)"""
        key = self._normkey(key)
        if any(isinstance(k, (SArr, _np.ndarray, list, SSeq)) and not _is0d(k) for k in key):
            return "fancy", key
        pos = 0
        sel = []       # per current axis
        newshape = []
        newaxes_at = []
        for k in key:
            if k is None:
                newshape.append(T.num(1))
                continue
            d = self._shape[pos]
            if isinstance(k, slice):
                start, step, n = slice_params(k, d)
                sel.append(("rng", len(newshape), start, step))
                newshape.append(n)
            else:
                i = norm_index(k, d)
                sel.append(("fix", i))
            pos += 1
        axes = []
        for a in self.axes:
            if a[0] == "fix":
                axes.append(a)
                continue
            _, vax, start, step = a
            s = sel[vax]
            if s[0] == "fix":
                i = s[1] if step == 1 else T.mul(T.num(step), s[1])
                axes.append(("fix", T.add(start, i)))
            else:
                _, nax, st2, sp2 = s
                off = st2 if step == 1 else T.mul(T.num(step), st2)
                axes.append(("ax", nax, T.add(start, off), step * sp2))
        return "view", SArr(self.buf, axes, newshape)

    def __getitem__(self, key):
        if isinstance(key, str):
            raise IndexError("field")
        kind, r = self._index(key)
        if kind == "view":
            if r.ndim == 0 and not _has_ellipsis(key):
                return wrapelem(r.elem(()))
            return r
        return self._fancy(r)

    def _fancy(self, key):
        idxs = [(p, k) for p, k in enumerate(key)
                if isinstance(k, (SArr, _np.ndarray, list, SSeq))]
        arrs = [(p, asarr(k)) for p, k in idxs]
        if len(idxs) == 1 and arrs[0][1].dtype == B1:
            p, m = arrs[0]
            if m.ndim != 1:
                raise Unsupported("boolean mask selection of several axes")
            arrs = [(p, mask_selection(m, self._shape[p]))]
        for p, a in arrs:
            if a.dtype.kind not in "iu":
                raise IndexError("arrays used as indices must be of integer type")
        if len(arrs) > 1:
            bs = broadcast_shapes(*[a._shape for _, a in arrs])
        else:
            bs = arrs[0][1]._shape
        # adjacent fancy indices: result axes go in place of the first
        ps = [p for p, _ in arrs]
        if any(k is None for k in key):
            raise Unsupported("newaxis with fancy index")
        if len(ps) > 1 and ps != list(range(ps[0], ps[-1] + 1)):
            raise Unsupported("non-adjacent fancy indices")
        pre = [k for k in key[:ps[0]]]
        post = [k for k in key[ps[-1] + 1:]]
        shape = []
        getters = []

        def simple(k, d, axis_ctr):
            if isinstance(k, slice):
                start, step, n = slice_params(k, d)
                shape.append(n)
                j = len(shape) - 1
                return lambda idx: T.add(start, T.mul(T.num(step), idx[j]))
            i = norm_index(k, d)
            return lambda idx: i
        for q, k in enumerate(pre):
            getters.append(simple(k, self._shape[q], None))
        off = len(shape)
        shape.extend(bs)
        nb = len(bs)
        for p, a in arrs:
            d = self._shape[p]

            def g(idx, a=a, d=d):
                sub = idx[off:off + nb]
                e = a.elem(_bidx(a, sub, bs))
                return norm_index_term(e, d)
            getters.append(g)
        for q, k in enumerate(post):
            getters.append(simple(k, self._shape[ps[-1] + 1 + q], None))
        src = snapshot(self)

        def fn(idx):
            return src(tuple(g(idx) for g in getters))
        return new_array(shape, fn, self.dtype)

    def __setitem__(self, key, value):
        if self.buf.frozen:
            raise Unsupported("write to an array that shares memory with a reshaped view")
        kind, r = self._index(key)
        if kind == "view":
            write_view(r, value)
            return
        key = r
        if len(key) >= 1 and isinstance(key[0], SArr) and key[0].dtype == B1 and \
                all(isinstance(k, slice) and k == slice(None) for k in key[1:]):
            self._mask_write(key[0], value)
            return
        ms = [(p, k) for p, k in enumerate(key) if isinstance(k, SArr)]
        if len(ms) == 1 and ms[0][1].dtype == B1 and ms[0][1].ndim == 1 and all(
                isinstance(k, slice) and k == slice(None) for k in key if k is not ms[0][1]):
            self._mask_write_axis(*ms[0], value)
            return
        self._fancy_write(key, value)

    def _fancy_write(self, key, value):
        """a[i(k), j(k), ...] = value(k), one-dimensional index arrays i, j"""
        if any(k is None for k in key):
            raise Unsupported("fancy assignment with a new axis")
        arrs = [(p, asarr(k)) for p, k in enumerate(key)
                if isinstance(k, (SArr, _np.ndarray, list, SSeq)) and not _is0d(k)]
        if any(a.ndim != 1 or a.dtype.kind not in "iu" for _, a in arrs):
            raise Unsupported("fancy assignment")
        ps = [p for p, _ in arrs]
        if len(ps) > 1 and ps != list(range(ps[0], ps[-1] + 1)) or any(
                not isinstance(k, slice) and p not in ps for p, k in enumerate(key)):
            raise Unsupported("fancy assignment")
        n = broadcast_shapes(*[a._shape for _, a in arrs])[0]
        if n.op == "num":
            sel = [[elemnum(a.elem((T.num(0 if T.is_num(a._shape[0], 1) else q),)))
                    for _, a in arrs] for q in range(int(n.args[0]))]
            shape = self[tuple(slice(None) if p in ps else k
                               for p, k in enumerate(key))]._shape
            shape = (*shape[:ps[0]], n, *shape[ps[-1] + 1:])
            val = broadcast_to(asarr(value), shape)
            for q, ix in enumerate(sel):
                kk = list(key)
                for p, i in zip(ps, ix):
                    kk[p] = wrap(i)
                self[tuple(kk)] = val[(slice(None),) * ps[0] + (q,)]
            return
        if any(not (isinstance(k, slice) and k == slice(None))
               for p, k in enumerate(key) if p not in ps):
            raise Unsupported("fancy assignment")
        from . import norm as N
        k = T.fresh("k", "I")
        T.RANGES[k] = (T.num(0), n)
        pos = [norm_index_term(elemnum(a.elem((T.num(0) if T.is_num(a._shape[0], 1) else k,))),
                               self._shape[p]) for p, a in arrs]
        solve = None
        for q, e in enumerate(pos):
            g = N.norm(e)
            m = ((k, N.E1),)
            if abs(g.get(m, 0)) == 1 and all(k not in b.fv for mm in g if mm != m
                                             for b, _ in mm):
                solve = (q, int(g[m]), N.gp_term({mm: c for mm, c in g.items() if mm != m}))
                break
        if solve is None:
            raise Unsupported("fancy assignment at positions that are not recognised")
        q, c, rest = solve
        old = snapshot(self)
        shape = (*self._shape[:ps[0]], n, *self._shape[ps[-1] + 1:])
        val = snapshot(broadcast_to(asarr(value), shape))
        dt = self.dtype

        def fn(idx):
            kk = T.sub(idx[ps[q]], rest)
            if c < 0:
                kk = T.mul(T.num(-1), kk)
            conds = [T.le(T.num(0), kk), T.lt(kk, n)]
            conds += [T.eq(idx[p], T.subst(e, {k: kk}))
                      for r, (p, e) in enumerate(zip(ps, pos)) if r != q]
            return T.ite(T.and_(*conds), coerce(
                val((*idx[:ps[0]], kk, *idx[ps[-1] + 1:])), dt), old(idx))
        write_view(self, new_array(self._shape, fn, dt))

    def _mask_write_axis(self, p, mask, value):
        """a[:, mask] = value, where value has one entry per selected position"""
        sel = mask_selection(mask, self._shape[p])
        shape = [*self._shape[:p], sel._shape[0], *self._shape[p + 1:]]
        val = snapshot(broadcast_to(asarr(value), shape))
        m, old = snapshot(mask), snapshot(self)
        dt = self.dtype

        def fn(idx):
            i = idx[p]
            return T.ite(m((i,)), coerce(val((*idx[:p], mask_rank(sel, i), *idx[p + 1:])), dt),
                         old(idx))
        write_view(self, new_array(self._shape, fn, dt))

    def _mask_write(self, mask, value):
        if self.ndim != mask.ndim:
            raise Unsupported("mask of smaller rank")
        if isinstance(value, SArr) and value.ndim:
            if mask.ndim == 1:
                return self._mask_write_axis(0, mask, value)
            raise Unsupported("masked assignment of an array")
        m = snapshot(mask)
        old = snapshot(self)
        v = coerce(lift(value), self.dtype)
        write_view(self, new_array(self._shape, lambda idx: T.ite(m(idx), v, old(idx)),
                                   self.dtype))

    # }}}

    # {{{ arithmetic

    def _ew(self, o, f, rev=False, dtype=None):
        if isinstance(o, (list, tuple)):
            o = asarr(o)
        if isinstance(o, _np.ndarray):
            o = asarr(o)
        if isinstance(o, SArr):
            shape = broadcast_shapes(self._shape, o._shape)
            a, b = snapshot(self), snapshot(o)
            sa, sb = self, o

            def fn(idx):
                x = a(_bidx(sa, idx, shape))
                y = b(_bidx(sb, idx, shape))
                x, y = elemnum(x), elemnum(y)
                return f(y, x) if rev else f(x, y)
        elif is_scalar(o):
            shape = self._shape
            a = snapshot(self)
            y = lift_num(o)

            def fn(idx):
                x = elemnum(a(idx))
                return f(y, x) if rev else f(x, y)
        else:
            return NotImplemented
        return new_array(shape, fn, dtype or result_dtype(self, o))

    def __add__(self, o):
        return self._ew(o, T.add)

    def __radd__(self, o):
        return self._ew(o, T.add, True)

    def __sub__(self, o):
        return self._ew(o, T.sub)

    def __rsub__(self, o):
        return self._ew(o, T.sub, True)

    def __mul__(self, o):
        return self._ew(o, T.mul)

    def __rmul__(self, o):
        return self._ew(o, T.mul, True)

    def _divdt(self, o):
        d = result_dtype(self, o)
        return F8 if d.kind in "iub" else d

    def __truediv__(self, o):
        return self._ew(o, T.div, dtype=self._divdt(o))

    def __rtruediv__(self, o):
        return self._ew(o, T.div, True, dtype=self._divdt(o))

    def __pow__(self, o):
        if isinstance(o, (int, SNum)) and self.dtype.kind in "iu" and lift(o).sort == "I":
            if not cur().entails(T.le(T.num(0), lift(o))):
                raise Unsupported("integer array to a possibly negative power")
        return self._ew(o, t_pow)

    def __rpow__(self, o):
        return self._ew(o, t_pow, True)

    def __floordiv__(self, o):
        return self._ew(o, t_floordiv)

    def __mod__(self, o):
        return self._ew(o, t_mod)

    def __lt__(self, o):
        return self._ew(o, T.lt, dtype=B1)

    def __le__(self, o):
        return self._ew(o, T.le, dtype=B1)

    def __gt__(self, o):
        return self._ew(o, lambda a, b: T.lt(b, a), dtype=B1)

    def __ge__(self, o):
        return self._ew(o, lambda a, b: T.le(b, a), dtype=B1)

    def __eq__(self, o):
        return self._ew(o, T.eq, dtype=B1)

    def __ne__(self, o):
        return self._ew(o, lambda a, b: T.not_(T.eq(a, b)), dtype=B1)

    def __neg__(self):
        return self.map(T.neg)

    def __pos__(self):
        return self.map(lambda x: x)

    def __abs__(self):
        return self.map(T.abs_)

    def __invert__(self):
        return self.map(T.not_)

    def __and__(self, o):
        return self._bool(o, T.and_)

    def __or__(self, o):
        return self._bool(o, T.or_)

    def _bool(self, o, f):
        o = asarr(o)
        shape = broadcast_shapes(self._shape, o._shape)
        a, b = snapshot(self), snapshot(o)
        return new_array(shape, lambda idx: f(a(_bidx(self, idx, shape)),
                                              b(_bidx(o, idx, shape))), B1)

    def map(self, f, dtype=None):
        a = snapshot(self)
        return new_array(self._shape, lambda idx: f(elemnum(a(idx))
                                                    if self.dtype != B1 else a(idx)),
                         dtype or self.dtype)

    def _inplace(self, o, op, opname):
        r = op(self, o)
        if r is NotImplemented:
            return r
        if len(r._shape) != len(self._shape):
            raise ValueError("non-broadcastable output operand")
        if self.dtype.kind in "iu" and r.dtype.kind == "f":
            raise TypeError(f"Cannot cast ufunc '{opname}' output from dtype('float64') "
                            "to dtype('int64') with casting rule 'same_kind'")
        if self.buf.frozen:
            raise Unsupported("write to an array that shares memory with a reshaped view")
        write_view(self, r)
        return self

    def __iadd__(self, o):
        return self._inplace(o, SArr.__add__, "add")

    def __isub__(self, o):
        return self._inplace(o, SArr.__sub__, "subtract")

    def __imul__(self, o):
        return self._inplace(o, SArr.__mul__, "multiply")

    def __itruediv__(self, o):
        return self._inplace(o, SArr.__truediv__, "divide")

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    # }}}

    # {{{ methods

    def copy(self, order=None):
        return new_array(self._shape, snapshot(self), self.dtype)

    def conj(self):
        return self._complex_part("conj")

    conjugate = conj

    @property
    def real(self):
        return self._complex_part("re")

    @property
    def imag(self):
        if not getattr(cur(), "complex_values", False):
            return new_array(self._shape, lambda idx: T.num(0), self.dtype)
        return self._complex_part("im")

    def _complex_part(self, name):
        """the identity for real values; where a contract declares the values complex, an
        uninterpreted function of the element"""
        if not getattr(cur(), "complex_values", False):
            return self
        return new_array(self._shape, lambda idx, s=snapshot(self): T.app(
            name, elemnum(s(idx))), self.dtype)

    def astype(self, dt, **kw):
        dt = _np.dtype(dt)
        return new_array(self._shape, lambda idx, s=snapshot(self): coerce(s(idx), dt), dt)

    def sum(self, axis=None, keepdims=False):
        return np_sum(self, axis=axis)

    def prod(self, axis=None):
        return np_prod(self, axis=axis)

    def dot(self, o):
        return matmul(self, o, dot=True)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape, order)

    def flatten(self, order="C"):
        r = reshape(self, (-1,), order, alias=False)
        return r

    def ravel(self, order="C"):
        return reshape(self, (-1,), order)

    def tolist(self):
        if self.ndim == 0:
            return wrapelem(self.elem(()))
        return [x.tolist() if isinstance(x, SArr) else x for x in self]

    def item(self):
        if self.ndim == 0:
            return wrapelem(self.elem(()))
        raise Unsupported("item()")

    def fill(self, v):
        write_view(self, v)

    def max(self, axis=None):
        return np_minmax(self, axis, True)

    def min(self, axis=None):
        return np_minmax(self, axis, False)

    def any(self):
        return np_any(self)

    def all(self):
        return np_all(self)

    def swapaxes(self, a, b):
        perm = list(range(self.ndim))
        perm[a], perm[b] = perm[b], perm[a]
        return self.transpose(tuple(perm))

    def squeeze(self):
        key = tuple(0 if s is T.ONE else slice(None) for s in self._shape)
        return self[key]

    # }}}


def _has_ellipsis(key):
    return key is Ellipsis or (isinstance(key, tuple) and any(k is Ellipsis for k in key))


def _is0d(k):
    return isinstance(k, (SArr, _np.ndarray)) and k.ndim == 0 and dtype_of(k) != B1


def wrapelem(x):
    return wrap(x) if isinstance(x, Node) else x


def elemnum(x):
    if isinstance(x, Node):
        return T.ite(x, T.num(1), T.num(0)) if x.sort == "B" else x
    return lift_num(x)


def snapshot(arr):
    """A reader of the *current* content."""
    fn = arr.buf.fn
    axes = list(arr.axes)
    if arr.ndim == len(axes) and all(
            a[0] == "ax" and a[1] == k and a[3] == 1 and T.is_num(a[2], 0)
            for k, a in enumerate(axes)):
        return fn

    def rd(idx):
        out = []
        for a in axes:
            if a[0] == "fix":
                out.append(a[1])
            else:
                i = idx[a[1]]
                if a[3] != 1:
                    i = T.mul(T.num(a[3]), i)
                out.append(T.add(a[2], i))
        return fn(tuple(out))
    return rd


def memo_fn(fn):
    memo = {}

    def g(idx):
        r = memo.get(idx)
        if r is None:
            r = fn(idx)
            memo[idx] = r
        return r
    return g


def new_array(shape, fn, dtype, name=None, is_input=False):
    shape = tuple(lift(s) for s in shape)
    fn = memo_fn(fn)
    if dtype is not None and dtype != OBJ and dtype.kind in "iu":
        f0 = fn

        def fn(idx):
            return coerce(f0(idx), dtype)
        fn = memo_fn(fn)
    b = Buf(shape, fn, dtype or F8, name, is_input)
    return SArr(b, [("ax", k, T.num(0), 1) for k in range(len(shape))], shape)


def coerce(x, dtype):
    if dtype is None or dtype == OBJ or not isinstance(x, Node):
        if not isinstance(x, Node) and dtype is not None and dtype != OBJ:
            return coerce(lift(x), dtype)
        return x
    if dtype.kind in "iu" and x.sort == "R":
        if x.op == "num":
            return T.num(int(x.args[0]))
        return T.app("trunc", x, sort="I")
    if dtype.kind in "iuf" and x.sort == "B":
        return T.ite(x, T.num(1), T.num(0))
    if dtype.kind == "b" and x.sort != "B":
        return T.not_(T.eq(x, T.num(0)))
    return x


def fresh_array(name, shape, sort="R", dtype=None, is_input=False):
    def fn(idx):
        return T.app(name, *idx, sort=sort)
    return new_array(shape, fn, dtype or (I8 if sort == "I" else B1 if sort == "B" else F8),
                     name=name, is_input=is_input)


def asarr(x, dtype=None):
    if isinstance(x, SArr):
        if dtype is not None and _np.dtype(dtype) != x.dtype:
            return x.astype(dtype)
        return x
    if isinstance(x, PList) and x.sym is not None:
        x = x.sym
    if isinstance(x, _np.ndarray):
        if x.dtype == OBJ:
            flat = {i: x[i] for i in _np.ndindex(x.shape)}
        else:
            flat = {i: lift(x[i]) for i in _np.ndindex(x.shape)}
        r = _from_flat(flat, x.shape, x.dtype)
    elif is_scalar(x):
        v = lift(x)
        dt = dtype_of(x)
        if isinstance(x, SNum) and v.sort == "R" and v.op != "num" and \
                getattr(cur(), "expressions", False):
            dt = OBJ        # the contract uses symbolic reals as denotations of expressions
        r = new_array((), lambda idx: v, dt)
    elif isinstance(x, SSeq):
        n = x.n
        probe = asarr(x.get(T.fresh("p", "I")))
        cache = {}

        def fn(idx):
            if idx[0] not in cache:
                cache[idx[0]] = snapshot(asarr(x.get(idx[0])))
            return cache[idx[0]](idx[1:])
        r = new_array((n, *probe._shape), fn, probe.dtype)
    elif isinstance(x, (list, tuple)):
        x2 = list(x) if not isinstance(x, PList) else x.concrete()
        items = [asarr(y) for y in x2]
        if not items:
            r = new_array((0,), lambda idx: T.num(0), F8)
        else:
            sh = items[0]._shape
            for it in items[1:]:
                if len(it._shape) != len(sh):
                    raise ValueError("inhomogeneous shape")
                for a, b in zip(it._shape, sh):
                    if not bool(wrap(T.eq(a, b))):
                        raise ValueError("inhomogeneous shape")
            dt = items[0].dtype
            for it in items[1:]:
                dt = OBJ if OBJ in (dt, it.dtype) else _np.result_type(dt, it.dtype)
            snaps = [snapshot(it) for it in items]

            def fn(idx):
                i = idx[0]
                if i.op == "num":
                    return snaps[int(i.args[0])](idx[1:])
                r = snaps[-1](idx[1:])
                for k in range(len(snaps) - 2, -1, -1):
                    r = T.ite(T.eq(i, T.num(k)), snaps[k](idx[1:]), r)
                return r
            r = new_array((len(items), *sh), fn, dt)
    else:
        raise Unsupported(f"cannot convert {type(x).__name__} to an array")
    if dtype is not None and _np.dtype(dtype) != r.dtype:
        r = r.astype(dtype)
    return r


def _from_flat(flat, shape, dtype):
    def fn(idx):
        if all(i.op == "num" for i in idx):
            return flat[tuple(int(i.args[0]) for i in idx)]
        k = next(k for k, i in enumerate(idx) if i.op != "num")
        n = shape[k]
        vals = [fn(idx[:k] + (T.num(j),) + idx[k + 1:]) for j in range(n)]
        if not vals:
            return T.num(0)
        r = vals[-1]
        if not isinstance(r, Node):
            raise Unsupported("symbolic index into an object array")
        for j in range(n - 2, -1, -1):
            r = T.ite(T.eq(idx[k], T.num(j)), vals[j], r)
        return r
    return new_array(shape, fn, dtype)


def norm_index(k, d):
    """An integer index into an axis of extent d -> Node, raising IndexError paths."""
    if isinstance(k, SArr) and k.ndim == 0:
        k = wrap(k.elem(()))
    if isinstance(k, _np.ndarray) and k.ndim == 0:
        k = k[()]
    if isinstance(k, (bool, SBool)):
        raise Unsupported("boolean scalar index")
    if isinstance(k, InRange):
        return k.t
    n = lift(k)
    if n.sort != "I":
        raise IndexError("only integers, slices... are valid indices")
    v = cur()
    if n.op == "num" and n.args[0] < 0:
        require(T.le(T.num(0), T.add(d, n)), IndexError, "index out of bounds")
        return T.add(d, n)
    if n.op != "num" and not v.decide(T.le(T.num(0), n)):
        require(T.le(T.num(0), T.add(d, n)), IndexError, "index out of bounds")
        return T.add(d, n)
    require(T.lt(n, d), IndexError, "index out of bounds")
    return n


class InRange:
    """An index known to be within the extent by construction (iteration)."""

    def __init__(self, t):
        self.t = lift(t)


def norm_index_term(e, d):
    v = cur()
    if e.op == "num":
        return T.add(d, e) if e.args[0] < 0 else e
    if v.entails(T.le(T.num(0), e)):
        return e
    return T.ite(T.le(T.num(0), e), e, T.add(d, e))


def slice_params(s, d):
    """-> start, step, length (Nodes, int)"""
    v = cur()
    step = 1 if s.step is None else s.step
    if isinstance(step, SNum):
        raise Unsupported("symbolic slice step")
    if step == 0:
        raise ValueError("slice step cannot be zero")

    def clamp(x, lo, hi):
        if v.decide(T.lt(x, lo)):
            return lo
        if v.decide(T.lt(hi, x)):
            return hi
        return x

    def pos(x):
        n = lift(x)
        if n.sort != "I":
            raise TypeError("slice indices must be integers")
        if v.decide(T.lt(n, T.num(0))):
            n = T.add(n, d)
        return n
    if s.start is None and s.stop is None and step == 1:
        return T.num(0), 1, d
    if step > 0:
        start = T.num(0) if s.start is None else clamp(pos(s.start), T.num(0), d)
        stop = d if s.stop is None else clamp(pos(s.stop), T.num(0), d)
        if v.decide(T.le(stop, start)):
            return start, step, T.num(0)
        ln = T.sub(stop, start)
        if step != 1:
            ln = T.idiv(T.add(ln, T.num(step - 1)), T.num(step))
        return start, step, _simp(ln)
    top = T.sub(d, T.num(1))
    start = top if s.start is None else clamp(pos(s.start), T.num(-1), top)
    stop = T.num(-1) if s.stop is None else clamp(pos(s.stop), T.num(-1), top)
    if v.decide(T.le(start, stop)):
        return start, step, T.num(0)
    ln = T.sub(start, stop)
    if step != -1:
        ln = T.idiv(T.add(ln, T.num(-step - 1)), T.num(-step))
    return start, step, _simp(ln)


def _simp(n):
    from . import norm as N
    return N.canon(n)


def write_view(view, value):
    """Assign value (scalar or broadcastable array) to all elements of the view."""
    buf = view.buf
    if isinstance(value, (list, tuple)):
        value = asarr(value)
    if isinstance(value, _np.ndarray):
        value = asarr(value)
    if isinstance(value, SArr):
        vs = value._shape
        if len(vs) > len(view._shape):
            if all(s is T.ONE for s in vs[:len(vs) - len(view._shape)]):
                pass
            else:
                raise ValueError("could not broadcast input array")
        # broadcast check: each extent equals the target's or is one
        k = len(view._shape) - len(vs)
        for j, s in enumerate(vs):
            tgt = view._shape[k + j]
            if s is T.ONE:
                continue
            if not cur().decide(T.eq(s, tgt)):
                if cur().decide(T.eq(s, T.num(1))):
                    raise Unsupported("broadcast of an axis that happens to be one")
                raise ValueError("could not broadcast input array from shape "
                                 f"{value.shape} into shape {view.shape}")
        src = snapshot(value)

        def val(idx):
            return src(_bidx(value, idx, view._shape))
    else:
        c = lift(value) if buf.dtype != OBJ else value

        def val(idx):
            return c
    old = buf.fn
    dt = buf.dtype
    axes = list(view.axes)
    vshape = view._shape

    def region(bidx):
        """-> (cond, view index)"""
        conds = []
        vi = [None] * len(vshape)
        for b, a in zip(bidx, axes):
            if a[0] == "fix":
                conds.append(T.eq(b, a[1]))
            else:
                off = T.sub(b, a[2])
                st = a[3]
                n = vshape[a[1]]
                if st == 1:
                    i = off
                elif st == -1:
                    i = T.neg(off)
                else:
                    conds.append(T.eq(T.imod(off, T.num(abs(st))), T.num(0)))
                    i = T.idiv(off if st > 0 else T.neg(off), T.num(abs(st)))
                vi[a[1]] = i
                full = T.is_num(a[2], 0) and st == 1 and \
                    any(n is bs for bs in (buf.shape[axes.index(a)],))
                if not full:
                    conds += [T.le(T.num(0), i), T.lt(i, n)]
        return T.and_(*conds), tuple(T.num(0) if x is None else x for x in vi)

    def fn(bidx):
        c, vi = region(bidx)
        c2 = _quick(c)
        if c2 is T.FALSE:
            return old(bidx)
        x = val(vi)
        x = coerce(x, dt) if dt != OBJ else x
        if c2 is T.TRUE:
            return x
        o = old(bidx)
        if not isinstance(x, Node) or not isinstance(o, Node):
            raise Unsupported("symbolic write into an object array")
        return T.ite(c2, x, o)
    buf.fn = memo_fn(fn)
    buf.version += 1
    buf.log.append((region, val))
    if buf.is_input:
        cur().covers["input-write"] = cur().covers.get("input-write", 0) + 1
        cur().fail(f"frame: argument {buf.name} is not modified",
                   f"in-place write to {buf.name}")


def _quick(c):
    """Decide a write condition if that is immediate."""
    if c.op in ("true", "false"):
        return c
    v = CUR[0]
    if v is None:
        return c
    if c.op == "and":
        rest = []
        for x in c.args:
            if v.entails(x):
                continue
            if v.entails(T.not_(x)):
                return T.FALSE
            rest.append(x)
        return T.and_(*rest)
    if v.entails(c):
        return T.TRUE
    if v.entails(T.not_(c)):
        return T.FALSE
    return c


# {{{ broadcasting

def broadcast_shapes(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = None
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            x = s[j]
            if d is None or d is T.ONE:
                d = x
            elif x is T.ONE or x is d:
                pass
            else:
                if not cur().decide(T.eq(x, d)):
                    if cur().decide(T.eq(x, T.num(1))):
                        raise Unsupported("broadcast of an axis that happens to be one")
                    if cur().decide(T.eq(d, T.num(1))):
                        raise Unsupported("broadcast of an axis that happens to be one")
                    raise ValueError("operands could not be broadcast together")
        out.append(d)
    return tuple(out)


def _bidx(arr, idx, shape):
    k = len(shape) - len(arr._shape)
    if k < 0:
        # leading ones were dropped
        pad = tuple(T.num(0) for _ in range(-k))
        return pad + tuple(idx)
    out = []
    for j, s in enumerate(arr._shape):
        if s is T.ONE and shape[k + j] is not T.ONE:
            out.append(T.num(0))
        else:
            out.append(idx[k + j])
    return tuple(out)


def broadcast_to(a, shape):
    a = asarr(a)
    shape = tuple(lift(s) for s in shape)
    bs = broadcast_shapes(a._shape, shape)
    s = snapshot(a)
    return new_array(bs, lambda idx: s(_bidx(a, idx, bs)), a.dtype)

# }}}


# {{{ reductions

def _sum_over(n, f):
    """sum_{i<n} f(i node)"""
    if n.op == "num":
        return T.add(T.num(0), *[f(T.num(i)) for i in range(int(n.args[0]))])
    v = T.fresh("k", "I")
    T.RANGES[v] = (T.num(0), n)
    body = f(v)
    if not isinstance(body, Node):
        raise Unsupported("sum of non-numeric values")
    return T.sum_(v, T.num(0), n, body)


def _prod_over(n, f):
    if n.op == "num":
        return T.mul(T.num(1), *[f(T.num(i)) for i in range(int(n.args[0]))])
    v = T.fresh("k", "I")
    T.RANGES[v] = (T.num(0), n)
    return T.prod_(v, T.num(0), n, f(v))


def _reduce(a, axis, over, dtype=None):
    a = asarr(a)
    if axis is None:
        axes = list(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = [x % a.ndim for x in axis]
    else:
        if not -a.ndim <= axis < a.ndim:
            raise ValueError("axis out of bounds")
        axes = [axis % a.ndim]
    keep = [k for k in range(a.ndim) if k not in axes]
    src = snapshot(a)

    def fn(idx):
        full = [None] * a.ndim
        for j, k in enumerate(keep):
            full[k] = idx[j]

        def rec(rem):
            if not rem:
                return elemnum(src(tuple(full)))
            k = rem[0]

            def f(i):
                full[k] = i
                return rec(rem[1:])
            return over(a._shape[k], f)
        return rec(axes)
    r = new_array([a._shape[k] for k in keep], fn,
                  dtype or (I8 if a.dtype.kind in "bi" else a.dtype))
    if not keep:
        return wrap(r.elem(()))
    return r


def np_sum(a, axis=None):
    return _reduce(a, axis, _sum_over)


def np_prod(a, axis=None):
    return _reduce(a, axis, _prod_over)


def np_minmax(a, axis, ismax):
    def over(n, f):
        if n.op != "num":
            from .core import cur
            from . import norm as N
            if cur().decide(T.le(n, T.ZERO)):
                raise ValueError("zero-size array to reduction operation")
            r = T.fresh("r", "I")
            T.RANGES[r] = (T.num(0), n)
            body = N.canon(f(r))
            return T.app("max" if ismax else "min", T.lam(r, body), n, sort=body.sort)
        vs = [f(T.num(i)) for i in range(int(n.args[0]))]
        if not vs:
            raise ValueError("zero-size array to reduction operation")
        r = vs[0]
        for x in vs[1:]:
            r = T.ite(T.lt(r, x) if ismax else T.lt(x, r), x, r)
        return r
    return _reduce(a, axis, over)


def np_any(a):
    a = asarr(a)
    if all(s.op == "num" for s in a._shape):
        src = snapshot(a)
        return wrap(T.or_(*[lift_bool(src(tuple(T.num(i) for i in ix)))
                            for ix in itertools.product(
                                *[range(int(s.args[0])) for s in a._shape])]))
    return wrap(T.not_(_forall(a, T.not_)))


def np_all(a):
    a = asarr(a)
    if all(s.op == "num" for s in a._shape):
        src = snapshot(a)
        return wrap(T.and_(*[lift_bool(src(tuple(T.num(i) for i in ix)))
                             for ix in itertools.product(
                                 *[range(int(s.args[0])) for s in a._shape])]))
    return wrap(_forall(a, lambda c: c))


def _forall(a, f):
    ks = [T.fresh("k", "I") for _ in a._shape]
    for k, n in zip(ks, a._shape):
        T.RANGES[k] = (T.num(0), n)
    c = f(lift_bool(snapshot(a)(tuple(ks))))
    if cur().entails(c):
        return T.TRUE
    for k, n in zip(reversed(ks), reversed(a._shape)):
        c = T.binder("all", k, T.num(0), n, c)
    return c


def matmul(a, b, dot=False):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        if dot:
            return a * b
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("matmul of rank > 2")
    ka = a._shape[-1]
    kb = b._shape[0]
    if ka is not kb and not cur().decide(T.eq(ka, kb)):
        raise ValueError("shapes not aligned")
    sa, sb = snapshot(a), snapshot(b)
    la = a.ndim - 1
    shape = a._shape[:-1] + b._shape[1:]

    def fn(idx):
        return _sum_over(ka, lambda k: T.mul(elemnum(sa(idx[:la] + (k,))),
                                             elemnum(sb((k,) + idx[la:]))))
    r = new_array(shape, fn, result_dtype(a, b))
    if not shape:
        return wrap(r.elem(()))
    return r

# }}}


# {{{ reshape

def _flat_len(shape):
    return T.mul(T.num(1), *shape)


def reshape(a, shape, order="C", alias=True):
    from . import norm as N
    a = asarr(a)
    if order not in ("C", "F"):
        raise Unsupported(f"reshape order {order}")
    shape = [lift(s) for s in shape]
    old = list(a._shape)
    # infer -1
    for k, s in enumerate(shape):
        if T.is_num(s, -1):
            others = T.mul(T.num(1), *[x for j, x in enumerate(shape) if j != k])
            total = _flat_len(old)
            if T.is_num(others, 1):
                shape[k] = total
            else:
                q = N.canon(T.div(total, others))
                if q.sort == "R" and q.op != "num":
                    q2 = _cancel(old, [x for j, x in enumerate(shape) if j != k])
                    q = T.mul(T.num(1), *q2)
                shape[k] = T.num(int(q.args[0])) if q.op == "num" else q
    if order == "F":
        r = reshape(a.T, tuple(wrap(s) for s in shape[::-1]), "C", alias)
        return r.T
    if not N.equal(_flat_len(old), _flat_len(shape)):
        if not cur().decide(T.eq(_flat_len(old), _flat_len(shape))):
            raise ValueError("cannot reshape array")
    # match blocks: split axes into aligned groups
    groups = []
    i = j = 0
    while i < len(old) or j < len(shape):
        gi, gj = [], []
        if i < len(old):
            gi.append(old[i]); i += 1
        if j < len(shape):
            gj.append(shape[j]); j += 1
        while not N.equal(_flat_len(gi), _flat_len(gj)):
            # extend the group with the smaller number of factors left
            li, lj = _nfac(gi), _nfac(gj)
            if (li <= lj and i < len(old)) or j >= len(shape):
                if i >= len(old):
                    raise Unsupported("reshape: no aligned blocks")
                gi.append(old[i]); i += 1
            else:
                gj.append(shape[j]); j += 1
        groups.append((gi, gj))
    src = snapshot(a)

    def fn(idx):
        pos = 0
        out = []
        for gi, gj in groups:
            sub = idx[pos:pos + len(gj)]
            pos += len(gj)
            if len(gi) == 1 and len(gj) == 1:
                out.append(sub[0])
                continue
            f = T.num(0)
            for s, d in zip(sub, gj):
                f = T.add(T.mul(f, d), s)
            out += unravel(f, gi, list(zip(sub, gj)))
        return src(tuple(out))
    r = new_array(shape, fn, a.dtype)
    if alias:
        a.buf.frozen = True
        r.buf.frozen = True
    return r


def _cancel(num_, den):
    from . import norm as N
    num_ = list(num_)
    for d in den:
        for k, x in enumerate(num_):
            if N.equal(x, d):
                del num_[k]
                break
        else:
            raise Unsupported("reshape with inferred symbolic extent")
    return num_


def _nfac(g):
    n = 0
    for x in g:
        n += len(x.args) if x.op == "mul" else 1
    return n


def unravel(f, dims, parts=None):
    """Row-major unravelling of the flat index f (Node)."""
    out = []
    for k, d in enumerate(dims):
        if len(dims) == 1:
            out.append(f)
            break
        rest = _flat_len(dims[k + 1:])
        if k == len(dims) - 1:
            q = f
        else:
            q, f = divmod_term(f, rest)
        out.append(q)
    return out


def divmod_term(f, d):
    """(f // d, f % d) for f a sum; recognises f = d*q + r with 0 <= r < d."""
    from . import norm as N
    v = cur()
    g = N.norm(f)
    gd = N.norm(d)
    if len(gd) == 1:
        (dm, dc), = gd.items()
        q, r = {}, {}
        dd = dict(dm)
        for m, c in g.items():
            md = dict(m)
            if all(b in md and md[b][1] == e[1] and md[b][0] >= e[0] for b, e in dd.items()) \
                    and (c / dc).denominator == 1:
                inv = tuple((b, N.e_scale(e, Fraction(-1))) for b, e in dm)
                k, mm = N.mono_mul(m, inv)
                q[mm] = q.get(mm, 0) + c / dc * k
            else:
                r[m] = c
        rt = N.gp_term(r)
        if v.entails(T.le(T.num(0), rt)) and v.entails(T.lt(rt, d)):
            return N.gp_term(q), rt
    elif gd == g:
        return T.num(1), T.num(0)
    if v.entails(T.le(T.num(0), f)) and v.entails(T.lt(f, d)):
        return T.num(0), f
    if not v.entails(T.lt(T.num(0), d)):
        raise Unsupported("reshape: extent not known to be positive")
    return T.idiv(f, d), T.imod(f, d)

# }}}

# }}}


# {{{ sequences of symbolic length

class SSeq:
    """An immutable sequence of symbolic length."""

    def __init__(self, n, fn, kind=tuple):
        self.n = lift(n)
        self.fn = fn
        self.memo = {}
        self.kind = kind

    def get(self, i):
        i = lift(i)
        r = self.memo.get(i)
        if r is None:
            r = (self.fn(wrap(i)),)
            self.memo[i] = r
        return r[0]

    def len_(self):
        return dimval(self.n)

    def __len__(self):
        if self.n.op == "num":
            return int(self.n.args[0])
        raise Unsupported("native len() of a symbolic sequence")

    def __bool__(self):
        return cur().decide(T.lt(T.num(0), self.n))

    def __getitem__(self, k):
        if isinstance(k, slice):
            start, step, n = slice_params(k, self.n)
            return SSeq(n, lambda i: self.get(T.add(start, T.mul(T.num(step), lift(i)))),
                        self.kind)
        return self.get(norm_index(k, self.n))

    def __iter__(self):
        if self.n.op == "num":
            return iter([self.get(T.num(i)) for i in range(int(self.n.args[0]))])
        raise Unsupported("native iteration over a symbolic sequence")

    def map(self, f):
        return SSeq(self.n, lambda i: f(self.get(i)), self.kind)

    def __hash__(self):
        return id(self)


class SRange(SSeq):
    def __init__(self, lo, hi):
        self.lo = lift(lo)
        d = T.sub(lift(hi), self.lo)
        if d.op == "num":
            n = T.num(max(0, int(d.args[0])))
        elif cur().entails(T.le(T.num(0), d)):
            n = _simp(d)
        else:
            n = _simp(d) if cur().decide(T.le(T.num(0), d)) else T.num(0)
        super().__init__(n, lambda i: wrap(_simp(T.add(self.lo, lift(i)))))


class PList(list):
    """A Python list that can turn into one of symbolic length inside a cut loop."""

    def __init__(self, items=()):
        super().__init__(items)
        self.sym = None          # SSeq once symbolic
        self.appended = 0

    def concrete(self):
        if self.sym is not None:
            if self.sym.n.op == "num":
                return [self.sym.get(T.num(i)) for i in range(int(self.sym.n.args[0]))]
            raise Unsupported("list of symbolic length used concretely")
        return list(self)

    def state(self):
        """An immutable snapshot (SSeq)."""
        if self.sym is not None:
            return self.sym
        items = list.__iter__(self)
        items = list(items)
        return SSeq(len(items), _pick(items), list)

    def set_state(self, sym):
        list.clear(self)
        self.sym = sym

    def append(self, x):
        self.appended += 1
        if self.sym is None:
            super().append(x)
        else:
            old = self.sym
            n = old.n

            def fn(i, old=old, x=x, n=n):
                return _ite_value(T.lt(lift(i), n), lambda: old.get(lift(i)), lambda: x)
            self.sym = SSeq(T.add(n, T.num(1)), fn, list)

    def extend(self, xs):
        for x in xs:
            self.append(x)

    def __getitem__(self, k):
        if self.sym is not None:
            return self.sym[k]
        if isinstance(k, slice):
            if any(isinstance(z, SNum) for z in (k.start, k.stop, k.step)):
                return self.state()[k]
            return PList(super().__getitem__(k))
        if isinstance(k, SNum):
            return self.state()[k]
        return super().__getitem__(k)

    def __setitem__(self, k, v):
        if self.sym is None and not isinstance(k, SNum):
            return super().__setitem__(k, v)
        old = self.state()
        i0 = norm_index(k, old.n)
        self.set_state(SSeq(old.n, lambda i: _ite_value(
            T.eq(lift(i), i0), lambda: v, lambda: old.get(lift(i))), list))

    def len_(self):
        if self.sym is not None:
            return self.sym.len_()
        return list.__len__(self)

    def __len__(self):
        if self.sym is not None:
            return len(self.sym)
        return super().__len__()

    def __bool__(self):
        if self.sym is not None:
            return bool(self.sym)
        return super().__len__() > 0

    def __iter__(self):
        if self.sym is not None:
            return iter(self.sym)
        return super().__iter__()

    def pop(self, *a):
        if self.sym is not None:
            raise Unsupported("pop of symbolic list")
        return super().pop(*a)


def _pick(items):
    def fn(i):
        n = lift(i)
        if n.op == "num":
            return items[int(n.args[0])]
        r = None
        for k in range(len(items) - 1, -1, -1):
            if r is None:
                r = (items[k],)
            else:
                r = (_ite_value(T.eq(n, T.num(k)), lambda k=k: items[k], lambda r=r: r[0]),)
        if r is None:
            raise Unsupported("index into an empty sequence")
        return r[0]
    return fn


def _ite_value(c, a, b):
    """Merge two lazily given values under the condition c."""
    c = _quick(c)
    if c is T.TRUE:
        return a()
    if c is T.FALSE:
        return b()
    return merge2(c, a(), b())


def merge2(c, x, y):
    if x is y:
        return x
    if is_scalar(x) and is_scalar(y):
        return wrap(T.ite(c, lift(x), lift(y)))
    if isinstance(x, SArr) or isinstance(y, SArr):
        if is_scalar(x) and not is_scalar(y):
            x = broadcast_to(x, y.shape)
        if is_scalar(y) and not is_scalar(x):
            y = broadcast_to(y, x.shape)
        if isinstance(x, SArr) and isinstance(y, SArr) and x.ndim == y.ndim:
            for p, q in zip(x._shape, y._shape):
                if p is not q and not cur().entails(T.eq(p, q)):
                    raise Unsupported("merge of arrays of different shape")
            sx, sy = snapshot(x), snapshot(y)
            return new_array(x._shape, lambda idx: T.ite(c, sx(idx), sy(idx)),
                             result_dtype(x, y))
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return tuple(merge2(c, p, q) for p, q in zip(x, y))
    if is_record(x) and type(x) is type(y) and symbolic_record(x, y):
        return make_record(x, {k: merge2(c, a, b) for (k, a), b in zip(
            record_items(x), [b for _, b in record_items(y)])})
    if isinstance(x, functools.partial) and isinstance(y, functools.partial):
        p, q = fn_parts(x), fn_parts(y)
        if p[0] == q[0] and len(p[1]) == len(q[1]) and all(
                a is b or is_scalar(a) and is_scalar(b) or isinstance(a, tuple) and
                isinstance(b, tuple) and len(a) == len(b) for a, b in zip(p[1], q[1])):
            return fn_rebuild(x, [merge2(c, a, b) for a, b in zip(p[1], q[1])])
    # undecidable statically: fork the path
    return x if cur().decide(c) else y


def is_record(x):
    return hasattr(type(x), "__dataclass_fields__") and not isinstance(x, type)


def record_items(x):
    return [(k, getattr(x, k)) for k in type(x).__dataclass_fields__]


def symbolic_record(*xs):
    """instances of a dataclass with scalar fields, some of them symbolic"""
    vals = [v for x in xs for _, v in record_items(x)]
    return all(is_scalar(v) for v in vals) and any(isinstance(v, (SNum, SBool)) for v in vals)


def make_record(like, fields):
    r = object.__new__(type(like))
    for k, v in fields.items():
        object.__setattr__(r, k, v)
    return r


def merge_list(cases):
    """[(cond, value)] -> value"""
    if not cases:
        raise PathEnd()
    r = cases[-1][1]
    for c, v in reversed(cases[:-1]):
        r = merge2(c, v, r)
    return r

# }}}


# {{{ generic value traversal

def fn_parts(v):
    """A function value as (identity, captured values), None for anything else."""
    if isinstance(v, functools.partial):
        return ("partial", tuple(v.keywords)), (v.func, *v.args, *v.keywords.values())
    if isinstance(v, types.FunctionType):
        try:
            cells = tuple(c.cell_contents for c in v.__closure__ or ())
        except ValueError:
            return None
        kw = v.__kwdefaults__ or {}
        return (v.__code__, id(v.__globals__), len(cells), len(v.__defaults__ or ()),
                tuple(kw)), (*cells, *(v.__defaults__ or ()), *kw.values())
    if plain_object(v):
        d = object_fields(v)
        return (type(v), tuple(d)), tuple(d.values())
    return None


def plain_object(v):
    """an instance of a class of the verified modules, made of its attributes only"""
    t = type(v)
    return str(getattr(t, "__module__", "")).split(".")[0] == "modepy" and \
        not isinstance(v, (type, tuple, list, dict, BaseException)) and \
        (hasattr(v, "__dict__") or is_record(v))


def object_fields(v):
    if not hasattr(v, "__dict__"):
        return dict(record_items(v))
    # not the caches: they are filled again on demand
    return {k: x for k, x in v.__dict__.items() if not k.startswith("_memoize") and
            not isinstance(getattr(type(v), k, None), functools.cached_property)}


def fn_rebuild(v, parts):
    if plain_object(v):
        r = object.__new__(type(v))
        for k, x in zip(object_fields(v), parts):
            object.__setattr__(r, k, x)
        return r
    if isinstance(v, functools.partial):
        n = 1 + len(v.args)
        return functools.partial(parts[0], *parts[1:n], **dict(zip(v.keywords, parts[n:])))
    nc, nd = len(v.__closure__ or ()), len(v.__defaults__ or ())
    if any(x is not c.cell_contents for x, c in zip(parts, v.__closure__ or ())) and \
            not str(v.__code__.co_filename).startswith(_HERE):
        # a captured variable of the enclosing frame, which later iterations rebind
        raise Unsupported("closure over a variable that the loop changes")
    r = types.FunctionType(v.__code__, v.__globals__, v.__name__,
                           tuple(parts[nc:nc + nd]) or None,
                           tuple(types.CellType(x) for x in parts[:nc]))
    r.__kwdefaults__ = dict(zip(v.__kwdefaults__ or {}, parts[nc + nd:])) or None
    return r


def stub_function(v):
    """a function written in a contract (as opposed to one of the verified code)"""
    return isinstance(v, types.FunctionType) and \
        str(v.__code__.co_filename).startswith(_HERE)


_HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_FN_DEPTH = [0]


def value_terms(v, acc):
    if isinstance(v, (SNum, SBool)):
        acc.append(v.t)
    elif isinstance(v, T.Node):
        acc.append(v)
    elif isinstance(v, (functools.partial, types.FunctionType)) or plain_object(v):
        q = fn_parts(v)
        if q is not None and _FN_DEPTH[0] < 6:
            _FN_DEPTH[0] += 1
            try:
                for x in q[1]:
                    value_terms(x, acc)
            finally:
                _FN_DEPTH[0] -= 1
    elif isinstance(v, SArr):
        idx = tuple(T.var(f"?{k}", "I") for k in range(v.ndim))
        acc.append(v.elem(idx))
        acc.extend(v._shape)
    elif isinstance(v, (tuple, list)) and not isinstance(v, PList):
        for x in v:
            value_terms(x, acc)
    elif is_record(v):
        for _, x in record_items(v):
            value_terms(x, acc)
    elif isinstance(v, SSeq):
        acc.append(v.n)
        if v.n.op == "num" and v.n.args[0] <= 64:
            for i in range(int(v.n.args[0])):
                value_terms(v.get(T.num(i)), acc)
            return acc
        try:
            value_terms(v.get(T.var("?s", "I")), acc)
        except Unsupported:
            pass
    return acc


def value_subst(v, m):
    if isinstance(v, (SNum, SBool)):
        return wrap(T.subst(v.t, m))
    if isinstance(v, T.Node):
        return T.subst(v, m)
    if isinstance(v, (functools.partial, types.FunctionType)) or plain_object(v):
        q = fn_parts(v)
        if q is None or _FN_DEPTH[0] >= 6:
            return v
        keys = set(m)
        if not any(keys & set(t.fv) for t in value_terms(v, []) if isinstance(t, T.Node)):
            return v
        _FN_DEPTH[0] += 1
        try:
            return fn_rebuild(v, [value_subst(x, m) if any(
                keys & set(t.fv) for t in value_terms(x, []) if isinstance(t, T.Node)) else x
                for x in q[1]])
        finally:
            _FN_DEPTH[0] -= 1
    if isinstance(v, SArr):
        if v.dtype == OBJ:
            return v
        src = snapshot(v)
        shape = tuple(T.subst(s, m) for s in v._shape)
        fr = [T.var(f"?{k}", "I") for k in range(v.ndim)]
        return new_array(shape, lambda idx: T.subst(T.subst(src(tuple(fr)), m),
                                                    dict(zip(fr, idx))), v.dtype)
    if isinstance(v, tuple):
        return tuple(value_subst(x, m) for x in v)
    if isinstance(v, PList):
        r = PList()
        st = v.state()
        r.set_state(value_subst(st, m))
        return r
    if isinstance(v, list):
        return PList(value_subst(x, m) for x in v)
    if isinstance(v, SSeq):
        n = T.subst(v.n, m)
        w = T.fresh("q", "I")

        def fn(i):
            return value_subst(value_subst(v.get(w), m), {w: lift(i)})
        return SSeq(n, fn, v.kind)
    if is_record(v) and symbolic_record(v):
        return make_record(v, {k: value_subst(x, m) for k, x in record_items(v)})
    return v

# }}}
