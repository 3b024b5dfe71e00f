"""Numeric evaluation of terms (mpmath), used to refute obligations and to build models."""
from __future__ import annotations

import hashlib
from fractions import Fraction

import mpmath

from . import terms as T

mp = mpmath.mp
mp.dps = 40


class Undefined(Exception):
    pass


class Uneval(Exception):
    pass


INTERP = {}
BRANCHES = None         # condition -> outcomes seen, while an obligation is sampled


def interp(name):
    def f(fn):
        INTERP[name] = fn
        return fn
    return f


for _n in ("gamma", "exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "sinh",
           "cosh", "tanh", "asinh", "acosh", "atanh"):
    INTERP[_n] = getattr(mpmath, _n)
INTERP["pi"] = lambda: mpmath.pi()
INTERP["e"] = lambda: mpmath.e()
INTERP["delta"] = lambda i, j: mpmath.mpf(1) if i == j else mpmath.mpf(0)
INTERP["floor"] = lambda x: mpmath.floor(x)


def _hashval(name, args, sort):
    def r(a):
        if isinstance(a, tuple):
            return tuple(r(x) for x in a)
        if isinstance(a, (int, bool)):
            return str(int(a))
        return mpmath.nstr(mpmath.mpf(a), 15)
    key = repr((name, tuple(r(a) for a in args)))
    h = int.from_bytes(hashlib.sha256(key.encode()).digest()[:8], "big")
    if sort == "B":
        return bool(h & 1)
    if sort == "I":
        return h % 7
    return mpmath.mpf(h % 2000003) / 1000001 - mpmath.mpf(1) + mpmath.mpf("0.0137")


def evaluate(n, env, memo=None, limit=400):
    """env: var Node -> number; or name -> callable for uninterpreted functions."""
    if memo is None:
        memo = {}
    return _ev(n, env, memo, limit)


def _ev(n, env, memo, limit):
    r = memo.get(n)
    if r is not None:
        return r
    r = _ev0(n, env, memo, limit)
    memo[n] = r
    return r


def _isint(x):
    return isinstance(x, int) and not isinstance(x, bool)


def _ev0(n, env, memo, limit):
    op = n.op
    a = n.args
    if op == "num":
        f = a[0]
        if f.denominator == 1:
            return int(f)
        return mpmath.mpf(f.numerator) / f.denominator
    if op == "var":
        if n in env:
            return env[n]
        raise Uneval(f"no value for {n}")
    if op == "true":
        return True
    if op == "false":
        return False
    if op == "ite":
        c = _ev(a[0], env, memo, limit)
        if BRANCHES is not None:
            BRANCHES.setdefault(a[0], set()).add(bool(c))
        return _ev(a[1] if c else a[2], env, memo, limit)
    if op == "and":
        return all(_ev(x, env, memo, limit) for x in a)
    if op == "or":
        return any(_ev(x, env, memo, limit) for x in a)
    if op == "not":
        return not _ev(a[0], env, memo, limit)
    if op in ("sum", "prod", "all"):
        lo = _ev(a[1], env, memo, limit)
        hi = _ev(a[2], env, memo, limit)
        if not _isint(lo) or not _isint(hi):
            raise Uneval("bounds")
        if hi - lo > limit:
            raise Uneval("range too large")
        acc = {"sum": 0, "prod": 1, "all": True}[op]
        for i in range(lo, hi):
            e2 = dict(env)
            e2[a[0]] = i
            m2 = {k: v for k, v in memo.items() if a[0] not in k.fv}
            x = _ev(a[3], e2, m2, limit)
            if op == "sum":
                acc = acc + x
            elif op == "prod":
                acc = acc * x
            elif not x:
                return False
        return acc
    if op == "lam":
        # a canonical sample of the function's values
        out = []
        for i in range(3):
            e2 = dict(env)
            e2[a[0]] = i
            m2 = {k: v for k, v in memo.items() if a[0] not in k.fv}
            out.append(_ev(a[1], e2, m2, limit))
        return tuple(out)
    if op == "app":
        args = [_ev(x, env, memo, limit) for x in a[1:]]
        if a[0] in env:
            return env[a[0]](*args)
        f = INTERP.get(a[0])
        if f is not None:
            try:
                return f(*args)
            except (ValueError, ZeroDivisionError, ArithmeticError) as e:
                raise Undefined(str(e)) from None
        return _hashval(a[0], args, n.sort)
    xs = [_ev(x, env, memo, limit) for x in a]
    if op == "add":
        r = 0
        for x in xs:
            r = r + x
        return r
    if op == "mul":
        r = 1
        for x in xs:
            r = r * x
        return r
    if op == "pow":
        b, e = xs
        if _isint(b) and _isint(e):
            if e >= 0:
                if e > 100000:
                    raise Uneval("exponent")
                return b ** e
            if b == 0:
                raise Undefined("0**neg")
            return mpmath.mpf(1) / b ** (-e)
        if b == 0 and e < 0:
            raise Undefined("0**neg")
        r = mpmath.power(b, e)
        if isinstance(r, mpmath.mpc):
            raise Undefined("complex power")
        return r
    if op == "idiv":
        if xs[1] == 0:
            raise Undefined("//0")
        return xs[0] // xs[1]
    if op == "imod":
        if xs[1] == 0:
            raise Undefined("%0")
        return xs[0] % xs[1]
    if op == "lt":
        return bool(xs[0] < xs[1])
    if op == "le":
        return bool(xs[0] <= xs[1])
    if op == "eq":
        return bool(xs[0] == xs[1])
    raise Uneval(op)


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    d = abs(mpmath.mpf(a) - mpmath.mpf(b))
    s = max(1, abs(a), abs(b))
    return d <= s * mpmath.mpf(10) ** -22
