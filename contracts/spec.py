"""Specification functions shared by the contracts (mathematical vocabulary)."""
from __future__ import annotations

import mpmath
import numpy as np

from pyvc import evalt, terms as T
from pyvc.core import cur
from pyvc.sym import SArr, SNum, asarr, is_scalar, lift, new_array, snapshot, wrap, F8

ZERO, ONE, TWO, THREE = (T.num(i) for i in range(4))


def N_(x):
    return T.num(x)


# {{{ Jacobi polynomials

def gam(x):
    return T.app("gamma", x)


def wint(a, b):
    """integral of (1-x)^a (1+x)^b over [-1,1] (Beta function)"""
    return T.div(T.mul(T.pow_(TWO, T.add(a, b, ONE)), gam(T.add(a, ONE)), gam(T.add(b, ONE))),
                 gam(T.add(a, b, TWO)))


def rec_a(a, b, n):
    """diagonal recurrence coefficient of the orthonormal Jacobi family (DLMF 18.9)"""
    s = T.add(T.mul(TWO, n), a, b)
    return T.ite(T.eq(n, ZERO), T.div(T.sub(b, a), T.add(a, b, TWO)),
                 T.div(T.sub(T.mul(b, b), T.mul(a, a)), T.mul(s, T.add(s, TWO))))


def rec_b(a, b, n):
    """off-diagonal coefficient, n >= 1"""
    s = T.add(T.mul(TWO, n), a, b)
    return T.mul(T.div(TWO, s), T.sqrt(T.ite(
        T.eq(n, ONE),
        T.div(T.mul(T.add(a, ONE), T.add(b, ONE)), T.add(a, b, THREE)),
        T.div(T.mul(n, T.add(n, a), T.add(n, b), T.add(n, a, b)),
              T.mul(T.sub(s, ONE), T.add(s, ONE))))))


def SP(a, b, n, x):
    return T.app("SP", a, b, n, x)


def sp_def(v):
    """SP_0 = 1/sqrt(int w);  b_n SP_n = (x - a_{n-1}) SP_{n-1} - b_{n-1} SP_{n-2}"""
    def fn(a, b, n, x):
        if v.entails(T.eq(n, ZERO)):
            return T.div(ONE, T.sqrt(wint(a, b)))
        if v.entails(T.le(ONE, n)):
            m = T.sub(n, ONE)
            return T.div(T.sub(
                T.mul(T.sub(x, rec_a(a, b, m)), SP(a, b, m, x)),
                T.ite(T.eq(n, ONE), ZERO,
                      T.mul(rec_b(a, b, m), SP(a, b, T.sub(n, TWO), x)))), rec_b(a, b, n))
        return None
    return (2, fn)


def _sp_num(a, b, n, x):
    a, b, x = map(mpmath.mpf, (a, b, x))
    n = int(n)
    if n < 0:
        raise evalt.Undefined("SP")
    g = mpmath.gamma
    p = 1 / mpmath.sqrt(mpmath.power(2, a + b + 1) * g(a + 1) * g(b + 1) / g(a + b + 2))
    if n == 0:
        return p
    # exact coefficients, independent of the recurrence under test
    h = (mpmath.power(2, a + b + 1) / (2 * n + a + b + 1) * g(n + a + 1) * g(n + b + 1)
         / (g(n + a + b + 1) * mpmath.factorial(n)))
    s = mpmath.mpf(0)
    for k in range(n + 1):
        s += mpmath.binomial(n + a, n - k) * mpmath.binomial(n + b, k) \
            * ((x - 1) / 2) ** k * ((x + 1) / 2) ** (n - k)
    return s / mpmath.sqrt(h)


def mpmath_hnorm(a, b, n):
    """classical norm of P_n^(a,b)"""
    a, b = mpmath.mpf(a), mpmath.mpf(b)
    g = mpmath.gamma
    if n == 0:
        h = mpmath.power(2, a + b + 1) * g(a + 1) * g(b + 1) / g(a + b + 2)
    else:
        h = (mpmath.power(2, a + b + 1) / (2 * n + a + b + 1) * g(n + a + 1) * g(n + b + 1)
             / (g(n + a + b + 1) * mpmath.factorial(n)))
    return mpmath.sqrt(h)


evalt.INTERP["SP"] = _sp_num


def _dsp_num(a, b, n, x):
    n = int(n)
    if n == 0:
        return mpmath.mpf(0)
    a, b = mpmath.mpf(a), mpmath.mpf(b)
    return mpmath.sqrt(n * (n + a + b + 1)) * _sp_num(a + 1, b + 1, n - 1, x)


evalt.INTERP["DSP"] = _dsp_num


def lift_over(x, f):
    """f on a scalar or elementwise on an array"""
    if is_scalar(x):
        return wrap(f(lift(x)))
    x = asarr(x)
    rd = snapshot(x)
    return new_array(x._shape, lambda idx: f(rd(idx)), F8)


def jacobi_contract(alpha, beta, n, x):
    """requires alpha, beta > -1, n >= 0;  ensures result = SP (elementwise)"""
    v = cur()
    v.prove("precondition of jacobi: alpha > -1", T.lt(N_(-1), lift(alpha)))
    v.prove("precondition of jacobi: beta > -1", T.lt(N_(-1), lift(beta)))
    v.prove("precondition of jacobi: n >= 0", T.le(ZERO, lift(n)))
    a, b, m = lift(alpha), lift(beta), lift(n)
    return lift_over(x, lambda t: SP(a, b, m, t))


def grad_jacobi_contract(alpha, beta, n, x):
    v = cur()
    v.prove("precondition of grad_jacobi: alpha > -1", T.lt(N_(-1), lift(alpha)))
    v.prove("precondition of grad_jacobi: beta > -1", T.lt(N_(-1), lift(beta)))
    v.prove("precondition of grad_jacobi: n >= 0", T.le(ZERO, lift(n)))
    a, b, m = lift(alpha), lift(beta), lift(n)
    return lift_over(x, lambda t: T.app("DSP", a, b, m, t))

# }}}


def small_defs(v):
    """Only degrees 0 and 1 are unfolded."""
    pos, full = sp_def(v)

    def sp(a, b, n, x):
        if v.entails(T.eq(n, ZERO)):
            return full(a, b, ZERO, x)
        if v.entails(T.eq(n, ONE)):
            return full(a, b, ONE, x)
        return None

    def dsp(a, b, n, x):
        if v.entails(T.eq(n, ZERO)):
            return ZERO
        if v.entails(T.eq(n, ONE)):
            return T.div(full(a, b, ZERO, x), rec_b(a, b, ONE))
        return None
    return {"SP": (2, sp), "DSP": (2, dsp)}


def DSP(a, b, n, x):
    return T.app("DSP", a, b, n, x)


def diff(t, u):
    """d t / d u, for terms built from +, *, powers and SP"""
    if u not in t.fv:
        return ZERO
    if t is u:
        return ONE
    if t.op == "add":
        return T.add(*[diff(x, u) for x in t.args])
    if t.op == "mul":
        out = []
        for k, x in enumerate(t.args):
            d = diff(x, u)
            if d is not ZERO:
                out.append(T.mul(*t.args[:k], d, *t.args[k + 1:]))
        return T.add(*out) if out else ZERO
    if t.op == "pow" and u not in t.args[1].fv:
        b, e = t.args
        return T.mul(e, T.pow_(b, T.sub(e, ONE)), diff(b, u))
    if t.op == "app" and t.args[0] == "SP" and not any(u in x.fv for x in t.args[1:4]):
        return T.mul(DSP(*t.args[1:]), diff(t.args[4], u))
    raise NotImplementedError(f"derivative of {t.op}")


# }}}

# {{{ Proriol-Koornwinder-Dubiner polynomials

def half(x):
    return T.div(x, TWO)


def pkdo2(i, j, r, s):
    """generic point (s < 1)"""
    a = T.sub(T.div(T.mul(TWO, T.add(ONE, r)), T.sub(ONE, s)), ONE)
    return T.mul(T.sqrt(TWO), SP(ZERO, ZERO, i, a),
                 SP(T.add(T.mul(TWO, i), ONE), ZERO, j, s), T.pow_(T.sub(ONE, s), i))


def pkdo3(i, j, k, r, s, t):
    a = T.sub(T.div(T.mul(TWO, T.add(ONE, r)), T.neg(T.add(s, t))), ONE)
    b = T.sub(T.div(T.mul(TWO, T.add(ONE, s)), T.sub(ONE, t)), ONE)
    return T.mul(TWO, T.sqrt(TWO), SP(ZERO, ZERO, i, a),
                 SP(T.add(T.mul(TWO, i), ONE), ZERO, j, b), T.pow_(T.sub(ONE, b), i),
                 SP(T.add(T.mul(TWO, T.add(i, j)), TWO), ZERO, k, t),
                 T.pow_(T.sub(ONE, t), T.add(i, j)))


def _lin1(al, be, num_, den):
    """homogenised degree-one Jacobi polynomial: den*SP_1(num/den), as a polynomial"""
    b1 = rec_b(al, be, ONE)
    return T.div(T.mul(T.sub(num_, T.mul(rec_a(al, be, ZERO), den)),
                       T.div(ONE, T.sqrt(wint(al, be)))), b1)


def _const0(al, be):
    return T.div(ONE, T.sqrt(wint(al, be)))


def pkdo2_vertex(i, j, r, s):
    """the polynomial near (-1, 1) for i = 0 or 1 (integers); i >= 2 vanishes to order 2"""
    i_ = N_(i)
    if i == 0:
        h = _const0(ZERO, ZERO)
    else:
        # SP_1(a) (1-s),  a (1-s) = 2(1+r) - (1-s)
        h = _lin1(ZERO, ZERO, T.sub(T.mul(TWO, T.add(ONE, r)), T.sub(ONE, s)), T.sub(ONE, s))
    return T.mul(T.sqrt(TWO), h, SP(T.add(T.mul(TWO, i_), ONE), ZERO, j, s))


def pkdo3_edge(i, j, k, r, s, t):
    """near the edge r = -1, s + t = 0 (t < 1), for i = 0 or 1 (integer)"""
    i_ = N_(i)
    b = T.sub(T.div(T.mul(TWO, T.add(ONE, s)), T.sub(ONE, t)), ONE)
    if i == 0:
        h = _const0(ZERO, ZERO)
    else:
        # SP_1(a) (1-b)(1-t) = 2 SP_1(a) w,  w = -(s+t),  a w = 2(1+r) - w
        w = T.neg(T.add(s, t))
        h = T.mul(TWO, _lin1(ZERO, ZERO, T.sub(T.mul(TWO, T.add(ONE, r)), w), w))
    return T.mul(TWO, T.sqrt(TWO), h, SP(T.add(T.mul(TWO, i_), ONE), ZERO, j, b),
                 T.pow_(T.sub(ONE, t), j),
                 SP(T.add(T.mul(TWO, T.add(i_, j)), TWO), ZERO, k, t))


def pkdo3_vertex(i, j, k, r, s, t):
    """near (-1,-1,1), for (i, j) in (0,0), (1,0), (0,1)"""
    c = T.mul(TWO, T.sqrt(TWO))
    if i == 0 and j == 0:
        g = T.mul(_const0(ZERO, ZERO), _const0(ONE, ZERO))
    elif i == 1:
        w = T.neg(T.add(s, t))
        g = T.mul(TWO, _lin1(ZERO, ZERO, T.sub(T.mul(TWO, T.add(ONE, r)), w), w),
                  _const0(THREE, ZERO))
    else:
        # SP_1(b) (1-t),  b (1-t) = 2(1+s) - (1-t)
        u = T.sub(ONE, t)
        g = T.mul(_const0(ZERO, ZERO),
                  _lin1(ONE, ZERO, T.sub(T.mul(TWO, T.add(ONE, s)), u), u))
    return T.mul(c, g, SP(N_(2 * (i + j) + 2), ZERO, k, t))


def ref_pkdo(dim, order, p):
    """independent high-precision reference value (polynomial form; any point)"""
    return _ref_core(dim, order, [mpmath.mpf(float(t)) for t in p])


def ref_pkdo_grad(dim, order, p):
    """gradient of ref_pkdo by high-order central differences in extended precision"""
    m = mpmath
    out = []
    for ax in range(dim):
        def f(h, ax=ax):
            q = [m.mpf(float(t)) for t in p]
            q[ax] += h
            return _ref_core(dim, order, q)
        out.append(m.diff(f, 0))
    return out


def _ref_core(dim, order, x):
    m = mpmath

    def homog(al, be, n, num_, den):
        g = m.gamma
        h = (m.power(2, al + be + 1) / (2 * n + al + be + 1) * g(n + al + 1) * g(n + be + 1)
             / (g(n + al + be + 1) * m.factorial(n)))
        s = m.mpf(0)
        for q in range(n + 1):
            s += m.binomial(n + al, n - q) * m.binomial(n + be, q) \
                * ((num_ - den) / 2) ** q * ((num_ + den) / 2) ** (n - q)
        return s / m.sqrt(h)
    if dim == 1:
        return homog(0, 0, order[0], x[0], m.mpf(1))
    if dim == 2:
        i, j = order
        r, s = x
        return m.sqrt(2) * homog(0, 0, i, 2 * (1 + r) - (1 - s), 1 - s) \
            * homog(2 * i + 1, 0, j, s, m.mpf(1))
    i, j, k = order
    r, s, t = x
    w, u = -(s + t), 1 - t
    return (2 * m.sqrt(2) * m.mpf(2) ** i * homog(0, 0, i, 2 * (1 + r) - w, w)
            * homog(2 * i + 1, 0, j, 2 * (1 + s) - u, u)
            * homog(2 * (i + j) + 2, 0, k, t, m.mpf(1)))

# }}}
