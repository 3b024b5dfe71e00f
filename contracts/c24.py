"""C24: monomials: values, derivatives, integrals."""
import math
from fractions import Fraction
from itertools import product

import numpy as np

from pyvc import terms as T
from pyvc.sym import lift, wrap, snapshot, elemnum
from . import spec as S
from .base import Check
from .c03 import dmono

CHECK = Check(
    "C24", level="proof",
    trusted=["iterated integration over the simplex, integration by parts and the power rule "
             "(the closed forms are proved to satisfy the resulting recurrences)"],
    assumptions=["floating point is treated as real arithmetic; math.factorial(n) is gamma(n+1)",
                 "derivatives are with respect to the unit coordinates of the class's "
                 "documentation, (x+1)/2 of the argument"],
    bounded=["up to six variables (exponents, factor and points arbitrary)"])

TO = "modepy.tools.Monomial."
DIMS = range(0, 7)


def mono(v, W, d):
    to = W.modules["modepy.tools"]
    e = tuple(v.int(f"e{k}", lo=0, sample=lambda r: r.randint(0, 4)) for k in range(d))
    f = v.real("f")
    return to, e, f


def fact(t):
    return T.app("gamma", T.to_real(T.add(lift(t), T.ONE)))


def value(e, f, x):
    """f prod ((x_k + 1)/2)^e_k"""
    return T.mul(lift(f), *[T.pow_(T.div(T.add(y, T.ONE), T.num(2)), lift(k))
                            for k, y in zip(e, x)])


def simplex(e, f):
    n = len(e)
    m = T.add(T.num(0), *[lift(k) for k in e])
    return T.div(T.mul(lift(f), T.num(2**n), *[fact(k) for k in e]),
                 fact(T.add(T.num(n), m)))


def _value(d, shape):
    def h(v, W):
        to, e, f = mono(v, W, d)
        ms = tuple(v.int(f"m{k}", lo=0, sample=lambda r: r.randint(0, 2)) for k in range(shape))
        x = v.array("x", (d, *ms))
        rd = snapshot(x)
        mo = to.Monomial(list(e) if shape == 1 else e, f)
        val = mo(x)
        pre = None
        if shape:
            v.prove_array("factor times the product of powers", val, ms, lambda *i: wrap(value(
                e, f, [rd((T.num(k), *[lift(z) for z in i])) for k in range(d)])), pre=pre)
        else:
            v.prove_eq("factor times the product of powers", wrap(elemnum(val)),
                       wrap(value(e, f, [rd((T.num(k),)) for k in range(d)])))
        for ax in range(d):
            g = mo.diff(ax)
            val = g(x)

            def want(*i, ax=ax):
                y = [T.div(T.add(rd((T.num(k), *[lift(z) for z in i])), T.ONE), T.num(2))
                     for k in range(d)]
                return wrap(T.mul(lift(f), dmono([lift(k) for k in e], y, ax)))
            if shape:
                v.prove_array(f"partial derivative {ax}", val, ms, want)
            else:
                v.prove_eq(f"partial derivative {ax}", wrap(elemnum(val)), want())
        if shape:
            v.prove_array("points unchanged", x, (d, *ms), lambda *i: wrap(
                rd(tuple(lift(z) for z in i))))
        v.prove("exponents unchanged", wrap(T.and_(*[
            T.eq(lift(a), lift(b)) for a, b in zip(mo.exponents, e)]))
            if len(mo.exponents) == d else T.FALSE)
        v.prove_eq("factor unchanged", mo.factor, f)
        v.cover("end")
    return h


for _d in range(1, 5):
    for _s in (0, 1, 2):
        CHECK.vc(f"values and derivatives, {_d} variables, {_s} point axes",
                 functions=[TO + "__call__", TO + "diff", TO + "__init__"])(_value(_d, _s))


def _integrals(d):
    def h(v, W):
        to, e, f = mono(v, W, d)
        mo = to.Monomial(e, f)
        v.prove_eq("integral over the reference simplex", mo.simplex_integral(),
                   wrap(simplex(e, f)))
        v.prove_eq("integral over the hypercube", mo.hypercube_integral(), wrap(T.div(
            lift(f), T.mul(T.ONE, *[T.add(lift(k), T.ONE) for k in e]))))
        mo = to.Monomial(e)
        v.prove_eq("factor one by default: simplex", mo.simplex_integral(),
                   wrap(simplex(e, T.ONE)))
        v.prove_eq("factor one by default: hypercube", mo.hypercube_integral(), wrap(T.div(
            T.ONE, T.mul(T.ONE, *[T.add(lift(k), T.ONE) for k in e]))))
        v.cover("end")
    return h


for _d in DIMS:
    CHECK.vc(f"integrals, {_d} variables", functions=[
        TO + "simplex_integral", TO + "hypercube_integral", TO + "__init__"])(_integrals(_d))


@CHECK.vc("lemma: the closed form over the simplex is the iterated integral")
def _(v, W):
    """on the unit simplex: I_n(e) = int_0^1 x^a (1-x)^(n-1+m) dx I_(n-1)(e'), since the
    section at x_n = x is the simplex scaled by 1 - x; the Beta integral B(a, b) by parts"""
    a, b = (v.int(n, lo=0, sample=lambda r: r.randint(0, 5)) for n in "ab")
    n = v.int("n", lo=1, sample=lambda r: r.randint(1, 4))
    m = v.int("m", lo=0, sample=lambda r: r.randint(0, 5))

    def beta(p, q):
        return T.div(T.mul(fact(p), fact(q)), fact(T.add(lift(p), lift(q), T.ONE)))
    v.prove_eq("B(a, 0)", wrap(beta(a, 0)), wrap(T.div(T.ONE, T.add(lift(a), T.ONE))))
    v.prove_eq("by parts: (a+1) B(a, b+1) = (b+1) B(a+1, b)",
               wrap(T.mul(T.add(lift(a), T.ONE), beta(a, b + 1))),
               wrap(T.mul(T.add(lift(b), T.ONE), beta(a + 1, b))))
    # P stands for the product of the other factorials
    P = v.real("P")
    inner = T.div(lift(P), fact(n - 1 + m))
    whole = T.div(T.mul(lift(P), fact(a)), fact(n + m + a))
    v.prove_eq("section by section", wrap(T.mul(beta(a, n - 1 + m), inner)), wrap(whole))
    v.cover("end")


@CHECK.battery("monomials", functions=[TO + "__call__", TO + "diff", TO + "simplex_integral",
                                       TO + "hypercube_integral"])
def _(B):
    from modepy.tools import Monomial
    rng = B.nprng
    nodes, weights = np.polynomial.legendre.leggauss(12)
    for d in range(1, 5):
        exps = list(product(range(4), repeat=d)) if d < 4 else list(product(range(3), repeat=d))
        for e in exps:
            for f in (1, 2.5, -3, 0, np.float64(0.5)):
                mo = Monomial(e, f)
                s = sum(e)
                want = Fraction(float(f)) * 2**d
                for k in e:
                    want *= math.factorial(k)
                want /= math.factorial(d + s)
                B.close("simplex", mo.simplex_integral(), float(want), 1e-12, 1e-15,
                        exponents=e, factor=float(f))
                want = Fraction(float(f))
                for k in e:
                    want /= k + 1
                B.close("hypercube", mo.hypercube_integral(), float(want), 1e-12, 1e-15,
                        exponents=e, factor=float(f))
                x = rng.uniform(-1, 1, (d, 4))
                x[:, 0] = -1
                x[:, 1] = 1
                keep = x.copy()
                u = (x + 1) / 2
                B.close("value", mo(x), float(f) * np.prod([u[k] ** e[k] for k in range(d)],
                                                           axis=0), 1e-12, 1e-15,
                        exponents=e, factor=float(f))
                B.close("value at a point", mo(x[:, 2]), mo(x)[2], 1e-14, 1e-15, exponents=e,
                        factor=float(f))
                for ax in range(d):
                    dm = mo.diff(ax)
                    want = float(f) * (e[ax] * np.prod(
                        [u[k] ** (e[k] if k != ax else max(e[k] - 1, 0)) for k in range(d)],
                        axis=0))
                    B.close("derivative", dm(x) + np.zeros(4), want, 1e-12, 1e-15, exponents=e,
                            factor=float(f), axis=ax)
                B.equal("unchanged", (mo.exponents, float(mo.factor), bool((x == keep).all())),
                        (tuple(e), float(f), True), exponents=e)
        # against quadrature: hypercube by tensor Gauss-Legendre on [0, 1]
        for e in exps[:: max(1, len(exps) // 20)]:
            mo = Monomial(list(e), 1.5)
            g = np.array(np.meshgrid(*[nodes] * d)).reshape(d, -1)
            w = np.prod(np.array(np.meshgrid(*[weights / 2] * d)).reshape(d, -1), axis=0)
            B.close("hypercube by quadrature", w @ mo(g), mo.hypercube_integral(), 1e-11,
                    1e-13, exponents=e)
            if d <= 3:
                # collapsed coordinates on the unit simplex; mapped to the biunit one
                u = (g + 1) / 2
                lam, jac = [], np.ones(u.shape[1])
                rest = np.ones(u.shape[1])
                for k in range(d):
                    lam.append(rest * u[k])
                    jac = jac * rest
                    rest = rest * (1 - u[k])
                p = 2 * np.array(lam) - 1
                B.close("simplex by quadrature", (w * jac * 2**d) @ mo(p),
                        mo.simplex_integral(), 1e-10, 1e-12, exponents=e)
    # large exponents: the factorials exceed the range of floating point numbers
    for e in ((30,), (12, 25), (7, 9, 11), (170,), (171,), (400,), (90, 100), (60, 80, 50, 1)):
        want = Fraction(2**len(e) * math.prod(map(math.factorial, e)),
                        math.factorial(len(e) + sum(e)))
        for fac in (1, 2, 1.0, 2.5, -0.125, np.float64(3), np.int64(3)):
            r, got = B.call("simplex, large exponents",
                            lambda: Monomial(e, fac).simplex_integral(),   # noqa: B023
                            exponents=e, factor=fac)
            if r:
                B.close("simplex, large exponents", got, float(Fraction(float(fac)) * want),
                        1e-12, 0, exponents=e, factor=fac)
    B.close("no variables", (Monomial(()).simplex_integral(), Monomial((), 3).simplex_integral(),
                             Monomial((), 3).hypercube_integral()), (1, 3, 3), 1e-15, 0)
    # repeated derivatives
    mo = Monomial((3, 2), 2.0)
    x = rng.uniform(-1, 1, (2, 5))
    u = (x + 1) / 2
    B.close("repeated derivative", mo.diff(0).diff(0).diff(1)(x), 2 * 6 * u[0] * 2 * u[1],
            1e-12, 1e-14)
    B.close("derivative beyond the exponent", mo.diff(1).diff(1).diff(1)(x), np.zeros(5), 0, 0)
