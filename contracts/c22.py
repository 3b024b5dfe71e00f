"""C22: tools for constructing quadrature rules."""
import warnings

import numpy as np

from pyvc import evalt, terms as T
from pyvc.norm import canon
from pyvc.runtime import _delta
from pyvc.sym import SSeq, lift, wrap, new_array, snapshot, F8
from .base import Check
from .linear import Fns, vdm_stub, sums

CHECK = Check(
    "C22", level="proof",
    trusted=["numpy.linalg.cholesky by contract: lower-triangular L with L L^H equal to the "
             "Hermitian matrix whose lower triangle is given; scipy's solve_triangular by "
             "contract: the inverse of L; numpy.linalg.lstsq by contract: the minimum-norm "
             "least-squares solution of its arguments; numpy.linalg.eigvals by contract",
             "vandermonde by contract (C07)"],
    assumptions=["complex numbers are elements of a commutative ring with an uninterpreted "
                 "conjugation", "functions are pure; integrals are sums over a rule's nodes"],
    bounded=["nested linear combinations: up to three combinations of bases with up to three "
             "functions, in every arrangement of common bases (coefficients and nodes "
             "arbitrary)"])

CO = "modepy.quadrature.construction."

evalt.interp("conj")(lambda x: x)
evalt.interp("re")(lambda x: x)
evalt.interp("im")(lambda x: x * 0)


def conj(t):
    return T.app("conj", t)


class Fns1(Fns):
    """functions of a single array of m complex points"""

    def __init__(self, name, n):
        super().__init__(name, n, 1)

    def call(self, j):
        return lambda x: self._vals(j, x)

    def _vals(self, j, x):
        rd = snapshot(x)
        return new_array(x.shape, lambda i: self.val(j, rd(i)), F8)

    def val(self, j, xt):
        return T.app(self.name, lift(j), xt)


def size(v, name, lo=0, hi=3):
    return v.int(name, lo=lo, sample=lambda r: r.randint(lo, hi))


# {{{ integrands

@CHECK.vc("products, conjugates and the identity", functions=[
    CO + "_ProductIntegrand.__call__", CO + "_ConjugateIntegrand.__call__",
    CO + "_identity_integrand"])
def _(v, W):
    co = W.modules["modepy.quadrature.construction"]
    v.complex_values = True
    m = size(v, "m")
    x = v.array("x", (m,))
    rx = snapshot(x)
    F = Fns1("F", 3)
    f = [F.call(T.num(j)) for j in range(3)]
    val = [lambda i, j=j: F.val(T.num(j), rx((lift(i),))) for j in range(3)]
    v.prove_array("product of one", co._ProductIntegrand((f[0],))(x), (m,),
                  lambda i: wrap(val[0](i)))
    v.prove_array("product of two", co._ProductIntegrand((f[0], f[1]))(x), (m,),
                  lambda i: wrap(T.mul(val[0](i), val[1](i))))
    v.prove_array("product of three", co._ProductIntegrand((f[0], f[1], f[2]))(x), (m,),
                  lambda i: wrap(T.mul(val[0](i), val[1](i), val[2](i))))
    v.prove_array("conjugate", co._ConjugateIntegrand(f[1])(x), (m,),
                  lambda i: wrap(conj(val[1](i))))
    v.prove_array("times the conjugate",
                  co._ProductIntegrand((f[0], co._ConjugateIntegrand(f[1])))(x), (m,),
                  lambda i: wrap(T.mul(val[0](i), conj(val[1](i)))))
    v.prove_array("identity", co._identity_integrand(x), (m,),
                  lambda i: wrap(rx((lift(i),))))
    v.prove_array("points unchanged", x, (m,), lambda i: wrap(rx((lift(i),))))
    v.cover("end")


@CHECK.vc("integrands of the real plane on complex points", functions=[
    CO + "adapt_2d_integrands_to_complex_arg", CO + "_ComplexToNDAdapter.__call__"])
def _(v, W):
    co = W.modules["modepy.quadrature.construction"]
    v.complex_values = True
    m = size(v, "m", lo=1)
    x = v.array("x", (m,))
    rx = snapshot(x)

    def f(k):
        def g(p):
            v.prove_eq("real and imaginary part are the two coordinates", p.shape[0], 2)
            rp = snapshot(p)
            return new_array(p.shape[1:], lambda i: T.app(
                f"f{k}", rp((T.num(0), *i)), rp((T.num(1), *i))), F8)
        return g
    for n in (0, 1, 3):
        fs = co.adapt_2d_integrands_to_complex_arg([f(k) for k in range(n)])
        v.prove(f"one function per function ({n})", T.TRUE if len(fs) == n else T.FALSE)
        for k in range(n):
            v.prove_array("value at the real and imaginary part", fs[k](x), (m,),
                          lambda i, k=k: wrap(T.app(
                              f"f{k}", T.app("re", rx((lift(i),))),
                              T.app("im", rx((lift(i),))))))
    v.cover("end")


@CHECK.vc("a linear combination of any number of functions", functions=[
    CO + "LinearCombinationIntegrand.__call__"])
def _(v, W):
    co = W.modules["modepy.quadrature.construction"]
    n, m = size(v, "n", lo=1), size(v, "m")
    x = v.array("x", (m,))
    rx = snapshot(x)
    c = v.array("c", (n,))
    rc = snapshot(c)
    F = Fns1("F", n)
    lc = co.LinearCombinationIntegrand(c, F)
    v.prove_array("sum of coefficients times functions", lc(x), (m,), lambda i: wrap(
        sums([n], lambda k: T.mul(rc((k,)), F.val(k, rx((lift(i),)))))))
    v.cover("end")


def _flat(n):
    def h(v, W):
        co = W.modules["modepy.quadrature.construction"]
        m = size(v, "m")
        x = v.array("x", (m,))
        rx = snapshot(x)
        c = v.array("c", (n,))
        rc = snapshot(c)
        F = Fns1("F", n)
        lc = co.linearly_combine(c, [F.call(T.num(j)) for j in range(n)])
        v.prove("one coefficient per function", T.TRUE if len(lc.functions) == n else T.FALSE)
        if n:
            v.prove_array("value", lc(x), (m,), lambda i: wrap(T.add(T.num(0), *[
                T.mul(rc((T.num(k),)), F.val(T.num(k), rx((lift(i),)))) for k in range(n)])))
        v.prove_array("coefficients unchanged", c, (n,), lambda k: wrap(rc((lift(k),))))
        v.cover("end")
    return h


for _n in (1, 2, 3, 4):
    CHECK.vc(f"linearly_combine {_n} functions", functions=[
        CO + "linearly_combine", CO + "LinearCombinationIntegrand.__call__"])(_flat(_n))


def _nested(bases, mixed=()):
    """combine len(bases) combinations; the k-th combines the functions numbered bases[k];
    indices of plain functions in mixed"""
    def h(v, W):
        co = W.modules["modepy.quadrature.construction"]
        m = size(v, "m")
        x = v.array("x", (m,))
        rx = snapshot(x)
        n = len(bases)
        c = v.array("c", (n,))
        rc = snapshot(c)
        F = Fns1("F", 4)
        f = [F.call(T.num(j)) for j in range(4)]
        cs = [v.array(f"c{k}", (len(b),)) for k, b in enumerate(bases)]
        rcs = [snapshot(a) for a in cs]
        inner = [f[b[0]] if k in mixed else
                 co.LinearCombinationIntegrand(cs[k], [f[j] for j in b])
                 for k, b in enumerate(bases)]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            lc = co.linearly_combine(c, inner)

        def want(i):
            t = T.num(0)
            for k, b in enumerate(bases):
                if k in mixed:
                    s = F.val(T.num(b[0]), rx((lift(i),)))
                else:
                    s = T.num(0)
                    for q, j in enumerate(b):
                        s = T.add(s, T.mul(rcs[k]((T.num(q),)),
                                           F.val(T.num(j), rx((lift(i),)))))
                t = T.add(t, T.mul(rc((T.num(k),)), s))
            return wrap(t)
        v.prove_array("value", lc(x), (m,), want)
        for k, b in enumerate(bases):
            v.prove_array("inner coefficients unchanged", cs[k], (len(b),),
                          lambda q, k=k: wrap(rcs[k]((lift(q),))))
        v.prove_array("coefficients unchanged", c, (n,), lambda k: wrap(rc((lift(k),))))
        v.cover("end")
    return h


_BASES = [[[0]], [[0, 1]], [[0], [0]], [[0], [0, 1]], [[0, 1], [0]], [[0, 1], [0, 1]],
          [[0, 1], [1, 0]], [[0], [1]], [[0, 1], [2]], [[0], [0, 1], [0, 1, 2]],
          [[0, 1, 2], [0, 1], [0]], [[0, 1], [0], [0, 1, 2]], [[0, 1], [0, 2]],
          [[0, 1, 2], [0, 1, 2], [0, 1, 2]], [[0, 0], [0, 0]], [[0], [0, 1], [0, 2]],
          [[0, 1], [0, 1], [1]]]
for _b in _BASES:
    CHECK.vc(f"linearly_combine combinations of {_b}", functions=[
        CO + "linearly_combine", CO + "LinearCombinationIntegrand.__call__"])(_nested(_b))
for _b, _m in [([[0, 1], [2]], (1,)), ([[2], [0, 1]], (0,)), ([[0], [1, 2], [3]], (0, 2))]:
    CHECK.vc(f"linearly_combine combinations of {_b}, some plain", functions=[
        CO + "linearly_combine", CO + "LinearCombinationIntegrand.__call__"])(_nested(_b, _m))

# }}}


# {{{ mass matrix, orthogonalisation, multiplication matrix

def rule(v):
    """integrate against an arbitrary rule with any number of (complex) nodes"""
    m = size(v, "m", lo=1)
    x, w = v.array("x", (m,)), v.array("w", (m,))
    rx, rw = snapshot(x), snapshot(w)

    def integrate(f):
        val = f(x)
        rv = snapshot(val)
        return wrap(sums([m], lambda k: T.mul(rw((k,)), rv((k,)))))

    def inner(*fs):
        return sums([m], lambda k: T.mul(rw((k,)), *[f(rx((k,))) for f in fs]))
    return integrate, inner


@CHECK.vc("mass matrix", functions=[CO + "_mass_matrix"])
def _(v, W):
    co = W.modules["modepy.quadrature.construction"]
    v.complex_values = True
    integrate, inner = rule(v)
    n = size(v, "n", lo=1)
    F = Fns1("F", n)
    M = co._mass_matrix(integrate, F)
    v.prove_eq("rows", M.shape[0], n)
    v.prove_eq("columns", M.shape[1], n)
    i, j = size(v, "i"), size(v, "j")
    v.assume(wrap(T.and_(T.lt(lift(i), lift(n)), T.le(lift(j), lift(i)))))
    v.prove_eq("lower triangle holds the inner products", M[i, j], wrap(
        inner(lambda x: F.val(i, x), lambda x: conj(F.val(j, x)))))
    v.cover("end")


class ScipyLinalg:
    def __init__(self, v, fn):
        self.solve_triangular = fn


@CHECK.vc("orthogonalize_basis", functions=[CO + "orthogonalize_basis"],
          uses=[CO + "_mass_matrix", CO + "linearly_combine"])
def _(v, W):
    co = W.modules["modepy.quadrature.construction"]
    v.complex_values = True
    n, m = size(v, "n", lo=1), size(v, "m")
    F = Fns1("F", n)
    integrate = object()

    def mass(integ, basis):
        v.prove("mass matrix of the given basis and integral",
                T.TRUE if integ is integrate and basis is F else T.FALSE)
        return new_array((n, n), lambda i: T.app("M", *i), F8)

    def cholesky(a):
        v.prove_array("the mass matrix is factored", a, (n, n),
                      lambda i, j: wrap(T.app("M", lift(i), lift(j))),
                      pre=lambda i, j: [wrap(T.le(lift(j), lift(i)))])
        return new_array(a.shape, lambda i: T.ite(
            T.le(i[1], i[0]), T.app("L", *i), T.num(0)), F8)

    def linv(i):
        return T.ite(T.le(i[1], i[0]), T.app("X", *i), T.num(0))

    def solve_triangular(a, b, lower=False):
        v.prove_array("the factor is inverted", a, (n, n), lambda i, j: wrap(T.ite(
            T.le(lift(j), lift(i)), T.app("L", lift(i), lift(j)), T.num(0))))
        v.prove_array("right-hand side one", b, (n, n),
                      lambda i, j: wrap(_delta(lift(i), lift(j))))
        v.prove("as lower triangular", T.TRUE if lower is True else T.FALSE)
        return new_array(a.shape, linv, F8)

    def inv(a):
        return solve_triangular(a, W.np.eye(n), lower=True)

    def combine(c, fs):
        # contract of linearly_combine
        rc = snapshot(c)
        k = c.shape[0]
        v.prove_eq("as many coefficients as functions", k, W.modules["modepy"].__builtins__[
            "len"](fs))

        def f(x):
            rd = snapshot(x)
            r2 = rc

            def at(i):
                u = T.fresh("u", "I")
                T.RANGES[u] = (T.num(0), lift(k))
                t = T.mul(r2((u,)), snapshot(fs.get(u)(x))(i))
                return T.binder("sum", u, T.num(0), lift(k), t)
            return new_array(x.shape, at, F8)
        return f
    W.patch(CO + "_mass_matrix", mass)
    W.patch(CO + "linearly_combine", combine)
    W.la.cholesky = cholesky
    W.la.inv = inv
    W.overrides["scipy.linalg"] = ScipyLinalg(v, solve_triangular)
    res = co.orthogonalize_basis(integrate, F)
    x = v.array("p", (m,))
    rx = snapshot(x)
    blen = W.modules["modepy"].__builtins__["len"]
    v.prove_eq("one function per basis function", blen(res), n)
    i = size(v, "i")
    v.assume(i < n)
    v.prove_array("row i of the inverse factor combines the basis", res[i](x), (m,),
                  lambda k: wrap(sums([T.add(lift(i), T.num(1))], lambda q: T.mul(
                      T.app("X", lift(i), q), F.val(q, rx((lift(k),)))))))
    v.cover("end")


@CHECK.vc("lemma: the inverse Cholesky factor orthonormalises, and is undone by the factor",
          functions=[CO + "orthogonalize_basis"])
def _(v, W):
    n = size(v, "n", lo=1)
    # L, its conjugate, their inverses (conj(inv(L)) = inv(conj(L)))
    L = new_array((n, n), lambda i: T.app("L", *i), F8)
    Lc = new_array((n, n), lambda i: conj(T.app("L", *i)), F8)
    X, Xc = snapshot(W.la.inv(L)), snapshot(W.la.inv(Lc))
    i, j = size(v, "i"), size(v, "j")
    v.assume(wrap(T.and_(T.lt(lift(i), lift(n)), T.lt(lift(j), lift(n)))))
    # inner product of the combinations with M = L L^H
    got = sums([n, n, n], lambda k, q, m: T.mul(
        X((lift(i), k)), T.app("L", k, m), conj(T.app("L", q, m)), Xc((lift(j), q))))
    v.prove_eq("orthonormal", wrap(got), wrap(_delta(lift(i), lift(j))))
    # sum_k L(i, k) psi_k = phi_i
    back = sums([n, n], lambda k, q: T.mul(T.app("L", lift(i), k), X((k, q)),
                                           T.app("phi", q)))
    v.prove_eq("same span", wrap(back), wrap(T.app("phi", lift(i))))
    v.cover("end")


@CHECK.vc("guess_nodes_vioreanu_rokhlin", functions=[CO + "guess_nodes_vioreanu_rokhlin"])
def _(v, W):
    co = W.modules["modepy.quadrature.construction"]
    v.complex_values = True
    integrate, inner = rule(v)
    n = size(v, "n", lo=1)
    F = Fns1("F", n)

    def eigvals(a):
        v.prove_array("the multiplication matrix on the span", a, (n, n),
                      lambda i, j: wrap(inner(lambda x: x, lambda x: F.val(lift(i), x),
                                              lambda x: conj(F.val(lift(j), x)))))
        return new_array((n,), lambda i: T.app("lam", *i), F8)
    W.la.eigvals = eigvals
    r = co.guess_nodes_vioreanu_rokhlin(integrate, F)
    v.prove_array("its eigenvalues", r, (n,), lambda i: wrap(T.app("lam", lift(i))))
    v.cover("end")

# }}}


# {{{ moment equations

def _weights(d):
    def h(v, W):
        co = W.modules["modepy.quadrature.construction"]
        W.modules["modepy"].vandermonde = vdm_stub
        n, m = size(v, "n"), size(v, "m", lo=1)
        x = v.array("x", (d, m))
        rx = snapshot(x)
        b = v.array("b", (n,))
        rb = snapshot(b)
        F = Fns("F", n, d)

        def lstsq(a, rhs, *args, **kw):
            v.prove_array("the moment matrix", a, (n, m),
                          lambda i, k: wrap(F.at(rx, lift(i), lift(k))))
            v.prove_array("the reference integrals", rhs, (n,), lambda i: wrap(rb((lift(i),))))
            return (new_array((m,), lambda k: T.app("w", *k), F8), None, None, None)
        W.la.lstsq = lstsq
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            w = co.find_weights_undetermined_coefficients(F, x, b)
        v.prove_array("its least-squares solution", w, (m,),
                      lambda k: wrap(T.app("w", lift(k))))
        v.prove_array("nodes unchanged", x, (d, m), lambda k, i: wrap(rx((lift(k), lift(i)))))
        n2 = size(v, "n2")
        v.assume(wrap(T.not_(T.eq(lift(n2), lift(n)))))
        try:
            co.find_weights_undetermined_coefficients(Fns("F", n2, d), x, b)
        except ValueError:
            v.ok("a different number of integrals is rejected")
        else:
            v.fail("a different number of integrals is rejected")
        v.cover("end")
    return h


class DFns(list):
    """one sequence of functions per axis"""


def _residual(d, flat=False):
    def h(v, W):
        co = W.modules["modepy.quadrature.construction"]
        W.modules["modepy"].vandermonde = vdm_stub
        n, m = size(v, "n", lo=1), size(v, "m", lo=1)
        sh = (m,) if flat else (d, m)
        x = v.array("x", sh)
        w, b = v.array("w", (m,)), v.array("b", (n,))
        rx, rw, rb = snapshot(x), snapshot(w), snapshot(b)
        if flat:
            F, G = Fns1("F", n), [Fns1("G0", n)]

            def at(f, j, k):
                return f.val(lift(j), rx((lift(k),)))
            W.modules["modepy"].vandermonde = lambda fs, nodes: new_array(
                (m, n), lambda i: fs.val(i[1], snapshot(nodes)((i[0],))), F8)
        else:
            F, G = Fns("F", n, d), [Fns(f"G{a}", n, d) for a in range(d)]

            def at(f, j, k):
                return f.at(rx, lift(j), lift(k))
        q = co.quad_residual_and_jacobian(x, w, F, G, b)
        v.prove_array("residual: moments minus reference", q.residual, (n,), lambda i: wrap(
            T.sub(sums([m], lambda k: T.mul(at(F, i, k), rw((k,)))), rb((lift(i),)))))
        v.prove_array("derivative with respect to the weights", q.dresid_dweights, (n, m),
                      lambda i, k: wrap(at(F, i, k)))
        v.prove_eq("rows", q.dresid_dnodes.shape[0], n)
        v.prove_eq("a column for each coordinate of each node", q.dresid_dnodes.shape[1],
                   wrap(T.mul(T.num(d), lift(m))))
        i, k = size(v, "i"), size(v, "k")
        v.assume(wrap(T.and_(T.lt(lift(i), lift(n)), T.lt(lift(k), lift(m)))))
        for a in range(d):
            col = wrap(T.add(T.mul(T.num(a), lift(m)), lift(k)))
            v.prove_eq(f"derivative with respect to coordinate {a} of a node",
                       q.dresid_dnodes[i, col], wrap(T.mul(at(G[a], i, k), rw((lift(k),)))))
        v.prove_array("weights unchanged", w, (m,), lambda i: wrap(rw((lift(i),))))
        v.prove_array("integrals unchanged", b, (n,), lambda i: wrap(rb((lift(i),))))
        v.prove_array("nodes unchanged", x, sh,
                      lambda *i: wrap(rx(tuple(lift(z) for z in i))))
        for wrong in (G[:-1], [*G, G[0]]):
            try:
                co.quad_residual_and_jacobian(x, w, F, wrong, b)
            except ValueError:
                v.ok("a wrong number of axes is rejected")
            else:
                v.fail("a wrong number of axes is rejected")
        v.cover("end")
    return h


def _gn(d):
    def h(v, W):
        co = W.modules["modepy.quadrature.construction"]
        n, m = size(v, "n", lo=1), size(v, "m", lo=1)
        r, jw = v.array("r", (n,)), v.array("jw", (n, m))
        jx = v.array("jx", (n, wrap(T.mul(T.num(d), lift(m)))))
        rr, rw, rx = snapshot(r), snapshot(jw), snapshot(jx)
        tot = wrap(T.mul(T.num(d + 1), lift(m)))

        def lstsq(a, rhs, *args, **kw):
            v.prove_eq("rows of the system", a.shape[0], n)
            v.prove_eq("columns of the system", a.shape[1], tot)
            i, k = size(v, "i"), size(v, "k")
            v.assume(wrap(T.and_(T.lt(lift(i), lift(n)), T.lt(lift(k), lift(m)))))
            v.prove_eq("weights first", a[i, k], jw[i, k])
            for ax in range(d):
                v.prove_eq(f"then axis {ax}",
                           a[i, wrap(T.add(T.mul(T.num(ax + 1), lift(m)), lift(k)))],
                           jx[i, wrap(T.add(T.mul(T.num(ax), lift(m)), lift(k)))])
            rs = snapshot(rhs)
            v.prove_eq("right-hand side", rhs.shape[0], n)
            # J s = +-r; the sign is the caller's, see below
            sgn.append(rs((lift(i),)))
            v.i0 = i
            return (new_array((tot,), lambda k: T.app("s", *k), F8), None, None, None)
        sgn = []
        W.la.lstsq = lstsq
        dw, dx = co.quad_gauss_newton_increment(
            co.QuadratureResidualJacobian(residual=r, dresid_dweights=jw, dresid_dnodes=jx))
        # the least-squares solution is linear in the right-hand side: solution for -r is minus
        # the solution for r
        neg = canon(T.sub(sgn[0], rr((lift(v.i0),)))) is canon(T.num(0))
        e = -1 if neg else 1
        v.prove_eq("the residual is the right-hand side", wrap(sgn[0]),
                   wrap(T.mul(T.num(-e), rr((lift(v.i0),)))))
        v.prove_array("weights part", dw, (m,), lambda k: wrap(
            T.mul(T.num(e), T.app("s", lift(k)))))
        v.prove_array("nodes part", dx, (d, m), lambda a, k: wrap(T.mul(T.num(e), T.app(
            "s", T.add(T.mul(T.add(lift(a), T.num(1)), lift(m)), lift(k))))))
        v.cover("end")
    return h


for _d in (1, 2, 3):
    CHECK.vc(f"find_weights_undetermined_coefficients {_d}d", functions=[
        CO + "find_weights_undetermined_coefficients"],
        uses=["modepy.matrices.vandermonde"])(_weights(_d))
    CHECK.vc(f"quad_residual_and_jacobian {_d}d", functions=[
        CO + "quad_residual_and_jacobian"],
        uses=["modepy.matrices.vandermonde"])(_residual(_d))
    CHECK.vc(f"quad_gauss_newton_increment {_d}d", functions=[
        CO + "quad_gauss_newton_increment"])(_gn(_d))
CHECK.vc("quad_residual_and_jacobian, nodes of shape (nnodes,)", functions=[
    CO + "quad_residual_and_jacobian"], uses=["modepy.matrices.vandermonde"])(
        _residual(1, flat=True))

# }}}


# {{{ battery

def _pool():
    return [lambda x: np.ones_like(x), lambda x: x, lambda x: x * x, lambda x: np.exp(1j * x),
            lambda x: np.conj(x) * x, lambda x: np.sin(x)]


@CHECK.battery("linear combinations", functions=[
    CO + "linearly_combine", CO + "LinearCombinationIntegrand.__call__",
    CO + "_ProductIntegrand.__call__", CO + "_ConjugateIntegrand.__call__",
    CO + "adapt_2d_integrands_to_complex_arg"])
def _(B):
    from modepy.quadrature import construction as co
    rng, nr = B.rng, B.nprng
    pool = _pool()

    def coeffs(n):
        kind = rng.choice(["real", "complex", "int", "f32"])
        c = nr.uniform(-2, 2, n)
        if kind == "complex":
            return c + 1j * nr.uniform(-1, 1, n)
        if kind == "int":
            return nr.randint(-3, 4, n)
        return c.astype(np.float32) if kind == "f32" else c

    def value(t, x):
        """t: a pool function's number, or (coefficients, list of t)"""
        if isinstance(t, int):
            return pool[t](x)
        return sum((ci * value(u, x) for ci, u in zip(*t)), np.zeros_like(x))

    def build(t):
        if isinstance(t, int):
            return pool[t]
        fs = [build(u) for u in t[1]]
        return co.linearly_combine(t[0], fs)

    def tree(depth, style):
        n = rng.randint(1, 4)
        if depth == 0:
            js = list(range(n)) if style == "prefix" else [rng.randrange(6) for _ in range(n)]
            return (coeffs(n), js)
        return (coeffs(n), [rng.randrange(6) if style == "mixed" and rng.random() < .4 else
                            tree(depth - 1 - (style == "ragged" and rng.random() < .3
                                              and depth > 1), style) for _ in range(n)])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for it in range(400 if not B.thorough else 4000):
            style = rng.choice(["prefix", "prefix", "any", "mixed", "ragged"])
            t = tree(rng.randint(0, 3), style)
            x = nr.uniform(-1, 1, 5) + (1j * nr.uniform(-1, 1, 5) if it % 2 else 0)
            x = x.astype(complex)
            ok, f = B.call("linearly_combine", lambda: build(t), tree=repr(t)[:300])
            if not ok:
                continue
            want = value(t, x)
            B.close("value of the combination", f(x), want, 1e-12, 1e-11, tree=repr(t)[:300])
            B.equal("as many coefficients as functions", len(f.coefficients),
                    len(f.functions), tree=repr(t)[:300])
        # coefficients are not modified, nor those of the combined
        c = np.array([2., 3.])
        inner = [co.linearly_combine(np.array([1., 2.]), pool[:2]) for _ in range(2)]
        f = co.linearly_combine(c, inner)
        B.equal("coefficients", (list(c), [list(g.coefficients) for g in inner]),
                ([2., 3.], [[1., 2.]] * 2))
        B.equal("basis of the combined", [len(g.functions) for g in inner], [2, 2])
    x = nr.uniform(-1, 1, 6) + 1j * nr.uniform(-1, 1, 6)
    r = B.private(co, "_ProductIntegrand", tuple(pool))
    if r is not None:
        B.close("product", r(x), np.prod([p(x) for p in pool], axis=0), 1e-13, 1e-13)
    r = B.private(co, "_ConjugateIntegrand", pool[3])
    if r is not None:
        B.close("conjugate", r(x), np.conj(pool[3](x)), 0, 0)
    g = co.adapt_2d_integrands_to_complex_arg([lambda p: p[0] - 3 * p[1], lambda p: p[1] * p[0]])
    B.close("complex argument", np.array([h(x) for h in g]),
            np.array([x.real - 3 * x.imag, x.real * x.imag]), 1e-14, 1e-14)


@CHECK.battery("orthogonalisation and node guesses", functions=[
    CO + "orthogonalize_basis", CO + "_mass_matrix", CO + "guess_nodes_vioreanu_rokhlin"])
def _(B):
    import modepy as mp
    from modepy.modes import monomial_basis_for_space, orthonormal_basis_for_space
    from modepy.quadrature import construction as co
    nr = B.nprng

    def check(tag, fs, nodes, weights, cplx):
        def integrate(f):
            return weights @ f(nodes)
        n = len(fs)
        V = np.array([f(nodes) for f in fs])
        cond = np.linalg.cond((V * weights) @ V.conj().T)
        tol = 1e-14 * max(cond, 100)
        ok, ob = B.call("orthogonalize_basis", lambda: co.orthogonalize_basis(integrate, fs),
                        case=tag)
        if not ok:
            return None
        B.equal("as many functions", len(ob), n, case=tag)
        O = np.array([f(nodes) for f in ob])
        B.close("orthonormal under the rule", (O * weights) @ O.conj().T, np.eye(n), tol, tol,
                case=tag)
        C = np.linalg.lstsq(V.T, O.T, rcond=None)[0]
        B.close("combinations of the basis", C.T @ V, O, tol, tol, case=tag)
        C = np.linalg.lstsq(O.T, V.T, rcond=None)[0]
        B.close("the basis is recovered", C.T @ O, V, tol * 10, tol * 10, case=tag)
        return ob

    for d, o in [(1, 1), (1, 4), (2, 1), (2, 3), (2, 5), (3, 2)]:
        for sh, sp in [(mp.Simplex(d), mp.PN(d, o))] + (
                [(mp.Hypercube(d), mp.QN(d, o))] if d == 2 and o < 4 else []):
            q = mp.quadrature_for_space(mp.QN(d, 2 * o + 2) if isinstance(sh, mp.Hypercube)
                                        else mp.PN(d, 2 * o + 2), sh)
            fs = list(monomial_basis_for_space(sp, sh).functions)
            check(f"monomials {sp!r}", fs, q.nodes, q.weights, False)
            A = nr.uniform(-1, 1, (len(fs), len(fs))) + 2 * np.eye(len(fs))
            mixed = co.linearly_combine
            check(f"mixed {sp!r}", [mixed(a, fs) for a in A], q.nodes, q.weights, False)
            A = A + 1j * nr.uniform(-1, 1, A.shape)
            check(f"complex mixed {sp!r}", [mixed(a, fs) for a in A], q.nodes, q.weights, True)
            # positive weights that make no quadrature
            w = nr.uniform(.5, 1.5, len(q.weights))
            check(f"other weights {sp!r}", fs, q.nodes, w, False)
    # complex powers, one complex variable
    q = mp.quadrature_for_space(mp.PN(2, 12), mp.Simplex(2))
    z = q.nodes[0] + 1j * q.nodes[1]
    check("complex powers", [lambda x, k=k: x ** k for k in range(4)], z, q.weights, True)
    check("complex powers and conjugates", [lambda x: x ** 0, lambda x: x, np.conj,
                                            lambda x: x * x, lambda x: np.conj(x) * x],
          z, q.weights, True)
    # twice is the identity up to rounding
    for o in (1, 2, 3, 4):
        onb = orthonormal_basis_for_space(mp.PN(2, o), mp.Simplex(2)).functions
        fz = co.adapt_2d_integrands_to_complex_arg(onb)

        def integrate(f):
            return q.weights @ f(z)
        ok, nodes = B.call("node guess", lambda: co.guess_nodes_vioreanu_rokhlin(
            integrate, fz), order=o)
        if ok:
            n = len(fz)
            B.equal("one node per function", nodes.shape, (n,), order=o)
            V = np.array([f(z) for f in fz])
            M = (V * (q.weights * z)) @ V.conj().T
            for lam in nodes:
                B.ok("eigenvalue of the multiplication operator",
                     np.linalg.svd(M - lam * np.eye(n), compute_uv=False)[-1] < 1e-12,
                     order=o, node=str(lam))
            B.close("sum of the nodes is the trace", nodes.sum(), np.trace(M), 1e-12, 1e-12,
                    order=o)
        # complex-valued orthonormal functions: complex powers orthogonalised
        cf = co.orthogonalize_basis(integrate, [lambda x, k=k: x ** k for k in range(o + 1)])
        nodes = co.guess_nodes_vioreanu_rokhlin(integrate, cf)
        V = np.array([f(z) for f in cf])
        M = (V * (q.weights * z)) @ V.conj().T
        for lam in nodes:
            B.ok("eigenvalue of the multiplication operator, complex functions",
                 np.linalg.svd(M - lam * np.eye(o + 1), compute_uv=False)[-1] < 1e-12,
                 order=o, node=str(lam))


@CHECK.battery("moment equations", functions=[
    CO + "find_weights_undetermined_coefficients", CO + "quad_residual_and_jacobian",
    CO + "quad_gauss_newton_increment"])
def _(B):
    import modepy as mp
    from modepy.modes import monomial_basis_for_space, orthonormal_basis_for_space
    from modepy.nodes import random_nodes_for_shape
    from modepy.quadrature import construction as co
    nr = B.nprng
    warnings.simplefilter("ignore")
    for d, o in [(1, 1), (1, 3), (1, 6), (2, 1), (2, 3), (2, 4), (3, 1), (3, 2)]:
        for sh, sp in [(mp.Simplex(d), mp.PN(d, o))] + (
                [(mp.Hypercube(d), mp.QN(d, o))] if d == 2 else []):
            for kind, bf in [("orth", orthonormal_basis_for_space),
                             ("mono", monomial_basis_for_space)]:
                b = bf(sp, sh)
                fs = b.functions
                n = len(fs)
                q = mp.quadrature_for_space(sp, sh)
                I = np.array([q.weights @ f(q.nodes) for f in fs])
                tag = f"{sp!r} {kind}"
                grads = [[lambda x, g=g, a=a: np.atleast_2d(np.asarray(g(x)))[a]
                          for g in b.gradients] for a in range(d)]
                for m in (n, n + 3, max(1, n - 2), 1):
                    x = random_nodes_for_shape(sh, m, rng=np.random.default_rng(
                        nr.randint(2**31)))
                    V = np.array([f(x) for f in fs])
                    keep = x.copy(), I.copy()
                    w = co.find_weights_undetermined_coefficients(fs, x, I)
                    B.equal("one weight per node", w.shape, (m,), case=tag, m=m)
                    cond = np.linalg.cond(V)
                    tol = 1e-14 * max(100, cond ** 2)
                    if m >= n:
                        B.close("moment equations hold", V @ w, I, tol, tol, case=tag, m=m)
                    B.close("normal equations", V.T @ (V @ w - I), np.zeros(m), tol, tol,
                            case=tag, m=m)
                    B.close("least norm", w, np.linalg.pinv(V) @ I, tol, tol, case=tag, m=m)
                    wt = nr.uniform(-1, 1, m)
                    ref = nr.uniform(-1, 1, n)
                    kept = wt.copy(), ref.copy()
                    qrj = co.quad_residual_and_jacobian(x, wt, fs, grads, ref)
                    B.close("residual", qrj.residual, V @ wt - ref, 1e-12, 1e-12, case=tag, m=m)
                    B.close("derivative in the weights", qrj.dresid_dweights, V, 1e-14, 1e-14,
                            case=tag, m=m)
                    J = np.zeros((n, d * m))
                    for a in range(d):
                        for k in range(m):
                            J[:, a * m + k] = [wt[k] * g(x[:, k:k + 1])[0] for g in grads[a]]
                    B.close("derivative in the nodes", qrj.dresid_dnodes, J, 1e-12, 1e-12,
                            case=tag, m=m)
                    # against differences, coordinates in row-major order
                    h = 1e-6
                    for _ in range(3):
                        dx, dw = nr.uniform(-1, 1, x.shape), nr.uniform(-1, 1, m)
                        r = [co.quad_residual_and_jacobian(
                            x + s * h * dx, wt + s * h * dw, fs, grads, ref).residual
                            for s in (1, -1)]
                        scale = np.abs(qrj.dresid_dnodes).max() + np.abs(V).max()
                        B.close("change of the residual", (r[0] - r[1]) / (2 * h),
                                qrj.dresid_dnodes @ dx.ravel() + qrj.dresid_dweights @ dw,
                                1e-6, 1e-6 * scale, case=tag, m=m)
                    full = np.hstack([qrj.dresid_dweights, qrj.dresid_dnodes])
                    dw, dx = co.quad_gauss_newton_increment(qrj)
                    B.equal("shapes of the increments", (dw.shape, dx.shape), ((m,), (d, m)),
                            case=tag, m=m)
                    s = np.concatenate([dw, dx.ravel()])
                    sc = np.linalg.cond(full) if min(full.shape) else 1
                    want = -np.linalg.lstsq(full, V @ wt - ref, rcond=None)[0]
                    tol = max(1e-10, 1e-13 * sc ** 2)
                    if tol < 1e-4:
                        B.close("least-squares solution of the linearised equations", s, want,
                                tol, tol * max(1, np.abs(want).max()), case=tag, m=m)
                    B.equal("arguments unchanged", True, bool(
                        (x == keep[0]).all() and (I == keep[1]).all() and (wt == kept[0]).all()
                        and (ref == kept[1]).all()), case=tag, m=m)
                for bad in (I[:-1], np.append(I, 1)):
                    B.raises("wrong number of integrals", ValueError,
                             lambda: co.find_weights_undetermined_coefficients(fs, x, bad),
                             case=tag)
                B.raises("wrong number of axes", ValueError,
                         lambda: co.quad_residual_and_jacobian(
                             x, wt, fs, [*grads, grads[0]], ref), case=tag)
                B.raises("wrong number of derivatives", ValueError,
                         lambda: co.quad_residual_and_jacobian(
                             x, wt, fs, [g[:-1] for g in grads], ref), case=tag)
    # nodes of shape (nnodes,)
    fs = [lambda x, k=k: x ** k for k in range(4)]
    gs = [[lambda x, k=k: k * x ** max(k - 1, 0) for k in range(4)]]
    x, w = nr.uniform(-1, 1, 3), nr.uniform(-1, 1, 3)
    ref = np.array([2, 0, 2 / 3, 0])
    ok, qrj = B.call("nodes of shape (nnodes,)", lambda: co.quad_residual_and_jacobian(
        x, w, fs, gs, ref))
    if ok:
        V = np.array([f(x) for f in fs])
        B.close("residual", qrj.residual, V @ w - ref, 1e-14, 1e-14)
        B.close("node derivative", qrj.dresid_dnodes, np.array([g(x) * w for g in gs[0]]),
                1e-14, 1e-14)
    B.close("weights", co.find_weights_undetermined_coefficients(fs[:3], x, ref[:3]),
            np.linalg.solve(np.array([f(x) for f in fs[:3]]), ref[:3]), 1e-9, 1e-9)

# }}}
