"""C10: constructed quadrature rules."""
from fractions import Fraction
from itertools import product

import mpmath
import numpy as np

from pyvc import norm, terms as T
from pyvc.runtime import values_equal
from pyvc.core import Unsupported
from pyvc.sym import IMAG, SArr, SNum, SSeq, asarr, lift, wrap, new_array, snapshot, F8
from . import spec as S
from .base import Check

CHECK = Check(
    "C10", level="other",
    trusted=["Golub-Welsch: eigenvalues and squared first components of the eigenvectors of "
             "the Jacobi matrix (contract: entries are the recurrence coefficients) are nodes "
             "and weights/mu_0 of the Gauss rule",
             "numpy.linalg.eigh by contract (nodes and eigenvectors arbitrary but fixed)",
             "the Gauss-Lobatto rule has the interior Gauss nodes of the weight times (1-x^2), "
             "their weights divided by it, and the classical endpoint weights",
             "scipy.special.roots_jacobi(n, a, b) is the n-point Gauss-Jacobi rule",
             "[Waldvogel2003]: the inverse DFT of the vectors of the paper (which the code is "
             "proved to transform) are the Clenshaw-Curtis and Fejer weights",
             "numpy.linalg.eigvalsh by contract: the eigenvalues in ascending order"],
    assumptions=["floating point is treated as real arithmetic in the obligations; rounding is "
                 "bounded by the battery only",
                 "parameter sums within 1e-14 of -1 but not -1 itself are outside the proof"],
    bounded=["Laurie's recurrences for the Jacobi-Kronrod matrix (kronrod): exactness on the "
             "real code for orders up to the bound stated in the battery",
             "Grundmann-Moeller: moments of the executed code for "
             "dimension <= 7 (2s+1 <= 29, 21, 17, 11, 7, 5, 3 in dimensions 1 to 7)"])

PI = T.app("pi")
JG = "modepy.quadrature.jacobi_gauss."
CWN = JG + "JacobiGaussQuadrature.compute_weights_and_nodes"
JGQ = JG + "JacobiGaussQuadrature.__init__"
Q0 = "modepy.quadrature.Quadrature.__init__"


class LA:
    """numpy.linalg by contract"""

    def __init__(self, v, n, got):
        self.v, self.n, self.got = v, n, got

    def eigh(self, mat):
        self.got.append(mat)
        return (new_array((self.n,), lambda i: T.app("lam", *i), F8),
                new_array((self.n, self.n), lambda i: T.app("ev", *i), F8))

    def norm(self, x):
        return wrap(T.num(0))      # the code's own rounding checks


def _patch(W, mod, name, val):
    setattr(W.modules[mod], name, val)


# {{{ the Jacobi matrix

def _jacobi_matrix(case):
    def h(v, W):
        jg = W.modules["modepy.quadrature.jacobi_gauss"]
        W.patch("modepy.modes.jacobi", S.jacobi_contract)
        n = v.int("N", lo=0, sample=lambda r: r.randint(0, 5))
        a = v.real("a", lo=-1)
        b = v.real("b", lo=-1)
        for t in (a, b):
            v.assume(t > -1)
        if case == "sum-1":
            v.assume(abs(a + b + 1) < Fraction(1, 10**14))
            v.assume(abs(a + Fraction(1, 2)) >= Fraction(1, 10**14))
            try:
                jg.JacobiGaussQuadrature.compute_weights_and_nodes(n, a, b)
            except ValueError:
                v.ok("ValueError when alpha + beta = -1")
            else:
                v.fail("ValueError when alpha + beta = -1")
            v.cover("end")
            return
        if case == "chebyshev":
            a = b = wrap(T.num(Fraction(-1, 2)))
        else:
            v.assume(abs(a + b + 1) >= Fraction(3, 10**14))
            if case == "general":
                v.assume(abs(a + Fraction(1, 2)) >= Fraction(1, 10**14))
            else:
                v.assume(abs(a + Fraction(1, 2)) < Fraction(1, 10**14))
                v.samplers[lift(a)] = lambda r: -mpmath.mpf(1) / 2
        A, B, n_ = lift(a), lift(b), lift(n)
        got = []
        _patch(W, "modepy.quadrature.jacobi_gauss", "la", LA(v, n + 1, got))
        def entry(i, j):
            i, j = lift(i), lift(j)
            diag = S.rec_a(A, B, i)
            return T.ite(T.eq(i, j), diag,
                         T.ite(T.eq(j, T.add(i, S.ONE)), S.rec_b(A, B, j),
                               T.ite(T.eq(i, T.add(j, S.ONE)), S.rec_b(A, B, i), S.ZERO)))
        v.hint_fns["compute_weights_and_nodes"] = [
            lambda k: new_array((n + 1, n + 1), lambda i: T.ite(
                T.lt(i[0], lift(k)), entry(*i), S.ZERO), F8),
            lambda k: wrap(T.ite(T.or_(T.eq(lift(k), S.ZERO), T.eq(n_, S.ZERO)), S.ZERO, S.rec_b(
                A, B, T.ite(T.lt(n_, lift(k)), n_, lift(k)))))]
        x, w = jg.JacobiGaussQuadrature.compute_weights_and_nodes(n, a, b)
        if case == "chebyshev":
            def node(i):
                # ascending zeros of T_{N+1}
                k = T.sub(n_, i)
                return T.app("cos", T.div(T.mul(T.add(T.mul(S.TWO, k), S.ONE), PI),
                                          T.mul(S.TWO, T.add(n_, S.ONE))))
            v.prove_array("nodes are the Chebyshev zeros", x, (n + 1,),
                          lambda i: wrap(node(lift(i))))
            v.prove_array("weights are pi/(N+1)", w, (n + 1,),
                          lambda i: wrap(T.div(PI, T.add(n_, S.ONE))))
            v.cover("end")
            return
        v.prove("one eigenvalue problem", T.TRUE if len(got) == 1 else T.FALSE)

        v.prove_array("the matrix is the Jacobi matrix of the orthonormal family", got[0],
                      (n + 1, n + 1), lambda i, j: wrap(entry(i, j)))
        v.prove_array("nodes are the eigenvalues", x, (n + 1,),
                      lambda i: wrap(T.app("lam", lift(i))))
        p0 = T.div(S.ONE, T.sqrt(S.wint(A, B)))
        v.defs["SP"] = S.sp_def(v)
        v.prove_array("weights are the squared first components times the weight's integral",
                      w, (n + 1,), lambda i: wrap(T.mul(
                          T.pow_(T.app("ev", S.ZERO, lift(i)), S.TWO), S.wint(A, B))))
        del p0
        v.cover("end")
    return h


for _c in ("general", "alpha next to -1/2", "chebyshev", "sum-1"):
    CHECK.vc(f"Jacobi matrix, {_c}", functions=[CWN], uses=["modepy.modes.jacobi"])(
        _jacobi_matrix(_c))

# }}}


# {{{ Gauss rules built from nodes and weights

def _params(v, lo=0):
    n = v.int("N", lo=lo, sample=lambda r: r.randint(lo, lo + 4))
    a, b = v.real("a", lo=-1), v.real("b", lo=-1)
    return n, a, b


def _rule(v, q, nodes, weights, count, dim_axis, exact):
    shape = (1, count) if dim_axis else (count,)
    v.prove_array("nodes", q.nodes, shape,
                  lambda *i: wrap(nodes(lift(i[-1]))))
    v.prove_array("weights", q.weights, (count,), lambda i: wrap(weights(lift(i))))
    v.prove_eq("exactness", q.exact_to, exact)


def _gauss_init(backend, dim_axis):
    def h(v, W):
        jg = W.modules["modepy.quadrature.jacobi_gauss"]
        n, a, b = _params(v)

        def rule(count, al, be):
            return (new_array((count,), lambda i: T.app("gx", lift(al), lift(be), lift(count),
                                                        *i), F8),
                    new_array((count,), lambda i: T.app("gw", lift(al), lift(be), lift(count),
                                                        *i), F8))

        class Scipy:
            @staticmethod
            def roots_jacobi(count, al, be):
                return rule(count, al, be)
        W.overrides["scipy.special"] = Scipy
        jg.JacobiGaussQuadrature.compute_weights_and_nodes = staticmethod(
            lambda n_, al, be: rule(n_ + 1, al, be))
        kw = {} if backend is None else {"backend": backend}
        if dim_axis:
            kw["force_dim_axis"] = True
        q = jg.JacobiGaussQuadrature(a, b, n, **kw)
        args = (lift(a), lift(b), T.add(lift(n), S.ONE))
        _rule(v, q, lambda i: T.app("gx", *args, i), lambda i: T.app("gw", *args, i), n + 1,
              dim_axis, 2*n + 1)
        v.prove_eq("alpha", q.alpha, a)
        v.prove_eq("beta", q.beta, b)
        v.prove_eq("dimension", q.dim, 1)
        v.cover("end")
    return h


for _b in (None, "builtin", "scipy"):
    for _d in (False, True):
        CHECK.vc(f"JacobiGaussQuadrature {_b} {'(1, n)' if _d else '(n,)'}",
                 functions=[JGQ, Q0], uses=[CWN])(_gauss_init(_b, _d))


@CHECK.vc("unsupported backend", functions=[JGQ])
def _(v, W):
    jg = W.modules["modepy.quadrature.jacobi_gauss"]
    n, a, b = _params(v)
    try:
        jg.JacobiGaussQuadrature(a, b, n, backend="other", force_dim_axis=True)
    except NotImplementedError:
        v.ok("NotImplementedError for an unknown backend")
    else:
        v.fail("NotImplementedError for an unknown backend")
    v.cover("end")


class Rec:
    """stands for JacobiGaussQuadrature / its initialiser"""


def _sub(cls, mk, want):
    def h(v, W):
        jg = W.modules["modepy.quadrature.jacobi_gauss"]
        n, a, b = _params(v)
        for be in (None, "scipy", "builtin"):
            for fd in (False, True):
                calls = []

                def init(self, alpha, beta, N, backend=None, force_dim_axis=False):
                    calls.append((alpha, beta, N, backend, force_dim_axis))
                jg.JacobiGaussQuadrature.__init__ = init
                kw = {} if be is None else {"backend": be}
                if fd:
                    kw["force_dim_axis"] = True
                mk(getattr(jg, cls), n, a, kw)
                tag = f" ({be}, {fd})"
                v.prove("initialised once" + tag, T.TRUE if len(calls) == 1 else T.FALSE)
                al, bb = want(a)
                v.prove_eq("alpha" + tag, calls[0][0], al)
                v.prove_eq("beta" + tag, calls[0][1], bb)
                v.prove_eq("order" + tag, calls[0][2], n)
                v.prove("backend" + tag, T.TRUE if calls[0][3] in (
                    {be} if be != "builtin" else {None, be}) or (
                        be is None and calls[0][3] == "builtin") else T.FALSE)
                v.prove("shape" + tag, T.TRUE if bool(calls[0][4]) == fd else T.FALSE)
        v.cover("end")
    return h


HALF = Fraction(1, 2)
for _nm, _cls, _mk, _want in (
        ("LegendreGaussQuadrature", "LegendreGaussQuadrature",
         lambda c, n, a, kw: c(n, **kw), lambda a: (0, 0)),
        ("ChebyshevGaussQuadrature, first kind", "ChebyshevGaussQuadrature",
         lambda c, n, a, kw: c(n, kind=1, **kw), lambda a: (-HALF, -HALF)),
        ("ChebyshevGaussQuadrature, default kind", "ChebyshevGaussQuadrature",
         lambda c, n, a, kw: c(n, **kw), lambda a: (-HALF, -HALF)),
        ("ChebyshevGaussQuadrature, second kind", "ChebyshevGaussQuadrature",
         lambda c, n, a, kw: c(n, kind=2, **kw), lambda a: (HALF, HALF)),
        ("GaussGegenbauerQuadrature", "GaussGegenbauerQuadrature",
         lambda c, n, a, kw: c(a, n, **kw), lambda a: (a, a))):
    CHECK.vc(_nm, functions=[JG + _cls + ".__init__"], uses=[JGQ])(_sub(_cls, _mk, _want))

# }}}


# {{{ Gauss-Lobatto

def _gauss_stub(jg):
    class G:
        def __init__(self, alpha, beta, N, backend=None, force_dim_axis=False):
            args = (lift(alpha), lift(beta), lift(N))
            count = N + 1
            shape = (1, count) if force_dim_axis else (count,)
            self.nodes = new_array(shape, lambda i: T.app("gx", *args, i[-1]), F8)
            self.weights = new_array((count,), lambda i: T.app("gw", *args, *i), F8)
            self.alpha, self.beta = alpha, beta
    jg.JacobiGaussQuadrature = G


def lob_node(a, b, n, i):
    inner = T.app("gx", T.add(a, S.ONE), T.add(b, S.ONE), T.sub(n, S.TWO), T.sub(i, S.ONE))
    return T.ite(T.eq(n, S.ZERO), S.ZERO, T.ite(
        T.eq(i, S.ZERO), S.N_(-1), T.ite(T.eq(i, n), S.ONE, inner)))


def edge(a, b, n):
    """weight at -1 of the (n+1)-point Lobatto rule"""
    m = T.sub(n, S.ONE)
    g = S.gam
    return T.div(T.mul(T.pow_(S.TWO, T.add(a, b, S.ONE)), g(T.add(b, S.ONE)),
                       g(T.add(b, S.TWO)), g(T.add(m, S.ONE)), g(T.add(m, a, S.TWO))),
                 T.mul(g(T.add(m, b, S.TWO)), g(T.add(m, a, b, S.THREE))))


def _lobatto_nodes(dim_axis, legendre, case):
    def h(v, W):
        jg = W.modules["modepy.quadrature.jacobi_gauss"]
        _gauss_stub(jg)
        n, a, b = _params(v)
        if case is None:
            v.assume(n >= 2)
        else:
            n = case
        kw = {"force_dim_axis": True} if dim_axis else {}
        if legendre:
            a = b = 0
            x = jg.legendre_gauss_lobatto_nodes(n, **kw)
        else:
            x = jg.jacobi_gauss_lobatto_nodes(a, b, n, **kw)
        v.prove_array("Lobatto nodes", x, (1, n + 1) if dim_axis else (n + 1,),
                      lambda *i: wrap(lob_node(lift(a), lift(b), lift(n), lift(i[-1]))))
        v.cover("end")
    return h


for _d in (False, True):
    for _l in (False, True):
        for _c in (None, 0, 1):
            CHECK.vc(f"{'legendre' if _l else 'jacobi'}_gauss_lobatto_nodes "
                     f"{'(1, n)' if _d else '(n,)'} N {'>= 2' if _c is None else f'= {_c}'}",
                     functions=[JG + f"{'legendre' if _l else 'jacobi'}_gauss_lobatto_nodes"],
                     uses=[JGQ])(_lobatto_nodes(_d, _l, _c))


def _lobatto(dim_axis, legendre, case):
    def h(v, W):
        jg = W.modules["modepy.quadrature.jacobi_gauss"]
        _gauss_stub(jg)
        n, a, b = _params(v)
        if case is None:
            v.assume(n >= 2)
        else:
            n = case
        kw = {"force_dim_axis": True} if dim_axis else {}
        if legendre:
            a = b = 0
            mk = lambda: jg.LegendreGaussLobattoQuadrature(n, **kw)   # noqa: E731
        else:
            mk = lambda: jg.JacobiGaussLobattoQuadrature(a, b, n, **kw)   # noqa: E731
        if case == 0:
            try:
                mk()
            except ValueError:
                v.ok("ValueError for a single node")
            else:
                v.fail("ValueError for a single node")
            v.cover("end")
            return
        q = mk()
        A, B_, n_ = lift(a), lift(b), lift(n)

        def weight(i):
            x = lob_node(A, B_, n_, i)
            inner = T.div(T.app("gw", T.add(A, S.ONE), T.add(B_, S.ONE), T.sub(n_, S.TWO),
                                T.sub(i, S.ONE)), T.sub(S.ONE, T.mul(x, x)))
            return T.ite(T.eq(i, S.ZERO), edge(A, B_, n_),
                         T.ite(T.eq(i, n_), edge(B_, A, n_), inner))
        _rule(v, q, lambda i: lob_node(A, B_, n_, i), weight, n + 1, dim_axis, 2*n - 1)
        v.cover("end")
    return h


for _d in (False, True):
    for _l in (False, True):
        for _c in (None, 0, 1):
            CHECK.vc(f"{'Legendre' if _l else 'Jacobi'}GaussLobattoQuadrature "
                     f"{'(1, n)' if _d else '(n,)'} N {'>= 2' if _c is None else f'= {_c}'}",
                     functions=[JG + f"{'Legendre' if _l else 'Jacobi'}"
                                "GaussLobattoQuadrature.__init__", "modepy.modes.binom"],
                     uses=[JGQ])(_lobatto(_d, _l, _c))

# }}}


# {{{ Kronrod

def _kronrod(odd):
    def h(v, W):
        kr = W.modules["modepy.quadrature.kronrod"]
        k = v.int("k", lo=0 if odd else 1, sample=lambda r: r.randint(1, 3))
        n = 2*k + 1 if odd else 2*k
        n_, k_ = lift(n), lift(k)
        x = v.array("x", (n + 1,))
        w = v.array("w", (n + 1,))
        gw = v.array("g", (k + 1 if odd else k,))
        rx, rw, rg = snapshot(x), snapshot(w), snapshot(gw)
        W.patch("modepy.quadrature.kronrod.kronrod", lambda n: (x, w, gw))
        r = kr.make_kronrod_quadrature(n)

        def sym(neg, mid, pos, half):
            """entries i < half, i = half, i > half (mirrored)"""
            return lambda i: T.ite(T.lt(i, half), neg(i), T.ite(T.eq(i, half), mid(i), pos(i)))
        g_at = lambda i: rx((T.add(T.mul(S.TWO, i), S.ONE),))      # noqa: E731
        k_at = lambda i: rx((T.mul(S.TWO, i),))                    # noqa: E731
        wg = lambda i: rw((T.add(T.mul(S.TWO, i), S.ONE),))        # noqa: E731
        wk = lambda i: rw((T.mul(S.TWO, i),))                      # noqa: E731
        last = lambda i: T.sub(n_, T.add(i, S.ONE))                # noqa: E731
        G = r.gauss_quadrature
        if odd:
            gx = lambda i: T.ite(T.lt(i, k_), g_at(i), T.ite(      # noqa: E731
                T.eq(i, k_), S.ZERO, T.neg(g_at(last(i)))))
            gwt = lambda i: T.ite(T.le(i, k_), rg((i,)), rg((last(i),)))     # noqa: E731
            kg = lambda i: T.ite(T.le(i, k_), wg(i), wg(last(i)))  # noqa: E731
            kx = lambda i: T.ite(T.le(i, k_), k_at(i), T.neg(k_at(T.sub(n_, i))))  # noqa: E731
            kw = lambda i: T.ite(T.le(i, k_), wk(i), wk(T.sub(n_, i)))       # noqa: E731
        else:
            gx = lambda i: T.ite(T.lt(i, k_), g_at(i), T.neg(g_at(last(i))))  # noqa: E731
            gwt = lambda i: T.ite(T.lt(i, k_), rg((i,)), rg((last(i),)))     # noqa: E731
            kg = lambda i: T.ite(T.lt(i, k_), wg(i), wg(last(i)))  # noqa: E731
            kx = lambda i: T.ite(T.lt(i, k_), k_at(i), T.ite(      # noqa: E731
                T.eq(i, k_), S.ZERO, T.neg(k_at(T.sub(n_, i)))))
            kw = lambda i: T.ite(T.le(i, k_), wk(i), wk(T.sub(n_, i)))       # noqa: E731
        for nm, arr, cnt, fn in (
                ("Gauss nodes", G.nodes, n, gx), ("Gauss weights", G.weights, n, gwt),
                ("Kronrod weights at the Gauss nodes", r.weights_at_gauss_nodes, n, kg),
                ("added nodes", r.nodes, n + 1, kx), ("their weights", r.weights, n + 1, kw)):
            v.prove_array(nm, arr, (cnt,), lambda i, fn=fn: wrap(fn(lift(i))))
        v.prove_eq("exactness of the Gauss rule", G.exact_to, 2*n - 1)
        v.prove_eq("exactness of the Kronrod rule", r.exact_to, 3*n + 1)
        v.prove_eq("dimension", r.dim, 1)
        for nm, arr, rd in (("x", x, rx), ("w", w, rw), ("gauss weights", gw, rg)):
            v.prove_array(f"cached {nm} unchanged", arr, arr.shape,
                          lambda i, rd=rd: wrap(rd((lift(i),))))

        sx, sw = snapshot(r.nodes), snapshot(r.weights)
        tx, tw = snapshot(G.nodes), snapshot(r.weights_at_gauss_nodes)

        def f(y):
            ry = snapshot(y)
            return new_array(y.shape, lambda i: T.app("f", ry(i)), F8)
        I = r(f)                                                   # noqa: E741
        i = T.fresh("i", "I")
        j = T.fresh("j", "I")
        v.prove_eq("applying the rule sums over all nodes", I, wrap(T.add(
            T.binder("sum", i, T.num(0), n_, T.mul(T.app("f", tx((i,))), tw((i,)))),
            T.binder("sum", j, T.num(0), T.add(n_, S.ONE), T.mul(T.app("f", sx((j,))), sw((j,)))))))
        v.cover("end")
    return h


for _o in (True, False):
    CHECK.vc(f"make_kronrod_quadrature, {'odd' if _o else 'even'} n",
             functions=["modepy.quadrature.kronrod.make_kronrod_quadrature",
                        "modepy.quadrature.kronrod.KronrodQuadrature.__call__"],
             uses=["modepy.quadrature.kronrod.kronrod"])(_kronrod(_o))

# }}}


# {{{ pieces of the Kronrod construction

KRM = "modepy.quadrature.kronrod."


def ep_def(v, b):
    """EP(z, k): characteristic polynomial of the leading k x k block of the symmetric
    tridiagonal matrix with zero diagonal and off-diagonal entries b; EPD its derivative"""
    def at(k):
        return b((T.sub(k, S.TWO),))

    def ep(z, k):
        if v.entails(T.eq(k, S.ZERO)):
            return S.ONE
        if v.entails(T.eq(k, S.ONE)):
            return z
        if v.entails(T.le(S.TWO, k)):
            bb = at(k)
            return T.sub(T.mul(z, T.app("EP", z, T.sub(k, S.ONE))),
                         T.mul(bb, bb, T.app("EP", z, T.sub(k, S.TWO))))
        return None

    def epd(z, k):
        if v.entails(T.eq(k, S.ZERO)):
            return S.ZERO
        if v.entails(T.eq(k, S.ONE)):
            return S.ONE
        if v.entails(T.le(S.TWO, k)):
            bb = at(k)
            return T.sub(T.add(T.app("EP", z, T.sub(k, S.ONE)),
                               T.mul(z, T.app("EPD", z, T.sub(k, S.ONE)))),
                         T.mul(bb, bb, T.app("EPD", z, T.sub(k, S.TWO))))
        return None
    v.defs["EP"], v.defs["EPD"] = (1, ep), (1, epd)


@CHECK.vc("characteristic polynomial of a Jacobi matrix", functions=[KRM + "_eigpoly"])
def _(v, W):
    kr = W.modules["modepy.quadrature.kronrod"]
    m = v.int("m", lo=1, sample=lambda r: r.randint(1, 5))
    b = v.array("b", (m - 1,))
    rb = snapshot(b)
    z = v.real("z")
    ep_def(v, rb)
    v.hint_fns["_eigpoly"] = [lambda k: wrap(T.app("EP", lift(z), lift(k))),
                              lambda k: wrap(T.app("EPD", lift(z), lift(k)))]
    for args in ((), (m,)):
        p, pd = kr._eigpoly(b, z, *args)
        v.prove_eq("polynomial", p, wrap(T.app("EP", lift(z), lift(m))))
        v.prove_eq("its derivative", pd, wrap(T.app("EPD", lift(z), lift(m))))
    v.prove_array("matrix unchanged", b, (m - 1,), lambda i: wrap(rb((lift(i),))))
    v.cover("end")

def ev_def(v, b):
    """EV(z, i): eigenvector with first component one: rows 0..i-1 of H u = z u"""
    def ev(z, i):
        if v.entails(T.eq(i, S.ZERO)):
            return S.ONE
        if v.entails(T.eq(i, S.ONE)):
            return T.div(z, b((S.ZERO,)))
        if v.entails(T.le(S.TWO, i)):
            return T.div(T.sub(T.mul(z, T.app("EV", z, T.sub(i, S.ONE))),
                               T.mul(b((T.sub(i, S.TWO),)), T.app("EV", z, T.sub(i, S.TWO)))),
                         b((T.sub(i, S.ONE),)))
        return None
    def ss(z, k):
        """sum of the squares of the first k components"""
        if v.entails(T.eq(k, S.ONE)):
            return S.ONE
        if v.entails(T.le(S.TWO, k)):
            e = T.app("EV", z, T.sub(k, S.ONE))
            return T.add(T.app("SS", z, T.sub(k, S.ONE)), T.mul(e, e))
        return None
    v.defs["EV"], v.defs["SS"] = (1, ev), (1, ss)


@CHECK.vc("eigenvector of a Jacobi matrix", functions=[KRM + "_eigvec1"])
def _(v, W):
    kr = W.modules["modepy.quadrature.kronrod"]
    m = v.int("m", lo=1, sample=lambda r: r.randint(1, 5))
    b = v.array("b", (m - 1,))
    rb = snapshot(b)
    z = v.real("z")
    v.axiom("b", lambda i: [T.not_(T.eq(T.app("b", i), S.ZERO))])
    Z, M = lift(z), lift(m)
    ev_def(v, rb)
    v.hint_fns["_eigvec1"] = [
        lambda k, c=c: new_array((m,), lambda i: T.ite(
            T.lt(i[0], lift(k)), T.app("EV", Z, i[0]), T.app(f"uninit{c}", i[0])), F8)
        for c in range(2)] + [lambda k: wrap(T.app("SS", Z, lift(k)))]
    for args in ((), (m,)):
        u = kr._eigvec1(b, z, *args)
        k = T.fresh("k", "I")
        for nrm in (T.app("SS", Z, M), T.binder(
                "sum", k, S.ZERO, M, T.mul(T.app("EV", Z, k), T.app("EV", Z, k)))):
            want = new_array((m,), lambda i, nrm=nrm: T.ite(T.eq(M, S.ONE), S.ONE, T.div(
                T.app("EV", Z, i[0]), T.sqrt(nrm))), F8)
            if values_equal(v, asarr(u), want):
                break
        v.prove_array("unit eigenvector", u, (m,), lambda i: want[i])
    v.prove_array("matrix unchanged", b, (m - 1,), lambda i: wrap(rb((lift(i),))))
    v.cover("end")


@CHECK.vc("Gauss-Legendre rule of the Kronrod module", functions=[KRM + "gauss"],
          uses=[KRM + "_eignewt", KRM + "_eigvec1"])
def _(v, W):
    kr = W.modules["modepy.quadrature.kronrod"]
    n = v.int("n", sample=lambda r: r.randint(0, 4))
    N = lift(n)

    def matrix(b):
        v.prove_array("the Jacobi matrix of the Legendre weight", b, (n - 1,), lambda j: wrap(
            S.rec_b(S.ZERO, S.ZERO, T.add(lift(j), S.ONE))))

    def eig(b, m, k):
        matrix(b)
        v.prove_eq("size", m, n)
        v.prove_eq("all eigenvalues", k, n)
        return new_array((n,), lambda i: T.app("lam", i[0]), F8)

    def vec(b, z, m=None):
        if m is not None:
            v.prove_eq("size", m, n)
        matrix(b)
        return new_array((n,), lambda i: T.app("ev", i[0], lift(z)), F8)
    W.patch(KRM + "_eignewt", eig)
    W.patch(KRM + "_eigvec1", vec)
    try:
        x, w = kr.gauss(n)
    except ValueError:
        v.prove("ValueError only below one", wrap(T.lt(N, S.ONE)))
        v.cover("rejected")
        return
    v.prove("accepted only from one on", wrap(T.le(S.ONE, N)))
    v.prove_array("nodes are the eigenvalues", x, (n,), lambda i: wrap(T.app("lam", lift(i))))
    v.prove_array("weights are twice the squared first components", w, (n,), lambda i: wrap(T.mul(
        S.TWO, T.pow_(T.app("ev", S.ZERO, T.app("lam", lift(i))), S.TWO))))
    v.cover("end")


@CHECK.vc("eigenvalues of a Jacobi matrix", functions=[KRM + "_eignewt"],
          uses=[KRM + "_eigpoly"])
def _(v, W):
    kr = W.modules["modepy.quadrature.kronrod"]
    m = v.int("m", lo=1, sample=lambda r: r.randint(1, 4))
    n = v.int("n", lo=0, sample=lambda r: r.randint(0, 3))
    v.assume(n <= m)
    b = v.array("b", (m - 1,))
    rb = snapshot(b)

    def poly(b_, z, k=None):
        v.prove("the matrix", T.TRUE if b_ is b else T.FALSE)
        if k is not None:
            v.prove_eq("size", k, m)
        t = norm.canon(lift(z))
        at = t.op == "app" and t.args[0] == "lam"       # an eigenvalue
        return wrap(S.ZERO if at else T.app("EP", t)), wrap(T.app("EPD", t))
    W.patch(KRM + "_eigpoly", poly)
    # numpy.linalg.eigvalsh by contract: the zeros of the characteristic polynomial

    class Lin:
        @staticmethod
        def eigvalsh(h):
            v.prove_array("the symmetric tridiagonal matrix", h, (m, m), lambda i, j: wrap(T.ite(
                T.eq(lift(j), T.add(lift(i), S.ONE)), rb((lift(i),)), T.ite(
                    T.eq(lift(i), T.add(lift(j), S.ONE)), rb((lift(j),)), S.ZERO))))
            return new_array((m,), lambda i: T.app("lam", i[0]), F8)

        def __getattr__(self, k):
            return getattr(W.la, k)

    class Np:
        linalg = Lin()

        @staticmethod
        def sort(a):
            return a        # eigvalsh: ascending order

        def __getattr__(self, k):
            return getattr(np_, k)
    np_ = kr.np
    kr.np = Np()
    v.hint_fns["_eignewt"] = [
        lambda k: new_array((m, m), lambda i: T.ite(
            T.and_(T.eq(i[1], T.add(i[0], S.ONE)), T.lt(i[1], lift(k))), rb((i[0],)), T.ite(
                T.and_(T.eq(i[0], T.add(i[1], S.ONE)), T.lt(i[0], lift(k))), rb((i[1],)),
                S.ZERO)), F8),
        lambda k: new_array((n,), lambda i: T.app("lam", i[0]), F8)]
    # the limit of the number of iterations is arbitrary
    rng = W.modules["modepy"].__builtins__["range"]
    limit = v.int("limit", lo=1, sample=lambda r: r.randint(1, 3))
    kr.range = lambda *a: rng(limit) if len(a) == 1 and isinstance(a[0], int) else rng(*a)
    lam = kr._eignewt(b, m, n)
    v.prove_array("the smallest eigenvalues", lam, (n,), lambda i: wrap(T.app("lam", lift(i))))
    v.prove_array("matrix unchanged", b, (m - 1,), lambda i: wrap(rb((lift(i),))))
    v.cover("end")

# }}}


# {{{ Clenshaw-Curtis and Fejer

CC = "modepy.quadrature.clenshaw_curtis."


class Cplx:
    """result of a stubbed inverse FFT"""

    def __init__(self, n):
        self.n = n
        self.shape = (n,)

    @property
    def real(self):
        return new_array((self.n,), lambda i: T.app("ifft", *i), F8)

    @property
    def imag(self):
        return new_array((self.n,), lambda i: T.num(0), F8)

    def __getitem__(self, k):
        r = Cplx.__new__(Cplx)
        r.base, r.key = self, k
        r.__class__ = _Sub
        return r


class _Sub(Cplx):
    @property
    def real(self):
        return self.base.real[self.key]

    @property
    def imag(self):
        return self.base.imag[self.key]


def parts(t):
    """real and imaginary part of a term"""
    if IMAG not in t.fv:
        return t, T.ZERO
    if t.op == "ite" and IMAG not in t.args[0].fv:
        a, b = parts(t.args[1]), parts(t.args[2])
        return tuple(T.ite(t.args[0], x, y) for x, y in zip(a, b))
    re, im = T.ZERO, T.ZERO
    for m, c in norm.norm(t).items():
        k, rest = 0, []
        for f, e in m:
            if f is IMAG:
                k = int(e[0])
            elif IMAG in f.fv:
                raise Unsupported("complex expression")
            else:
                rest.append((f, e))
        x = T.mul(T.num(c * (1, 1, -1, -1)[k % 4]), norm.mono_term(tuple(rest)))
        if k % 2:
            im = T.add(im, x)
        else:
            re = T.add(re, x)
    return norm.canon(re), norm.canon(im)


class NpFFT:
    """numpy with ifft by contract (records its argument; a real result)"""

    def __init__(self, np_, got):
        self.np_, self.got = np_, got
        self.fft = self

    def ifft(self, x):
        self.got.append(asarr(x))
        return Cplx(asarr(x).shape[0])

    def allclose(self, a, b):
        return True     # the code's own rounding check

    # complex numbers: real part + imaginary part * IMAG

    def exp(self, x):
        if not isinstance(x, SArr) and not isinstance(x, SNum):
            return self.np_.exp(x)

        def one(t):
            re, im = parts(t)
            return T.mul(T.app("exp", re) if re is not T.ZERO else S.ONE, T.add(
                T.app("cos", im), T.mul(IMAG, T.app("sin", im))))
        return S.lift_over(x, one)

    def conj(self, x):
        return S.lift_over(x, lambda t: (lambda re, im: T.sub(re, T.mul(IMAG, im)))(*parts(t)))

    conjugate = conj

    def __getattr__(self, k):
        return getattr(self.np_, k)


def waldvogel(n, half, k):
    """v_k of [Waldvogel2003], eqs. (3.4)/(4.1): even sequence of length n"""
    def v(k):
        sq = T.mul(T.num(4), k, k)
        return T.ite(T.lt(k, half), T.div(S.TWO, T.sub(S.ONE, sq)),
                     T.sub(T.div(T.sub(n, S.THREE), T.sub(T.mul(S.TWO, half), S.ONE)), S.ONE))
    return T.ite(T.le(k, half), v(k), v(T.sub(n, k)))


def _cc(kind, odd):
    def h(v, W):
        cc = W.modules["modepy.quadrature.clenshaw_curtis"]
        k = v.int("k", lo=1, sample=lambda r: r.randint(1, 3))
        n = 2*k + 1 if odd else 2*k
        n_, k_ = lift(n), lift(k)
        got = []
        cc.np = NpFFT(cc.np, got)
        if kind == "cc":
            x, w = cc._make_clenshaw_curtis_nodes_and_weights(n)
            cnt = n + 1
            node = lambda i: T.app("cos", T.div(T.mul(i, PI), n_))    # noqa: E731
            weight = lambda i: T.ite(T.eq(i, n_), T.app("ifft", S.ZERO),   # noqa: E731
                                     T.app("ifft", i))
        else:
            x, w = cc._make_fejer2_nodes_and_weights(n)
            cnt = n - 1
            node = lambda i: T.app("cos", T.div(T.mul(T.add(i, S.ONE), PI), n_))  # noqa: E731
            weight = lambda i: T.app("ifft", T.add(i, S.ONE))      # noqa: E731

        def vec(i):
            # n even: v_{n/2} appears once;  n odd: v_k = v_{k+1} with k = (n-1)/2
            t = waldvogel(n_, k_, i)
            if kind != "cc":
                return t
            one = T.num(1) if odd else T.num(0)
            w0 = T.div(S.ONE, T.add(T.mul(n_, n_), T.num(-1), one))
            mid = T.mul(w0, T.sub(n_, S.ONE) if odd else T.sub(T.mul(S.TWO, n_), S.ONE))
            is_mid = T.or_(T.eq(i, k_), T.eq(i, T.add(k_, S.ONE))) if odd else T.eq(i, k_)
            return T.add(t, T.ite(is_mid, mid, T.neg(w0)))
        v.prove("one inverse transform", T.TRUE if len(got) == 1 else T.FALSE)
        v.prove_array("transformed vector", got[0], (n,), lambda i: wrap(vec(lift(i))))
        v.prove_array("nodes", x, (cnt,), lambda i: wrap(node(lift(i))))
        v.prove_array("weights", w, (cnt,), lambda i: wrap(weight(lift(i))))
        v.cover("end")
    return h


for _k, _f in (("cc", "_make_clenshaw_curtis_nodes_and_weights"),
               ("fejer2", "_make_fejer2_nodes_and_weights")):
    for _o in (True, False):
        CHECK.vc(f"{_f} {'odd' if _o else 'even'}", functions=[CC + _f])(_cc(_k, _o))


def _fejer1(odd):
    def h(v, W):
        cc = W.modules["modepy.quadrature.clenshaw_curtis"]
        v.complex_values = "symbol"
        k = v.int("k", lo=1, sample=lambda r: r.randint(1, 3))
        n = 2*k - 1 if odd else 2*k
        n_, k_ = lift(n), lift(k)
        got = []
        cc.np = NpFFT(cc.np, got)
        x, w = cc._make_fejer1_nodes_and_weights(n)
        v.prove("one inverse transform", T.TRUE if len(got) == 1 else T.FALSE)

        # [Waldvogel2003], section 4: v_j = 2 exp(i pi j/n)/(1 - 4 j^2), v_{n-j} its conjugate,
        # v_{n/2} = 0
        def val(j, sign):
            t = T.div(T.mul(j, PI), n_)
            return T.mul(T.div(S.TWO, T.sub(S.ONE, T.mul(T.num(4), j, j))),
                         T.add(T.app("cos", t), T.mul(T.num(sign), IMAG, T.app("sin", t))))

        def vec(j):
            up = T.sub(n_, k_)       # for j > up: conjugate of v_{n-j}
            return T.ite(T.lt(j, k_), val(j, 1), T.ite(
                T.lt(up, j), val(T.sub(n_, j), -1), S.ZERO))
        v.prove_array("transformed vector", got[0], (n,), lambda i: wrap(vec(lift(i))))
        v.prove_array("nodes", x, (n,), lambda i: wrap(T.app("cos", T.div(T.mul(T.add(
            lift(i), T.div(S.ONE, S.TWO)), PI), n_))))
        v.prove_array("weights", w, (n,), lambda i: wrap(T.app("ifft", lift(i))))
        v.cover("end")
    return h


for _o in (True, False):
    CHECK.vc(f"_make_fejer1_nodes_and_weights {'odd' if _o else 'even'}",
             functions=[CC + "_make_fejer1_nodes_and_weights"])(_fejer1(_o))


def _cc_init(cls, kind, dim_axis):
    def h(v, W):
        cc = W.modules["modepy.quadrature.clenshaw_curtis"]
        n = v.int("N", lo=2, sample=lambda r: r.randint(2, 4))
        used = []

        def stub(which, off):
            def f(n_):
                used.append(which)
                c = (n_ + off,)
                return (new_array(c, lambda i: T.app("x" + which, lift(n_), *i), F8),
                        new_array(c, lambda i: T.app("w" + which, lift(n_), *i), F8))
            return f
        for which, off in (("clenshaw_curtis", 1), ("fejer1", 0), ("fejer2", -1)):
            W.patch(CC + f"_make_{which}_nodes_and_weights", stub(which, off))
        kw = {"force_dim_axis": True} if dim_axis else {}
        if kind == "bad":
            try:
                cc.FejerQuadrature(n, kind=3, **kw)
            except ValueError:
                v.ok("ValueError for an unknown kind")
            else:
                v.fail("ValueError for an unknown kind")
            v.cover("end")
            return
        if cls == "cc":
            q, which, off = cc.ClenshawCurtisQuadrature(n, **kw), "clenshaw_curtis", 1
        elif kind is None:
            q, which, off = cc.FejerQuadrature(n, **kw), "fejer1", 0
        else:
            q = cc.FejerQuadrature(n, kind=kind, **kw)
            which, off = f"fejer{kind}", (0, -1)[kind - 1]
        cnt = n + off
        v.prove_array("nodes", q.nodes, (1, cnt) if dim_axis else (cnt,),
                      lambda *i: wrap(T.app("x" + which, lift(n), lift(i[-1]))))
        v.prove_array("weights", q.weights, (cnt,),
                      lambda i: wrap(T.app("w" + which, lift(n), lift(i))))
        if cls == "cc":
            v.prove_eq("exactness", q.exact_to, n)
        else:
            try:
                q.exact_to
            except AttributeError:
                v.ok("no exactness is announced")
            else:
                v.prove("an announced exactness is at most what the rule provides",
                        T.le(lift(q.exact_to), lift(cnt - 1)))
        v.cover("end")
    return h


for _cls, _kd in (("cc", None), ("fejer", None), ("fejer", 1), ("fejer", 2), ("fejer", "bad")):
    for _d in (False, True):
        CHECK.vc(f"{_cls} {_kd} {'(1, n)' if _d else '(n,)'}",
                 functions=[CC + ("ClenshawCurtisQuadrature" if _cls == "cc" else
                                  "FejerQuadrature") + ".__init__"],
                 uses=[CC + "_make_clenshaw_curtis_nodes_and_weights"])(_cc_init(_cls, _kd, _d))

# }}}


# {{{ on the real code

def onb(a, b, nmax, x):
    """orthonormal Jacobi values (independent of modepy), rows 0..nmax"""
    from scipy.special import betaln
    x = np.asarray(x, dtype=float)
    mu0 = np.exp((a + b + 1) * np.log(2) + betaln(a + 1, b + 1))
    p = [np.full(x.shape, 1 / np.sqrt(mu0))]
    prev, bold = np.zeros(x.shape), 0.0
    for n in range(1, nmax + 1):
        m = n - 1
        s = 2*m + a + b
        an = (b - a) / (a + b + 2) if m == 0 else (b*b - a*a) / (s * (s + 2))
        s = 2*n + a + b
        bn = 2 / s * np.sqrt((a + 1) * (b + 1) / (a + b + 3)) if n == 1 else \
            2 / s * np.sqrt(n * (n + a) * (n + b) * (n + a + b) / ((s - 1) * (s + 1)))
        p.append(((x - an) * p[-1] - bold * prev) / bn)
        prev, bold = p[-2], bn
    return np.array(p), mu0


def check_1d(B, x, w, exact, a=0.0, b=0.0, count=None, positive=True, ends=False, dim=None,
             tol=1e-11, **tag):
    x, w = np.asarray(x), np.asarray(w)
    if dim is not None:
        B.equal("shape of the nodes", x.shape, (1, count) if dim else (count,), **tag)
    x = x.reshape(-1)
    B.equal("as many weights as nodes", (x.shape, w.shape), ((count,), (count,)), **tag)
    if x.shape != (count,) or w.shape != (count,):
        return
    B.ok("nodes in [-1, 1]", np.all(np.abs(x) <= 1 + 1e-14), **tag)
    B.ok("distinct nodes", count < 2 or np.min(np.diff(np.sort(x))) > 1e-9, **tag)
    if positive:
        B.ok("positive weights", np.all(w > 0), **tag)
    if ends:
        B.ok("contains the endpoints", abs(x.min() + 1) < 1e-14 and abs(x.max() - 1) < 1e-14,
             **tag)
    p, mu0 = onb(a, b, exact, x)
    want = np.zeros(exact + 1)
    want[0] = np.sqrt(mu0)
    # p_k is as large as 1/sqrt(w) at the nodes
    scale = (np.abs(p) * np.abs(w)).sum(1).max() + 1
    B.close("exact integrals", p @ w, want, 0, tol * scale * max(1, count**2 / 10), **tag)


@CHECK.battery("Gauss rules", functions=[JGQ, CWN])
def _(B):
    import modepy as mp
    ns = list(range(0, 13)) + [17, 24, 33, 60] + ([100, 150, 200] if B.thorough else [])
    ab = [(0, 0), (1, 0), (0, 1), (2, 3), (-.5, .5), (.5, -.5), (-.5, -.5), (.5, .5),
          (-.7, -.9), (-.99, .3), (.25, -.9), (4.5, 0.1), (7, 7), (-.5, .7), (.4, -.5),
          (-.1, -.85), (0.5, -.25),
          # next to the parameters that the code treats separately
          (-.5 + 2e-5, -.5 - 1e-5), (-.5 + 1e-7, -.5 + 1e-7), (-.4, -.6 + 1e-3), (-.3, -.7 + 1e-6),
          (-.2, -.8 + 1e-10)]
    for n in ns:
        for be in (None, "builtin", "scipy"):
            for dim in (False, True):
                kw = dict(backend=be, force_dim_axis=dim)
                for a, b in ab:
                    if n > 60 and be != "scipy" and max(a, b) > 5:
                        continue
                    if abs(a + b + 1) < 1e-14 and be != "scipy" and (a, b) != (-.5, -.5):
                        continue
                    if abs(a + b + 1) < 1e-2 and be == "scipy":
                        continue        # scipy's own formula loses digits there
                    okc, q = B.call("constructed", lambda: mp.JacobiGaussQuadrature(
                        a, b, n, **kw), alpha=a, beta=b, N=n, backend=be)
                    if okc:
                        B.equal("exactness announced", q.exact_to, 2*n + 1, N=n)
                        B.equal("parameters", (q.alpha, q.beta), (a, b), N=n)
                        check_1d(B, q.nodes, q.weights, 2*n + 1, a, b, n + 1, dim=dim,
                                 rule="Jacobi", alpha=a, beta=b, N=n, backend=be, axis=dim)
                for nm, mk, a in (
                        ("Legendre", lambda: mp.LegendreGaussQuadrature(n, **kw), 0),
                        ("Chebyshev", lambda: mp.ChebyshevGaussQuadrature(n, **kw), -.5),
                        ("Chebyshev 1", lambda: mp.ChebyshevGaussQuadrature(n, 1, **kw), -.5),
                        ("Chebyshev 2", lambda: mp.ChebyshevGaussQuadrature(n, kind=2, **kw),
                         .5),
                        ("Gegenbauer", lambda: mp.GaussGegenbauerQuadrature(1.3, n, **kw), 1.3),
                        ("Gegenbauer", lambda: mp.GaussGegenbauerQuadrature(-.3, n, **kw),
                         -.3)):
                    okc, q = B.call("constructed", mk, rule=nm, N=n, backend=be)
                    if okc:
                        B.equal("exactness announced", q.exact_to, 2*n + 1, N=n)
                        check_1d(B, q.nodes, q.weights, 2*n + 1, a, a, n + 1, dim=dim,
                                 rule=nm, N=n, backend=be, axis=dim)
    for a, b in ((-.3, -.7), (0, -1), (-.9, -.1)):
        if b > -1:
            B.raises("sum -1", ValueError, lambda: mp.JacobiGaussQuadrature(
                a, b, 3, force_dim_axis=True), alpha=a, beta=b)
    B.raises("backend", NotImplementedError, lambda: mp.JacobiGaussQuadrature(
        0, 0, 3, backend="x", force_dim_axis=True))
    B.raises("kind", ValueError, lambda: mp.ChebyshevGaussQuadrature(3, 3, force_dim_axis=True))


@CHECK.battery("Gauss rules for large parameters", functions=[JGQ, CWN])
def _(B):
    import mpmath
    import modepy as mp
    for a, b in ((60, 60), (100, 0), (0, 120), (151, 0), (150, 3), (-.5, 150), (80, 85)):
        with mpmath.workdps(40):
            mu = [mpmath.quad(lambda u, k=k: 2**(mpmath.mpf(a) + b + 1) * (2*u)**k
                              * u**mpmath.mpf(a) * (1 - u)**mpmath.mpf(b),
                              [0, .02, .1, .3, .5, .7, .9, .98, 1]) for k in range(4)]
        for n in (1, 2, 5, 12):
            okc, q = B.call("constructed", lambda: mp.JacobiGaussQuadrature(
                a, b, n, force_dim_axis=True), alpha=a, beta=b, N=n)
            if okc:
                x = q.nodes[0]
                for k in range(4):
                    B.close("moment of the weight", np.sum(q.weights * (1 - x)**k), float(mu[k]),
                            1e-8, 0, alpha=a, beta=b, N=n, k=k)


@CHECK.battery("Gauss-Lobatto rules", functions=[JG + "JacobiGaussLobattoQuadrature.__init__"])
def _(B):
    import modepy as mp
    from modepy.quadrature.jacobi_gauss import (
        jacobi_gauss_lobatto_nodes, legendre_gauss_lobatto_nodes,
    )
    for n in list(range(1, 13)) + [20, 40]:
        for be in (None, "scipy"):
            for dim in (False, True):
                kw = dict(backend=be, force_dim_axis=dim)
                for a, b in [(0, 0), (1, 0), (0, 1), (.5, .5), (-.5, -.5), (-.3, .8), (2, 3),
                             (-.9, -.9), (-.9, 1.2)]:
                    t = dict(rule="Lobatto", alpha=a, beta=b, N=n, backend=be, axis=dim)
                    okc, q = B.call("constructed", lambda: mp.JacobiGaussLobattoQuadrature(
                        a, b, n, **kw), **t)
                    if okc:
                        B.equal("exactness announced", q.exact_to, 2*n - 1, N=n)
                        check_1d(B, q.nodes, q.weights, 2*n - 1, a, b, n + 1, ends=True,
                                 dim=dim, **t)
                        x = jacobi_gauss_lobatto_nodes(a, b, n, **kw)
                        B.close("the same nodes", x, q.nodes, 1e-12, 1e-12, **t)
                okc, q = B.call("constructed", lambda: mp.LegendreGaussLobattoQuadrature(
                    n, **kw), N=n)
                if okc:
                    B.equal("exactness announced", q.exact_to, 2*n - 1, N=n)
                    check_1d(B, q.nodes, q.weights, 2*n - 1, 0, 0, n + 1, ends=True, dim=dim,
                             rule="Legendre-Lobatto", N=n, backend=be)
                    B.close("the same nodes", legendre_gauss_lobatto_nodes(n, **kw), q.nodes,
                            1e-12, 1e-12, N=n)
    B.raises("one node", ValueError, lambda: mp.LegendreGaussLobattoQuadrature(
        0, force_dim_axis=True))
    for dim in (False, True):
        B.equal("degenerate node set", legendre_gauss_lobatto_nodes(
            0, force_dim_axis=dim).tolist(), [[0.0]] if dim else [0.0], axis=dim)


@CHECK.battery("Clenshaw-Curtis and Fejer rules", functions=[
    CC + "ClenshawCurtisQuadrature.__init__", CC + "FejerQuadrature.__init__",
    CC + "_make_fejer1_nodes_and_weights"])
def _(B):
    import modepy as mp
    for n in list(range(1, 41)) + [50, 63, 64, 65, 100, 101] + (
            [200, 255, 256, 300] if B.thorough else []):
        for dim in (False, True):
            okc, q = B.call("constructed", lambda: mp.ClenshawCurtisQuadrature(
                n, force_dim_axis=dim), N=n)
            if okc:
                B.equal("exactness announced", q.exact_to, n, N=n)
                check_1d(B, q.nodes, q.weights, n, 0, 0, n + 1, ends=True, dim=dim,
                         rule="Clenshaw-Curtis", N=n)
            okc, q = B.call("constructed", lambda: mp.FejerQuadrature(
                n, force_dim_axis=dim), N=n)
            if okc:
                check_1d(B, q.nodes, q.weights, n - 1, 0, 0, n, dim=dim, rule="Fejer 1", N=n)
            if n > 1:
                okc, q = B.call("constructed", lambda: mp.FejerQuadrature(
                    n, kind=2, force_dim_axis=dim), N=n)
                if okc:
                    check_1d(B, q.nodes, q.weights, n - 2, 0, 0, n - 1, dim=dim,
                             rule="Fejer 2", N=n)
    for bad in (0, -1):
        B.raises("order", ValueError, lambda: mp.ClenshawCurtisQuadrature(
            bad, force_dim_axis=True), N=bad)
        B.raises("order", ValueError, lambda: mp.FejerQuadrature(bad, force_dim_axis=True),
                 N=bad)
        B.raises("order", ValueError, lambda: mp.FejerQuadrature(
            bad + 1, kind=2, force_dim_axis=True), N=bad)
    B.raises("kind", ValueError, lambda: mp.FejerQuadrature(3, kind=3, force_dim_axis=True))


@CHECK.battery("Kronrod rules", functions=["modepy.quadrature.kronrod.kronrod",
                                           "modepy.quadrature.kronrod.gauss"])
def _(B):
    from modepy.quadrature.kronrod import gauss, kronrod, make_kronrod_quadrature
    for n in range(1, 61 if B.thorough else 31):
        x, w = gauss(n)
        check_1d(B, x, w, 2*n - 1, count=n, rule="gauss", N=n)
        okc, q = B.call("constructed", lambda: make_kronrod_quadrature(n), N=n)
        if not okc:
            continue
        G = q.gauss_quadrature
        B.equal("announced", (q.exact_to, G.exact_to, q.dim, G.dim), (3*n + 1, 2*n - 1, 1, 1),
                N=n)
        check_1d(B, G.nodes, G.weights, 2*n - 1, count=n, rule="embedded Gauss", N=n)
        X = np.hstack([G.nodes, q.nodes])
        Wt = np.hstack([q.weights_at_gauss_nodes, q.weights])
        check_1d(B, X, Wt, 3*n + 1, count=2*n + 1, rule="Kronrod", N=n)
        for k in range(3*n + 2):
            B.close("applied to a polynomial", q(lambda t: t**k), (1 + (-1)**k) / (k + 1),
                    1e-11, 1e-11, N=n, k=k)
        xs, ws, gs = kronrod(n)
        B.ok("half rule ends at zero", len(xs) == len(ws) == n + 1 and abs(xs[-1]) < 1e-14
             and np.all(np.diff(xs) > 0), N=n)
        B.equal("embedded weights", len(gs), (n + 1) // 2, N=n)
    for f in (gauss, kronrod):
        B.raises("order", ValueError, lambda: f(0), rule=f.__name__)


def _compositions(total, parts):
    if parts == 1:
        yield (total,)
        return
    for first in range(total + 1):
        for rest in _compositions(total - first, parts - 1):
            yield (first, *rest)


# the fractions by which Grundmann-Moeller points are recognised: Euclid's algorithm

GM = "modepy.quadrature.grundmann_moeller."


class Euclid:
    """(q, r) = M (q0, r0) with integer M of determinant +-1, so every integer combination and
    every common divisor of the current pair is one of the original pair; r shrinks"""

    def __init__(self, v, q0, r0):
        self.v, self.q0, self.r0, self.left = v, lift(q0), lift(r0), False

    def roles(self, loop, env):
        v = self.v
        out = {}
        for k in loop.names:
            x = env.get(k)
            if isinstance(x, tuple) and x in ((1, 0), (0, 1)):
                out["Q" if x == (1, 0) else "R"] = k
            elif isinstance(x, (SNum, int)) and not isinstance(x, bool):
                for r, t in (("q", self.q0), ("r", self.r0)):
                    if r not in out and v.entails(T.eq(lift(x), t)):
                        out[r] = k
                        break
        if sorted(out) != ["Q", "R", "q", "r"]:
            raise Unsupported("the variables of Euclid's algorithm are not recognised")
        return out

    def det(self, a, b):
        return T.sub(T.mul(lift(a[0]), lift(b[1])), T.mul(lift(a[1]), lift(b[0])))

    def comb(self, m):
        return T.add(T.mul(lift(m[0]), self.q0), T.mul(lift(m[1]), self.r0))

    def conditions(self, loop, env, when):
        v = self.v
        if when == "entry":
            self.role = self.roles(loop, env)
            mk = lambda n: wrap(T.fresh(n, "I"))     # noqa: E731
            A, C = (mk("a"), mk("a")), (mk("c"), mk("c"))
            self.sign = v.choose("sign of the determinant")
            self.head = {"Q": A, "R": C, "q": wrap(self.comb(A)), "r": wrap(self.comb(C))}
        q, r, Q, R = (env[self.role[k]] for k in "qrQR")
        D = self.det(Q, R)
        if when == "head":
            # exactly what is assumed of an arbitrary iteration
            yield "determinant", T.eq(D, T.num(1 if self.sign else -1))
            self.bound = lift(r)
        else:
            yield "first number is its combination", T.eq(lift(q), self.comb(Q))
            yield "second number is its combination", T.eq(lift(r), self.comb(R))
            if when == "end":
                hq, hr = self.head["Q"], self.head["R"]
                yield "determinant only changes sign", T.or_(
                    T.eq(D, T.neg(self.det(hq, hr))), T.eq(D, self.det(hq, hr)))
                yield "the remainder shrinks", T.lt(lift(r), self.bound)
            else:
                yield "determinant", T.or_(T.eq(D, T.ONE), T.eq(D, T.num(-1)))
        yield "non-negative", T.and_(T.le(T.ZERO, lift(q)), T.le(T.ZERO, lift(r)))

    def havoc(self, loop, name, entry):
        for k, n in self.role.items():
            if n == name:
                return self.head[k]
        return None


@CHECK.vc("extended Euclid: combination and common divisor", functions=[GM + "_extended_euclidean"])
def _(v, W):
    gm = W.modules["modepy.quadrature.grundmann_moeller"]
    q0, r0 = v.int("q", lo=0), v.int("r", lo=0)
    v.assume(r0 <= q0)
    inv = v.while_inv["_extended_euclidean"] = Euclid(v, q0, r0)
    p, a, b = gm._extended_euclidean(q0, r0)
    if not hasattr(inv, "head"):
        raise Unsupported("no loop")
    v.prove_eq("Bezout", p, a*q0 + b*r0)
    # the common divisor: the cofactors are read off the inverse of M
    C, D = inv.head["R"], inv.det(inv.head["Q"], inv.head["R"])
    c = [lift(x) for x in C]
    v.prove("divides the first", T.eq(lift(q0), T.mul(T.mul(D, c[1]), lift(p))))
    v.prove("divides the second", T.eq(lift(r0), T.mul(T.mul(T.neg(D), c[0]), lift(p))))
    v.cover("end")


@CHECK.vc("extended Euclid: arguments in the other order", functions=[GM + "_extended_euclidean"],
          uses=[GM + "_extended_euclidean"])
def _(v, W):
    gm = W.modules["modepy.quadrature.grundmann_moeller"]
    q0, r0 = v.int("q", lo=0), v.int("r", lo=0)
    v.assume(q0 < r0)
    orig = gm._extended_euclidean
    u, w = v.int("u"), v.int("w")

    def inner(q, r):
        v.prove("larger number first", wrap(T.le(lift(r), lift(q))))
        v.prove("non-negative", wrap(T.le(T.ZERO, lift(r))))
        return u*q + w*r, u, w
    W.patch(GM + "_extended_euclidean", inner)
    p, a, b = orig(q0, r0)
    v.prove_eq("Bezout", p, a*q0 + b*r0)
    v.prove_eq("the same common divisor", p, u*r0 + w*q0)
    v.cover("end")


@CHECK.vc("reduced fraction", functions=[GM + "_simplify_fraction", GM + "_gcd"],
          uses=[GM + "_extended_euclidean"])
def _(v, W):
    gm = W.modules["modepy.quadrature.grundmann_moeller"]
    g, m, n = v.int("g", lo=1), v.int("m", lo=0), v.int("n", lo=1)
    u, w = v.int("u"), v.int("w")

    def euclid(q, r):
        v.prove_eq("numerator or denominator", q, g*m)
        v.prove_eq("denominator or numerator", r, g*n)
        return g, u, w
    W.patch(GM + "_extended_euclidean", euclid)
    x, y = gm._simplify_fraction((g*m, g*n))
    v.prove_eq("numerator divided by the common divisor", x, m)
    v.prove_eq("denominator divided by the common divisor", y, n)
    v.cover("end")


@CHECK.battery("Grundmann-Moeller rules", functions=[
    "modepy.quadrature.grundmann_moeller.GrundmannMoellerSimplexQuadrature.__init__"])
def _(B):
    import modepy as mp
    from math import comb, factorial
    from modepy.quadrature import isinf
    top = {1: 20, 2: 14, 3: 11, 4: 7, 5: 5, 6: 4, 7: 3} if B.thorough else \
        {1: 15, 2: 11, 3: 9, 4: 6, 5: 4, 6: 3, 7: 2}
    for n in top:
        for s in range(top[n]):
            okc, q = B.call("constructed", lambda: mp.GrundmannMoellerSimplexQuadrature(s, n),
                            order=s, dim=n)
            if not okc:
                continue
            d = 2*s + 1
            cnt = comb(n + s + 1, s)
            B.equal("exactness announced", q.exact_to, d, order=s, dim=n)
            B.ok("shapes", q.nodes.ndim == 2 and q.nodes.shape[0] == n and
                 q.weights.shape == (q.nodes.shape[1],), order=s, dim=n)
            B.ok("at most the classical number of nodes", q.nodes.shape[1] <= cnt, order=s,
                 dim=n)
            lam = np.vstack([(1 + q.nodes) / 2, 1 - ((1 + q.nodes) / 2).sum(0)])
            B.ok("nodes in the element", np.all(lam >= -1e-13), order=s, dim=n)
            B.equal("distinct nodes", len({tuple(np.round(c, 10)) for c in q.nodes.T}),
                    q.nodes.shape[1], order=s, dim=n)
            # moments of barycentric monomials:  int lam^k = n! prod k! / (n + |k|)! vol
            scale = np.abs(q.weights).sum()
            vol = 2.0**n / factorial(n)
            for tot in range(d + 1):
                for k in _compositions(tot, n):
                    want = vol * factorial(n) * np.prod([float(factorial(i)) for i in k]) \
                        / factorial(n + sum(k))
                    got = (q.weights * np.prod([lam[i]**k[i] for i in range(n)], axis=0)).sum()
                    B.close("moment", got, want, 1e-12, 1e-14 * scale, order=s, dim=n, k=k)
    q = mp.GrundmannMoellerSimplexQuadrature(3, 0)
    B.ok("a point", isinf(q.exact_to) and q.nodes.shape == (0, 1)
         and q.weights.tolist() == [1.0])
    from modepy.quadrature import grundmann_moeller as gm
    for a in range(-12, 40):
        for b in range(1, 40):
            r = B.private(gm, "_extended_euclidean", a, b)
            if r is not None:
                g, u, w = r
                B.ok("extended Euclid", g == u*a + w*b and a % g == 0 and b % g == 0, a=a, b=b)
            r = B.private(gm, "_simplify_fraction", (a, b))
            if r is not None:
                B.ok("same fraction", Fraction(*r) == Fraction(a, b), a=a, b=b)

# }}}
