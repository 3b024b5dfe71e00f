"""C09: mass, bilinear-form and test matrices."""
import numpy as np

from pyvc import terms as T
from pyvc.runtime import _delta
from pyvc.sym import lift, wrap, new_array, snapshot, F8
from .base import Check
from .linear import Fns, vdm_stub, sums, coef

CHECK = Check(
    "C09", level="proof",
    trusted=["numpy.linalg.solve/inv by contract: inv(A) is the two-sided inverse, "
             "solve(A, B) = inv(A) B",
             "vandermonde by contract (C07)",
             "orthonormality of a basis (C02): the integral of a product of two of its "
             "functions is the product of their coefficients"],
    assumptions=["'unisolvent' means the Vandermonde matrix on the nodes is invertible",
                 "face functions, node maps and basis functions are pure"])

M = "modepy.matrices."
INV, MASS = M + "inverse_mass_matrix", M + "mass_matrix"
DELTA = lambda a, b: _delta(lift(a), lift(b))   # noqa: E731


def small(v, name, lo=1, hi=3):
    return v.int(name, lo=lo, sample=lambda r: r.randint(lo, hi))


def node_map(d, dd):
    """an arbitrary map of points in d dimensions to dd dimensions"""
    def at(rd, k, *i):
        return T.app(f"map{k}", *[rd((T.num(a), *[lift(z) for z in i])) for a in range(d)])

    def f(x):
        rd = snapshot(x)
        return new_array((T.num(dd), *x.shape[1:]),
                         lambda i: _pick(i[0], [at(rd, k, *i[1:]) for k in range(dd)]), F8)
    return f, at


def _pick(i, ts):
    if i.op == "num":
        return ts[int(i.args[0])]
    r = ts[-1]
    for k in range(len(ts) - 2, -1, -1):
        r = T.ite(T.eq(i, T.num(k)), ts[k], r)
    return r


class Quad:
    def __init__(self, v, d):
        self.dim = d
        self.n = small(v, "nq", 0)
        self.nodes = v.array("xq", (d, self.n))
        self.weights = v.array("wq", (self.n,))
        self.rx, self.rw = snapshot(self.nodes), snapshot(self.weights)

    def at(self, k, q):
        return self.rx((T.num(k), q))

    def w(self, q):
        return self.rw((q,))

    def unchanged(self, v):
        v.prove_array("rule's nodes unchanged", self.nodes, (self.dim, self.n),
                      lambda k, i: wrap(self.rx((lift(k), lift(i)))))
        v.prove_array("rule's weights unchanged", self.weights, (self.n,),
                      lambda i: wrap(self.rw((lift(i),))))


# {{{ mass matrix

def _inverse_mass(d, seq):
    def h(v, W):
        mat = W.modules["modepy.matrices"]
        W.patch("modepy.matrices.vandermonde", vdm_stub)
        n, m = small(v, "n"), small(v, "m")
        x = v.array("x", (d, m))
        rx = snapshot(x)
        F = Fns("F", n, d)
        if seq:
            arg = F
        else:
            class B(W.modules["modepy.modes"].Basis):
                functions = F

                def orthonormality_weight(self):
                    return 1
            B.__abstractmethods__ = frozenset()
            arg = B()
        A = mat.inverse_mass_matrix(arg, x)
        v.prove_array("product of the Vandermonde matrix with its transpose", A, (m, m),
                      lambda i, j: wrap(sums([n], lambda k: T.mul(
                          F.at(rx, k, i), F.at(rx, k, j)))))
        v.prove_array("nodes unchanged", x, (d, m), lambda k, i: wrap(rx((lift(k), lift(i)))))
        v.cover("end")
    return h


for _d in (1, 2, 3):
    for _s in (False, True):
        CHECK.vc(f"inverse_mass_matrix {_d}d{', functions' if _s else ''}", functions=[INV],
                 uses=["modepy.matrices.vandermonde"])(_inverse_mass(_d, _s))


@CHECK.vc("inverse_mass_matrix rejects bases that are not orthonormal", functions=[INV, MASS])
def _(v, W):
    mat, modes = W.modules["modepy.matrices"], W.modules["modepy.modes"]
    W.patch("modepy.matrices.vandermonde", vdm_stub)
    n = small(v, "n")
    x = v.array("x", (2, n))
    wt = v.real("weight")
    v.assume(wrap(T.not_(T.eq(lift(wt), T.num(1)))))

    def none(self):
        raise modes.BasisNotOrthonormal

    class Weighted(modes.Basis):
        functions = Fns("F", n, 2)

        def orthonormality_weight(self):
            return wt

    class Not(modes.Basis):
        functions = Fns("F", n, 2)
        orthonormality_weight = none
    for cls in (Weighted, Not):
        cls.__abstractmethods__ = frozenset()
        for f in (mat.inverse_mass_matrix, mat.mass_matrix):
            try:
                f(cls(), x)
            except NotImplementedError:
                v.ok(f"NotImplementedError for {cls.__name__} from {f.__name__}")
            else:
                v.fail(f"NotImplementedError for {cls.__name__} from {f.__name__}")
    v.cover("end")


@CHECK.vc("mass_matrix is the inverse of inverse_mass_matrix", functions=[MASS], uses=[INV])
def _(v, W):
    mat = W.modules["modepy.matrices"]
    n = small(v, "n")
    x = v.array("x", (2, n))
    tok = object()

    def stub(b, nodes):
        v.prove("basis passed on", T.TRUE if b is tok else T.FALSE)
        v.prove("nodes passed on", T.TRUE if nodes is x else T.FALSE)
        return new_array((n, n), lambda i: T.app("A", *i), F8)
    W.patch("modepy.matrices.inverse_mass_matrix", stub)
    P = mat.mass_matrix(tok, x)
    rd = snapshot(P)
    i, k = (v.int(s, lo=0, sample=lambda r: 0) for s in "ik")
    v.assume(i < n)
    v.assume(k < n)
    v.prove_eq("rows", P.shape[0], n)
    v.prove_eq("columns", P.shape[1], n)
    v.prove_eq("left inverse", wrap(sums([n], lambda j: T.mul(
        rd((lift(i), j)), T.app("A", j, lift(k))))), wrap(DELTA(i, k)))
    v.prove_eq("right inverse", wrap(sums([n], lambda j: T.mul(
        T.app("A", lift(i), j), rd((j, lift(k)))))), wrap(DELTA(i, k)))
    v.cover("end")


@CHECK.vc("lemma: (V c)^T inv(V V^T) (V d) = c^T d for invertible V")
def _(v, W):
    """Chains the two contracts to the statement about integrals of interpolants: with
    A = V V^T and A M = 1, X := V^T M satisfies V X = A M = 1, hence X = inv(V), hence
    (V c)^T M (V d) = c^T X V d = c^T d."""
    la = W.modules["modepy.matrices"].la
    n = small(v, "n")
    V_ = lambda i, j: T.app("V", lift(i), lift(j))     # noqa: E731
    M_ = lambda i, j: T.app("M", lift(i), lift(j))     # noqa: E731
    X_ = lambda i, j: T.app("X", lift(i), lift(j))     # noqa: E731
    winv = snapshot(la.inv(new_array((n, n), lambda i: V_(*i), F8)))
    i, j = (v.int(s, lo=0, sample=lambda r: 0) for s in "ij")
    v.assume(i < n)
    v.assume(j < n)
    v.prove_eq("V (V^T M) = (V V^T) M",
               wrap(sums([n, n], lambda k, a: T.mul(V_(i, k), V_(a, k), M_(a, j)))),
               wrap(sums([n, n], lambda a, k: T.mul(V_(i, k), V_(a, k), M_(a, j)))))
    v.prove_eq("inv(V) (V X) = X", wrap(sums([n, n], lambda a, b: T.mul(
        winv((lift(i), a)), V_(a, b), X_(b, j)))), wrap(X_(i, j)))
    v.prove_eq("inv(V) 1 = inv(V)", wrap(sums([n], lambda a: T.mul(
        winv((lift(i), a)), DELTA(a, j)))), wrap(winv((lift(i), lift(j)))))
    v.prove_eq("inv(V) V = 1", wrap(sums([n], lambda a: T.mul(
        winv((lift(i), a)), V_(a, j)))), wrap(DELTA(i, j)))
    c, d = coef("c"), coef("d")
    v.prove_eq("c^T inv(V) V d = c^T d", wrap(sums([n, n, n], lambda a, b, e: T.mul(
        c(a), winv((a, b)), V_(b, e), d(e)))), wrap(sums([n], lambda a: T.mul(c(a), d(a)))))
    v.cover("end")

# }}}


# {{{ quadrature-based matrices

def _test_matrix(d, own_nodes, mapped):
    def h(v, W):
        mat = W.modules["modepy.matrices"]
        W.patch("modepy.matrices.vandermonde", vdm_stub)
        q = Quad(v, d)
        dt = d + 1 if mapped else d
        n = small(v, "n") if own_nodes else q.n
        fm, fat = node_map(d, dt)
        x = v.array("x", (dt, n)) if own_nodes else q.nodes
        rx = snapshot(x)
        Tst, Nod = Fns("T", n, dt), Fns("N", n, dt if own_nodes else d)
        kw = {}
        if own_nodes:
            kw["nodes"] = x
        if mapped:
            kw["test_function_node_map"] = fm
        A = mat.nodal_quadrature_test_matrix(q, Tst, Nod, **kw)
        v.prove_eq("one row per node", A.shape[0], n)
        v.prove_eq("one column per quadrature node", A.shape[1], q.n)
        rd = snapshot(A)
        a = coef("a")
        k = v.int("k", lo=0, sample=lambda r: 0)
        v.assume(k < q.n)
        k = lift(k)
        lhs = sums([n, n], lambda i, j: T.mul(a(j), Nod.at(rx, j, i), rd((i, k))))

        def tv(j):
            if mapped:
                return T.app("T", j, *[fat(q.rx, c, k) for c in range(dt)])
            return Tst.at(q.rx, j, k)
        rhs = sums([n], lambda j: T.mul(q.w(k), a(j), tv(j)))
        v.prove_eq("weights times test function at the quadrature nodes", wrap(lhs), wrap(rhs))
        q.unchanged(v)
        v.cover("end")
    return h


def _bilinear(d, out_nodes, mapped):
    def h(v, W):
        mat = W.modules["modepy.matrices"]
        W.patch("modepy.matrices.vandermonde", vdm_stub)
        q = Quad(v, d)
        dt = d + 1 if mapped else d
        nb = small(v, "nb")
        na = small(v, "na") if out_nodes else nb
        fm, fat = node_map(d, dt)
        xi = v.array("xi", (d, nb))
        xo = v.array("xo", (dt, na)) if out_nodes else xi
        ri, ro = snapshot(xi), snapshot(xo)
        tst, tri = Fns("T", na, dt), Fns("R", nb, d)
        ntst, ntri = Fns("NT", na, dt if out_nodes else d), Fns("NR", nb, d)
        kw = {}
        if out_nodes:
            kw["output_nodes"] = xo
        if mapped:
            kw["test_function_node_map"] = fm
        A = mat.nodal_quadrature_bilinear_form_matrix(q, tst, tri, ntst, ntri, xi, **kw)
        v.prove_eq("one row per output node", A.shape[0], na)
        v.prove_eq("one column per input node", A.shape[1], nb)
        rd = snapshot(A)
        a, b = coef("a"), coef("b")
        lhs = sums([na, nb, na, nb], lambda i, j, k, l: T.mul(
            a(k), ntst.at(ro, k, i), rd((i, j)), ntri.at(ri, l, j), b(l)))

        def tv(k, s):
            if mapped:
                return T.app("T", k, *[fat(q.rx, c, s) for c in range(dt)])
            return tst.at(q.rx, k, s)
        rhs = sums([q.n, na, nb], lambda s, k, l: T.mul(
            q.w(s), a(k), tv(k, s), tri.at(q.rx, l, s), b(l)))
        v.prove_eq("quadrature sum of test times trial", wrap(lhs), wrap(rhs))
        q.unchanged(v)
        v.prove_array("input nodes unchanged", xi, (d, nb),
                      lambda k, i: wrap(ri((lift(k), lift(i)))))
        v.cover("end")
    return h


NQT, NQB = M + "nodal_quadrature_test_matrix", M + "nodal_quadrature_bilinear_form_matrix"
for _d in (1, 2):
    for _o in (False, True):
        for _m in (False, True):
            _s = f"{_d}d{', own nodes' if _o else ''}{', node map' if _m else ''}"
            CHECK.vc(f"nodal_quadrature_test_matrix {_s}", functions=[NQT],
                     uses=["modepy.matrices.vandermonde"])(_test_matrix(_d, _o, _m))
            CHECK.vc(f"nodal_quadrature_bilinear_form_matrix {_s}", functions=[NQB],
                     uses=["modepy.matrices.vandermonde"])(_bilinear(_d, _o, _m))


@CHECK.vc("counts of nodes and functions that do not match are rejected",
          functions=[NQT, NQB, M + "nodal_quad_mass_matrix",
                     M + "nodal_quad_mass_matrix_for_face", M + "nodal_mass_matrix_for_face"])
def _(v, W):
    mat = W.modules["modepy.matrices"]
    W.patch("modepy.matrices.vandermonde", vdm_stub)
    q = Quad(v, 2)
    n, m = small(v, "n"), small(v, "m")
    v.assume(wrap(T.not_(T.eq(lift(m), lift(n)))))
    x, y = v.array("x", (2, m)), v.array("y", (2, n))
    F = Fns("F", n, 2)

    class face:
        map_to_volume = staticmethod(node_map(2, 2)[0])
    for name, f in [
            ("test matrix", lambda: mat.nodal_quadrature_test_matrix(q, F, F, x)),
            ("bilinear form, test side",
             lambda: mat.nodal_quadrature_bilinear_form_matrix(q, F, F, F, F, y, x)),
            ("bilinear form, trial side",
             lambda: mat.nodal_quadrature_bilinear_form_matrix(q, F, F, F, F, x, y)),
            ("nodal_quad_mass_matrix", lambda: mat.nodal_quad_mass_matrix(q, F, x)),
            ("nodal_quad_mass_matrix_for_face",
             lambda: mat.nodal_quad_mass_matrix_for_face(face, q, F, x)),
            ("nodal_mass_matrix_for_face",
             lambda: mat.nodal_mass_matrix_for_face(face, q, F, F, y, x))]:
        try:
            f()
        except ValueError:
            v.ok(f"ValueError from {name}")
        else:
            v.fail(f"ValueError from {name}")
    v.cover("end")

# }}}


# {{{ deprecated variants and the diagonal

def _modal_quad(d, face):
    def h(v, W):
        mat = W.modules["modepy.matrices"]
        q = Quad(v, d)
        dt = d + 1 if face else d
        n = small(v, "n", 0)
        fm, fat = node_map(d, dt)
        F = Fns("F", n, dt)

        class fc:
            map_to_volume = staticmethod(fm)
        A = mat.modal_quad_mass_matrix_for_face(fc, q, F) if face else \
            mat.modal_quad_mass_matrix(q, F)
        v.prove_array("weight times test function at each quadrature node", A, (n, q.n),
                      lambda i, k: wrap(T.mul(q.w(lift(k)), T.app("F", lift(i), *[
                          fat(q.rx, c, lift(k)) for c in range(dt)]) if face else
                          F.at(q.rx, lift(i), lift(k)))))
        q.unchanged(v)
        v.cover("end")
    return h


def _nodal_quad(d, face, own):
    def h(v, W):
        mat = W.modules["modepy.matrices"]
        W.patch("modepy.matrices.vandermonde", vdm_stub)
        q = Quad(v, d)
        dt = d + 1 if face else d
        n = small(v, "n") if own else q.n
        fm, fat = node_map(d, dt)
        F = Fns("F", n, dt)
        x = v.array("x", (dt, n)) if own else q.nodes
        rx = snapshot(x)

        class fc:
            map_to_volume = staticmethod(fm)

        def stub(*args):
            v.prove("arguments passed on", T.TRUE if args[-1] is F and args[-2] is q and (
                not face or args[0] is fc) else T.FALSE)
            return new_array((n, q.n), lambda i: T.app("B", *i), F8)
        W.patch("modepy.matrices." + ("modal_quad_mass_matrix_for_face" if face else
                                      "modal_quad_mass_matrix"), stub)
        if face:
            A = mat.nodal_quad_mass_matrix_for_face(fc, q, F, x)
        else:
            A = mat.nodal_quad_mass_matrix(q, F, *([x] if own else []))
        v.prove_eq("rows", A.shape[0], n)
        v.prove_eq("columns", A.shape[1], q.n)
        rd, a = snapshot(A), coef("a")
        k = v.int("k", lo=0, sample=lambda r: 0)
        v.assume(k < q.n)
        v.prove_eq("nodal values of the test function times the matrix are its modal row",
                   wrap(sums([n, n], lambda i, j: T.mul(a(j), F.at(rx, j, i),
                                                        rd((i, lift(k)))))),
                   wrap(sums([n], lambda j: T.mul(a(j), T.app("B", j, lift(k))))))
        v.cover("end")
    return h


def _modal_face(d):
    def h(v, W):
        mat = W.modules["modepy.matrices"]
        q = Quad(v, d)
        na, nb = small(v, "na", 0), small(v, "nb", 0)
        fm, fat = node_map(d, d + 1)
        tri, tst = Fns("R", nb, d), Fns("T", na, d + 1)

        class fc:
            map_to_volume = staticmethod(fm)
        A = mat.modal_mass_matrix_for_face(fc, q, tri, tst)
        v.prove_array("quadrature sum over the face of test times trial", A, (na, nb),
                      lambda i, j: wrap(sums([q.n], lambda s: T.mul(
                          q.w(s), tri.at(q.rx, lift(j), s),
                          T.app("T", lift(i), *[fat(q.rx, c, s) for c in range(d + 1)])))))
        q.unchanged(v)
        v.cover("end")
    return h


def _nodal_face(d):
    def h(v, W):
        mat = W.modules["modepy.matrices"]
        W.patch("modepy.matrices.vandermonde", vdm_stub)
        q = Quad(v, d)
        na, nb = small(v, "na"), small(v, "nb")
        tri, tst = Fns("R", nb, d), Fns("T", na, d + 1)
        xv, xf = v.array("xv", (d + 1, na)), v.array("xf", (d, nb))
        rv, rf = snapshot(xv), snapshot(xf)
        fc = object()

        def stub(*args):
            v.prove("arguments passed on", T.TRUE if len(args) == 4 and all(
                x is y for x, y in zip(args, (fc, q, tri, tst))) else T.FALSE)
            return new_array((na, nb), lambda i: T.app("B", *i), F8)
        W.patch("modepy.matrices.modal_mass_matrix_for_face", stub)
        A = mat.nodal_mass_matrix_for_face(fc, q, tri, tst, xv, xf)
        v.prove_eq("rows", A.shape[0], na)
        v.prove_eq("columns", A.shape[1], nb)
        rd, a, b = snapshot(A), coef("a"), coef("b")
        v.prove_eq("bilinear form of the interpolants",
                   wrap(sums([na, nb, na, nb], lambda i, j, k, l: T.mul(
                       a(k), tst.at(rv, k, i), rd((i, j)), tri.at(rf, l, j), b(l)))),
                   wrap(sums([na, nb], lambda k, l: T.mul(a(k), T.app("B", k, l), b(l)))))
        v.cover("end")
    return h


for _d in (1, 2):
    for _f in (False, True):
        _n = "modal_quad_mass_matrix" + ("_for_face" if _f else "")
        CHECK.vc(f"{_n} {_d}d", functions=[M + _n])(_modal_quad(_d, _f))
        for _o in ((True,) if _f else (False, True)):
            _nn = _n.replace("modal", "nodal")
            CHECK.vc(f"{_nn} {_d}d{', own nodes' if _o and not _f else ''}",
                     functions=[M + _nn], uses=[M + _n])(_nodal_quad(_d, _f, _o))
    CHECK.vc(f"modal_mass_matrix_for_face {_d}d",
             functions=[M + "modal_mass_matrix_for_face"])(_modal_face(_d))
    CHECK.vc(f"nodal_mass_matrix_for_face {_d}d", functions=[M + "nodal_mass_matrix_for_face"],
             uses=[M + "modal_mass_matrix_for_face"])(_nodal_face(_d))


@CHECK.vc("spectral_diag_nodal_mass_matrix returns the weights",
          functions=[M + "spectral_diag_nodal_mass_matrix"])
def _(v, W):
    mat, Q = W.modules["modepy.matrices"], W.modules["modepy.quadrature"]
    n = small(v, "n")
    w = v.array("w", (n,))
    rw = snapshot(w)

    class One:
        dim = 1

    class Two:
        dim = 2

    def tp(*qs):
        class TP(Q.TensorProductQuadrature):
            def __init__(self):
                pass
            quadratures = qs
            weights = w
        return TP()
    for k in (1, 2, 3):
        v.prove_array(f"weights of a product of {k} rules",
                      mat.spectral_diag_nodal_mass_matrix(tp(*[One()] * k)), (n,),
                      lambda i: wrap(rw((lift(i),))))
    for nm, bad in [("not a product", One()), ("two-dimensional factor", tp(One(), Two())),
                    ("two-dimensional factor", tp(Two(), One()))]:
        try:
            mat.spectral_diag_nodal_mass_matrix(bad)
        except ValueError:
            v.ok(f"ValueError: {nm}")
        else:
            v.fail(f"ValueError: {nm}")
    v.cover("end")

# }}}


# {{{ battery

def random_fns(B, dim, n):
    """n independent smooth functions of dim coordinates"""
    out = []
    for _ in range(n):
        k, p, c = B.nprng.uniform(-2, 2, dim), B.nprng.uniform(0, 6), B.nprng.uniform(-1, 1)
        out.append(lambda x, k=k, p=p, c=c: np.sin(np.tensordot(k, x, axes=1) + p) + c)
    return out


def ev(fs, x):
    return np.array([f(x) for f in fs]).reshape(len(fs), x.shape[1])


class Rule:
    def __init__(self, nodes, weights):
        self.nodes, self.weights = nodes, weights
        self.dim = nodes.shape[0]


@CHECK.battery("mass matrices", functions=[INV, MASS])
def _(B):
    import warnings

    from modepy.matrices import inverse_mass_matrix, mass_matrix
    from modepy.modes import monomial_basis_for_space
    from .refrule import reference_rule, total_order
    from .c08 import cases
    for name, sp, sh, b, nodes in cases(B.thorough):
        n = sp.space_dim
        if "mono" in name:
            if n > 1:
                B.raises("not orthonormal", NotImplementedError,
                         lambda: mass_matrix(b, nodes), case=name)
                B.raises("not orthonormal", NotImplementedError,
                         lambda: inverse_mass_matrix(b, nodes), case=name)
            continue
        x, w = reference_rule(sh, 2 * total_order(sp) + 1)
        V = ev(b.functions, nodes).T
        Vx = ev(b.functions, x).T
        cond = np.linalg.cond(V)
        u, v_ = B.nprng.uniform(-1, 1, (2, n))
        cu, cv = np.linalg.solve(V, u), np.linalg.solve(V, v_)
        want = (Vx @ cu * (Vx @ cv)) @ w
        Mm, Mi = mass_matrix(b, nodes), inverse_mass_matrix(b, nodes)
        tol = 1e-13 * cond**2 * 10
        B.close("u^T M v is the integral of the interpolants' product", u @ Mm @ v_, want,
                tol, tol, case=name)
        B.close("inverse", Mm @ Mi, np.eye(n), 0, tol * 10, case=name)
        B.close("V V^T", Mi, V @ V.T, 1e-12, 1e-12, case=name)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            B.close("sequence of functions", inverse_mass_matrix(b.functions, nodes), V @ V.T,
                    1e-12, 1e-12, case=name)


@CHECK.battery("quadrature matrices", functions=[NQT, NQB])
def _(B):
    import warnings

    import modepy.matrices as mat
    for d in (1, 2, 3):
        for na, nb, nq in [(1, 1, 1), (2, 3, 4), (4, 2, 3), (3, 3, 3), (6, 4, 9), (2, 2, 0)]:
            for dt, mapped in [(d, False), (d, True), (d + 1, True)]:
                q = Rule(B.nprng.uniform(-1, 1, (d, nq)), B.nprng.uniform(.1, 2, nq))
                q0 = q.nodes.copy(), q.weights.copy()
                A_, c_ = B.nprng.uniform(-1, 1, (dt, d)), B.nprng.uniform(-1, 1, (dt, 1))
                calls = []

                def fm(x):
                    calls.append(x)
                    return A_ @ x + c_
                mq = fm(q.nodes) if mapped else q.nodes
                tst, tri = random_fns(B, dt, na), random_fns(B, d, nb)
                ntst, ntri = random_fns(B, dt, na), random_fns(B, d, nb)
                xa, xb = B.nprng.uniform(-1, 1, (dt, na)), B.nprng.uniform(-1, 1, (d, nb))
                a, b, u = (B.nprng.uniform(-1, 1, k) for k in (na, nb, nq))
                Na, Nb = ev(ntst, xa), ev(ntri, xb)
                if max(np.linalg.cond(Na), np.linalg.cond(Nb)) > 1e5:
                    continue
                kw = {"test_function_node_map": fm} if mapped else {}
                inp = dict(d=d, na=na, nb=nb, nq=nq, mapped=mapped, dt=dt)
                T_, R_ = ev(tst, mq), ev(tri, q.nodes)
                X = mat.nodal_quadrature_test_matrix(q, tst, ntst, xa, **kw)
                B.close("test matrix", (a @ Na) @ X @ u, (q.weights * (a @ T_)) @ u,
                        1e-8, 1e-8, **inp)
                X = mat.nodal_quadrature_bilinear_form_matrix(q, tst, tri, ntst, ntri, xb, xa,
                                                              **kw)
                B.close("bilinear form matrix", (a @ Na) @ X @ (b @ Nb),
                        (q.weights * (a @ T_)) @ (b @ R_), 1e-8, 1e-8, **inp)
                B.ok("rule unchanged", (q0[0] == q.nodes).all() and (
                    q0[1] == q.weights).all(), **inp)
                if na == nb and dt == d:
                    X = mat.nodal_quadrature_bilinear_form_matrix(q, tst, tri, ntst, ntri, xb,
                                                                  **kw)
                    Na_ = ev(ntst, xb)
                    if np.linalg.cond(Na_) < 1e5:
                        B.close("output nodes default to the input nodes",
                                (a @ Na_) @ X @ (b @ Nb), (q.weights * (a @ T_)) @ (b @ R_),
                                1e-8, 1e-8, **inp)
                if na == nq and dt == d:
                    Nq = ev(ntst, q.nodes)
                    X = mat.nodal_quadrature_test_matrix(q, tst, ntst, **kw)
                    if np.linalg.cond(Nq) < 1e5:
                        B.close("nodes default to the rule's", (a @ Nq) @ X @ u,
                                (q.weights * (a @ T_)) @ u, 1e-8, 1e-8, **inp)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")

                    class face:
                        map_to_volume = staticmethod(fm)
                    if dt == d and not mapped:
                        B.close("modal_quad_mass_matrix", mat.modal_quad_mass_matrix(q, tst),
                                T_ * q.weights, 1e-12, 1e-12, **inp)
                        Ta = ev(tst, xa)
                        if np.linalg.cond(Ta) < 1e5:
                            B.close("nodal_quad_mass_matrix",
                                    (a @ Ta) @ mat.nodal_quad_mass_matrix(q, tst, xa),
                                    (a @ T_) * q.weights, 1e-8, 1e-8, **inp)
                    if mapped:
                        B.close("modal_mass_matrix_for_face",
                                mat.modal_mass_matrix_for_face(face, q, tri, tst),
                                (T_ * q.weights) @ R_.T, 1e-12, 1e-12, **inp)
                        B.close("modal_quad_mass_matrix_for_face",
                                mat.modal_quad_mass_matrix_for_face(face, q, tst),
                                T_ * q.weights, 1e-12, 1e-12, **inp)
                        Ta, Rb = ev(tst, xa), ev(tri, xb)
                        if max(np.linalg.cond(Ta), np.linalg.cond(Rb)) < 1e5:
                            X = mat.nodal_mass_matrix_for_face(face, q, tri, tst, xa, xb)
                            B.close("nodal_mass_matrix_for_face", (a @ Ta) @ X @ (b @ Rb),
                                    (q.weights * (a @ T_)) @ (b @ R_), 1e-8, 1e-8, **inp)
                            X = mat.nodal_quad_mass_matrix_for_face(face, q, tst, xa)
                            B.close("nodal_quad_mass_matrix_for_face", (a @ Ta) @ X,
                                    (a @ T_) * q.weights, 1e-8, 1e-8, **inp)
                    if na > 1:
                        bad = xa[:, 1:]
                        B.raises("unisolvence", ValueError,
                                 lambda: mat.nodal_quadrature_test_matrix(q, tst, ntst, bad),
                                 **inp)
                        B.raises("unisolvence", ValueError,
                                 lambda: mat.nodal_quadrature_bilinear_form_matrix(
                                     q, tst, tri, ntst, ntri, xb, bad), **inp)


@CHECK.battery("faces of the reference elements", functions=[NQB, NQT])
def _(B):
    """mass matrices of faces, with the library's own face maps and rules"""
    import modepy as mp
    from modepy.matrices import nodal_quadrature_bilinear_form_matrix
    for sh in (mp.Simplex(2), mp.Simplex(3), mp.Hypercube(2), mp.Hypercube(3)):
        for o in (1, 2, 3):
            sp = mp.space_for_shape(sh, o)
            vb = mp.basis_for_space(sp, sh)
            vn = mp.edge_clustered_nodes_for_space(sp, sh)
            for fi, f in enumerate(mp.faces_for_shape(sh)):
                fsp = mp.space_for_shape(f, o)
                fb = mp.basis_for_space(fsp, f)
                fn = mp.edge_clustered_nodes_for_space(fsp, f)
                q = mp.quadrature_for_space(mp.space_for_shape(f, 2 * o), f)
                X = nodal_quadrature_bilinear_form_matrix(
                    q, vb.functions, fb.functions, vb.functions, fb.functions, fn, vn,
                    test_function_node_map=f.map_to_volume)
                a = B.nprng.uniform(-1, 1, len(vb.functions))
                b = B.nprng.uniform(-1, 1, len(fb.functions))
                want = q.weights @ ((a @ ev(vb.functions, f.map_to_volume(q.nodes))) * (
                    b @ ev(fb.functions, q.nodes)))
                B.close("face form", (a @ ev(vb.functions, vn)) @ X @ (
                    b @ ev(fb.functions, fn)), want, 1e-9, 1e-9, shape=repr(sh), order=o,
                    face=fi)

# }}}
