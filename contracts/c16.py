"""C16: node sets."""
from fractions import Fraction
from itertools import product

import mpmath
import numpy as np

from pyvc import norm, terms as T
from pyvc.core import _replace1
from pyvc.runtime import b_len
from pyvc.sym import SSeq, lift, wrap, new_array, snapshot, asarr, F8
from .base import Check
from .linear import Fns, vdm_stub
from .c13 import _setup, _check_nodes

CHECK = Check(
    "C16", level="proof",
    trusted=["pytools' integer tuple generators (their contract: every tuple of nonnegative "
             "integers with sum at most the order, once)",
             "Legendre-Gauss-Lobatto nodes increase from -1 to 1 and are symmetric (C10)",
             "numpy.random.Generator.uniform returns numbers of the requested half-open range"],
    assumptions=["dimensions 0 to 6 are enumerated, orders are arbitrary",
                 "3d warp and blend: the order is below 10**8 on edges, at most 400 elsewhere "
                 "(tolerances in the code)",
                 "the interpolant of an odd function at points symmetric about 0 is odd (unique)",
                 "that random points are pairwise distinct holds with probability one and is "
                 "only tested"],
    bounded=["warp and blend nodes of the interior of triangles and tetrahedra lie inside and are "
             "distinct: orders up to 30 (2d) and 20 (3d); their positions are proved"])

ND = "modepy.nodes."
GNITSAM = "generate_nonnegative_integer_tuples_summing_to_at_most"


def _tuples(v, N, d, n):
    """the contract of the tuple generator"""
    tup = lambda q: [T.app(f"mode{k}", lift(q), sort="I") for k in range(d)]     # noqa: E731
    for k in range(d):
        v.axiom(f"mode{k}", lambda q: [T.or_(
            T.lt(q, T.ZERO), T.le(lift(n), q), T.and_(
                *[T.le(T.ZERO, t) for t in tup(q)],
                T.le(T.add(T.ZERO, *tup(q)), lift(N))))])

    def gn(a, b):
        v.prove_eq("tuples of sum at most the order", a, N)
        v.prove_eq("tuples of the dimension's length", b, d)
        return SSeq(lift(n), lambda q: tuple(wrap(t) for t in tup(q)), tuple)
    return tup, gn


def _check_equi(v, x, d, n, N, tup):
    v.prove_array("images of the node tuples, in the same order", x, (d, n),
                  lambda i, q: wrap(T.sub(T.div(T.mul(T.num(2), _pick(tup(q), i)), lift(N)), T.ONE)))
    q = v.int("q", lo=0, sample=lambda r: 0)
    v.assume(q < n)
    s = T.ZERO
    for i in range(d):
        v.prove(f"coordinate {i} not below the face", x[i, q] >= -1)
        s = T.add(s, lift(x[i, q]))
    if d:
        v.prove("not above the last face", wrap(T.le(s, T.num(2 - d))))


def _pick(xs, i):
    i = lift(i)
    if not xs:
        return T.ZERO
    r = xs[-1]
    for k in range(len(xs) - 2, -1, -1):
        r = T.ite(T.eq(i, T.num(k)), xs[k], r)
    return r


def _vertices(v, x, d, n, N, tup):
    """at every position holding the tuple of a vertex there is that vertex"""
    q = v.int("qv", lo=0, sample=lambda r: 0)
    v.assume(q < n)
    j = v.int("vertex", lo=0, hi=d)
    for k in range(d):
        v.assume(wrap(T.eq(tup(q)[k], T.ite(T.eq(lift(j), T.num(k + 1)), lift(N), T.ZERO))))
    for k in range(d):
        v.prove_eq("vertex", x[k, q], wrap(T.ite(T.eq(lift(j), T.num(k + 1)), T.ONE, T.num(-1))))


def _equi(d, how):
    def h(v, W):
        nd, sp, sh = (W.modules[f"modepy.{m}"] for m in ("nodes", "spaces", "shapes"))
        n, N = v.int("n", lo=1), v.int("N", lo=1)
        tup, gn = _tuples(v, N, d, n)
        W.pytools[GNITSAM] = gn
        if how == "space":
            x = nd.equispaced_nodes_for_space(sp.PN(d, N), sh.Simplex(d))
        elif how == "edge clustered":
            x = nd.edge_clustered_nodes_for_space(sp.PN(d, N), sh.Simplex(d))
        elif how == "default tuples":
            x = nd.equidistant_nodes(d, N)
        else:
            m = v.int("number", lo=1)
            try:
                x = nd.equidistant_nodes(d, N, SSeq(
                    lift(m), lambda q: tuple(wrap(t) for t in tup(q)), tuple))
            except ValueError:
                v.prove("wrong number of tuples", wrap(T.not_(T.eq(
                    lift(m), lift(sp.PN(d, N).space_dim)))))
                v.cover("end")
                return
            v.prove_eq("right number of tuples", m, sp.PN(d, N).space_dim)
            v.assume(n == m)
        _check_equi(v, x, d, n, N, tup)
        _vertices(v, x, d, n, N, tup)
        v.cover("end")
    return h


for _d in range(7):
    CHECK.vc(f"equispaced nodes {_d}d", functions=[ND + "_equispaced_nodes_for_pn",
                                                   ND + "_node_tuples_for_pn"])(_equi(_d, "space"))
    CHECK.vc(f"equidistant nodes {_d}d", functions=[ND + "equidistant_nodes"])(
        _equi(_d, "default tuples"))
    CHECK.vc(f"equidistant nodes {_d}d, given tuples", functions=[ND + "equidistant_nodes"])(
        _equi(_d, "tuples"))
    if _d > 3:
        CHECK.vc(f"edge clustered nodes {_d}d", functions=[ND + "_edge_clustered_nodes_for_pn"])(
            _equi(_d, "edge clustered"))


@CHECK.vc("distinct tuples give distinct points", functions=[ND + "equidistant_nodes"])
def _(v, W):
    N, a, b = v.int("N", lo=1), v.int("a", lo=0), v.int("b", lo=0)
    f = lambda t: T.sub(T.div(T.mul(T.num(2), lift(t)), lift(N)), T.ONE)     # noqa: E731
    v.assume(wrap(T.eq(f(a), f(b))))
    v.prove_eq("difference of the coordinates times the order", wrap(T.mul(
        lift(N), T.sub(f(a), f(b)))), wrap(T.mul(T.num(2), T.sub(lift(a), lift(b)))))
    v.cover("end")


@CHECK.vc("order zero: the centroid", functions=[
    ND + "_equispaced_nodes_for_pn", ND + "equidistant_nodes", ND + "warp_and_blend_nodes",
    ND + "_edge_clustered_nodes_for_pn"])
def _(v, W):
    nd, sp, sh = (W.modules[f"modepy.{m}"] for m in ("nodes", "spaces", "shapes"))
    for d in range(7):
        W.pytools[GNITSAM] = lambda N, d: iter([(0,) * d])
        for what, x in [
                ("equispaced", nd.equispaced_nodes_for_space(sp.PN(d, 0), sh.Simplex(d))),
                ("equidistant", nd.equidistant_nodes(d, 0)),
                ("edge clustered", nd.edge_clustered_nodes_for_space(sp.PN(d, 0), sh.Simplex(d))),
                ("warp and blend", nd.warp_and_blend_nodes(d, 0))]:
            v.prove(f"{what}: shape", T.TRUE if x.shape == (d, 1) else T.FALSE)
            for i in range(d):
                v.prove_eq(f"{what}: centroid", x[i, 0], wrap(T.sub(T.div(
                    T.num(2), T.num(d + 1)), T.ONE)))
    v.cover("end")


# {{{ one-dimensional Gauss-Lobatto nodes and their warp

def _gll(v, N, n1=None):
    g = lambda i: T.app("gll", lift(i))     # noqa: E731
    n1 = wrap(T.add(lift(N), T.ONE)) if n1 is None else n1

    def nodes(order, backend=None, force_dim_axis=False):
        v.prove_eq("order of the Gauss-Lobatto nodes", order, N)
        return new_array((1, n1), lambda i: g(i[1]), F8) if force_dim_axis else \
            new_array((n1,), lambda i: g(i[0]), F8)
    return g, nodes


@CHECK.vc("edge clustered and warp and blend nodes 1d", functions=[
    ND + "warp_and_blend_nodes", ND + "_edge_clustered_nodes_for_pn"])
def _(v, W):
    nd, sp, sh = (W.modules[f"modepy.{m}"] for m in ("nodes", "spaces", "shapes"))
    N = v.int("N", lo=1)
    g, stub = _gll(v, N)
    W.patch("modepy.quadrature.jacobi_gauss.legendre_gauss_lobatto_nodes", stub)
    x = nd.edge_clustered_nodes_for_space(sp.PN(1, N), sh.Simplex(1))
    v.prove_array("Gauss-Lobatto nodes in order", x, (1, N + 1), lambda i, j: wrap(g(j)))
    x = nd.warp_and_blend_nodes(1, N)
    v.prove_array("Gauss-Lobatto nodes in order (2)", x, (1, N + 1), lambda i, j: wrap(g(j)))
    m = v.int("number", lo=1)
    t = lambda q: T.app("tup", lift(q), sort="I")     # noqa: E731
    v.axiom("tup", lambda q: [T.le(T.ZERO, T.app("tup", q, sort="I")),
                              T.le(T.app("tup", q, sort="I"), lift(N))])
    try:
        x = nd.warp_and_blend_nodes(1, N, SSeq(lift(m), lambda q: (wrap(t(q)),), tuple))
    except ValueError:
        v.prove("wrong number of tuples", wrap(T.not_(T.eq(lift(m), T.add(lift(N), T.ONE)))))
    else:
        v.prove_eq("right number of tuples", m, N + 1)
        v.prove_array("in the order of the tuples", x, (1, N + 1), lambda i, j: wrap(g(wrap(t(j)))))
    v.cover("end")


@CHECK.vc("zero-dimensional nodes", functions=[ND + "warp_and_blend_nodes",
                                               ND + "_edge_clustered_nodes_for_pn"])
def _(v, W):
    nd, sp, sh = (W.modules[f"modepy.{m}"] for m in ("nodes", "spaces", "shapes"))
    N = v.int("N", lo=1)
    for x in (nd.edge_clustered_nodes_for_space(sp.PN(0, N), sh.Simplex(0)),
              nd.warp_and_blend_nodes(0, N)):
        v.prove("one point without coordinates", T.TRUE if x.shape == (0, 1) else T.FALSE)
    for d in (4, 5):
        try:
            nd.warp_and_blend_nodes(d, N)
        except NotImplementedError:
            v.ok("documented error")
        else:
            v.fail("documented error")
    v.cover("end")


def _equi_node(m, N):
    return T.sub(T.div(T.mul(T.num(2), m), lift(N)), T.ONE)


def _warp_setup(v, W):
    nd = W.modules["modepy.nodes"]
    N, M = v.int("N", lo=1), v.int("M", lo=1)
    g, stub = _gll(v, N)
    W.patch("modepy.quadrature.jacobi_gauss.legendre_gauss_lobatto_nodes", stub)
    W.patch("modepy.modes.jacobi", lambda a, b, n, x: new_array(
        x.shape, lambda i, r=snapshot(x): T.app("POLY", lift(a), lift(b), lift(n), r(i)), F8))

    def vdm(functions, nodes):
        r = snapshot(nodes)
        n = lift(b_len(functions))
        one = lambda j, x: lift(functions[wrap(j)](new_array(      # noqa: E731
            (1,), lambda i: x, F8))[0])
        v.prove_eq("as many basis functions as nodes", wrap(n), N + 1)
        return new_array((nodes.shape[-1], wrap(n)), lambda i: one(i[1], r((i[0],))), F8)
    W.patch("modepy.matrices.vandermonde", vdm)
    return nd, N, M, g


@CHECK.vc("warp factor", functions=[ND + "warp_factor"], uses=["modepy.matrices.vandermonde"])
def _(v, W):
    nd, N, M, g = _warp_setup(v, W)
    q = v.int("q", lo=0, sample=lambda r: 0)
    m = v.int("m", lo=0)
    v.assume(wrap(T.le(lift(m), lift(N))))
    v.assume(q < M)
    # one of the output nodes is the equispaced node number m
    out = new_array((M,), lambda i: T.ite(T.eq(i[0], lift(q)), _equi_node(lift(m), N),
                                          T.app("out", i[0])), F8)
    e = _equi_node(lift(m), N)
    w = T.sub(g(m), e)
    x = nd.warp_factor(N, out, scaled=False)
    v.prove("one value per output node", T.TRUE if x.ndim == 1 else T.FALSE)
    v.prove_eq("number of values", x.shape[0], M)
    v.prove_eq("interpolates the displacements", x[q], wrap(w))
    y = nd.warp_factor(N, out)
    v.prove_eq("number of values (scaled)", y.shape[0], M)
    tol = T.sub(T.ONE, T.div(T.ONE, T.num(10**10)))
    if v.entails(T.eq(lift(m), T.ZERO)) or v.decide(T.or_(T.eq(lift(m), T.ZERO),
                                                         T.eq(lift(m), lift(N)))):
        v.prove_eq("no warp at the end points", y[q], 0)
    else:
        v.assume(wrap(T.and_(T.lt(e, tol), T.lt(T.neg(tol), e))))
        v.prove_eq("divided by the bubble", y[q], wrap(T.div(w, T.sub(T.ONE, T.mul(e, e)))))
    v.cover("end")


@CHECK.vc("warp factor anywhere", functions=[ND + "warp_factor"],
          uses=["modepy.matrices.vandermonde"])
def _(v, W):
    nd, N, M, _g = _warp_setup(v, W)
    q = v.int("q", lo=0, sample=lambda r: 0)
    v.assume(q < M)
    out = new_array((M,), lambda i: T.app("out", i[0]), F8)
    x, y = nd.warp_factor(N, out, scaled=False), nd.warp_factor(N, out)
    r = T.app("out", lift(q))
    tol = T.sub(T.ONE, T.div(T.ONE, T.num(10**10)))
    if v.decide(T.and_(T.lt(r, tol), T.lt(T.neg(tol), r))):
        v.prove_eq("the interpolant over the bubble", y[q] * (1 - wrap(r)**2), x[q])
    else:
        v.prove_eq("no warp at the ends", y[q], 0)
    v.cover("end")

# }}}


# {{{ edges of the warped triangle and tetrahedron

def _edge(d, a, b):
    """the tuples of the edge between vertices a and b are (n-i) a + i b"""
    def h(v, W):
        nd, sp = W.modules["modepy.nodes"], W.modules["modepy.spaces"]
        N = v.int("N", lo=1)
        i = v.int("i", lo=0)
        v.assume(wrap(T.le(lift(i), lift(N))))
        if d == 3:
            tol = T.div(T.ONE, T.num(10**8))
            v.assume(wrap(T.lt(T.mul(lift(N), tol), T.ONE)))
        g = lambda i: T.app("gll", lift(i))     # noqa: E731

        def swf(n, out):
            v.prove_eq("order", n, N)
            rd = snapshot(out)
            return new_array(out.shape, lambda k: T.app("SWF", rd(k)), F8)
        W.patch("modepy.nodes.warp_factor", swf)
        N_, i_ = lift(N), lift(i)

        def swf_def(r):
            # contract of warp_factor at the equispaced nodes; symmetry of the nodes
            if where == "mid" and v.entails(T.eq(r, T.ZERO)):
                return T.ZERO
            for m in (i_, T.sub(N_, i_)):
                e = _equi_node(i_, N)
                e = e if m is i_ else T.neg(e)
                if norm.equal(r, e) or v.entails(T.eq(r, e)):
                    s = T.ONE if m is i_ else T.num(-1)
                    if v.entails(T.or_(T.eq(m, T.ZERO), T.eq(m, N_))):
                        return T.ZERO
                    return T.div(T.sub(T.mul(s, g(i)), r), T.sub(T.ONE, T.mul(r, r)))
            return None
        v.defs["SWF"] = (0, swf_def)
        q = v.int("q", lo=0, sample=lambda r: 0)
        bary = [T.ZERO] * (d + 1)
        bary[a], bary[b] = T.sub(N_, i_), i_
        from pyvc.norm import canon
        n = canon(lift(sp.PN(d, N).space_dim))
        v.assume(wrap(T.lt(lift(q), n)))
        tup = SSeq(n, lambda k: tuple(wrap(T.ite(T.eq(lift(k), lift(q)), bary[c + 1], T.app(
            f"other{c}", lift(k), sort="I"))) for c in range(d)), tuple)
        where = v.decide(T.eq(i_, T.ZERO)) and "first" or v.decide(T.eq(i_, N_)) and "last" \
            or v.decide(T.eq(T.add(i_, i_), N_)) and "mid" or "in"
        x = nd.warp_and_blend_nodes(d, N, tup)
        v.prove("one coordinate per axis", T.TRUE if x.shape[0] == d else T.FALSE)
        v.prove_eq("one point per tuple", x.shape[1], wrap(n))
        va = [1 if c + 1 == a else -1 for c in range(d)]
        vb = [1 if c + 1 == b else -1 for c in range(d)]
        t = {"first": T.num(-1), "last": T.ONE, "mid": T.ZERO, "in": g(i)}[where]
        for c in range(d):
            v.prove_eq(f"Gauss-Lobatto point of the edge, axis {c}", x[c, q], wrap(T.div(T.add(
                T.mul(T.num(va[c]), T.sub(T.ONE, t)), T.mul(T.num(vb[c]), T.add(T.ONE, t))),
                T.num(2))))
        v.cover("end")
    return h


for _d in (2, 3):
    for _a, _b in product(range(_d + 1), repeat=2):
        if _a < _b:
            CHECK.vc(f"warp and blend {_d}d: edge {_a}{_b}", functions=[
                ND + "warp_and_blend_nodes", ND + f"warp_and_blend_nodes_{_d}d",
                ND + "_2d_equilateral_shift", "modepy.tools.unit_to_barycentric",
                "modepy.tools.barycentric_to_equilateral", "modepy.tools.equilateral_to_unit"],
                uses=[ND + "warp_factor"])(_edge(_d, _a, _b))

# }}}


# {{{ inner points of the warped triangle and tetrahedron

# Warburton's blending parameters (tables of the reference), orders 1, 2, ...
ALPHA = {
    2: ("0 0 1.4152 0.1001 0.2751 0.98 1.0999 1.2832 1.3648 1.4773 1.4959 1.5743 1.577 1.6223 "
        "1.6258", "5/3"),
    3: ("0 0 0 0.1002 1.1332 1.5608 1.3413 1.2577 1.1603 1.10153 0.608 0.4523 0.8856 0.8717 "
        "0.9655", "1")}


def _alpha(d, n):
    tab, rest = ALPHA[d]
    tab = tab.split()
    return Fraction(tab[n - 1]) if n <= len(tab) else Fraction(rest)


def _warburton(d, bary, w, alpha, blend3=None):
    """barycentric coordinates of the warped point: along every edge of a triangle, the warp of
    the difference of the coordinates times the bubble of the edge; in a tetrahedron, the warps of
    its faces blended into the inside.  w(a, b) is the warp at bary[a] - bary[b]."""
    out = list(bary)

    def face(idx, factor):
        for k, c in enumerate(idx):
            a, b = [x for x in idx if x != c]
            s = 2 * bary[a] * bary[b] * w(a, b) * (1 + (alpha * bary[c])**2) * factor
            out[a] = out[a] + s
            out[b] = out[b] - s
    if d == 2:
        face((0, 1, 2), 1)
    else:
        for f in range(4):
            face([c for c in range(4) if c != f], blend3(f))
    return out


def _blend(bary, f, alpha):
    num, den = 1, 1
    for c in range(4):
        if c != f:
            num = num * bary[c]
            den = den * (bary[c] + bary[f] / 2)
    return (1 + (alpha * bary[f])**2) * num / den


def _positive(v, ls):
    """the product of a + b/2 over the pairs (a, b) exceeds the code's tolerance"""
    den, hs = 1, []
    for a, b in ls:
        x = a + b / 2
        h = sum(f for t, f in ((a, Fraction(1, 400)), (b, Fraction(1, 800)))
                if v.entails(T.le(T.num(Fraction(1, 400)), lift(t))))
        v.prove("lower bound of the factor", wrap(T.le(T.num(h), lift(x))))
        den, hs = den * x, [*hs, h]
    fs = [T.fresh("f", "R") for _ in hs]
    v.prove("product of factors", wrap(T.implies(
        T.and_(*[T.le(T.num(h), t) for h, t in zip(hs, fs)]),
        T.lt(T.num(Fraction(1, 10**8)), T.mul(*fs)))))
    above = T.lt(T.num(Fraction(1, 10**8)), lift(den))
    v.assume(wrap(above))
    v.assume(wrap(norm.norm_bool(above)))


def _inner(d, zero=None):
    def h(v, W):
        nd, sp = W.modules["modepy.nodes"], W.modules["modepy.spaces"]
        N = v.int("N", lo=1)
        # barycentric coordinates, at least 1/400 (the order is at most 400) or on the face
        idx = [c for c in range(d + 1) if c != zero]
        least = wrap(T.num(Fraction(1, 400)))
        l = [0] * (d + 1)
        for c in idx[1:]:
            l[c] = v.real(f"l{c}", sample=lambda r: mpmath.mpf(r.randint(5, 30)) / 100)
            v.assume(l[c] >= least)
        l[idx[0]] = 1 - sum(l[c] for c in idx[1:])
        v.assume(l[idx[0]] >= least)
        if d == 3:
            for f in range(4):
                _positive(v, [(l[c], l[f]) for c in range(4) if c != f])

        def swf(n, out):
            v.prove_eq("order", n, N)
            rd = snapshot(out)
            return new_array(out.shape, lambda k: T.app("SWF", rd(k)), F8)
        W.patch("modepy.nodes.warp_factor", swf)

        def odd(t):
            # the warp is odd (symmetry of the Gauss-Lobatto and equispaced points)
            m = {}
            for y in T.subterms(t):
                if y.op == "app" and y.args[0] == "SWF":
                    for a in range(d + 1):
                        for b in range(d + 1):
                            if a != b and norm.equal(y.args[1], lift(l[a] - l[b])):
                                m[y] = w(a, b)
            return _replace1(t, m)

        def w(a, b):
            s = T.var(f"w{min(a, b)}{max(a, b)}", "R")
            return s if a < b else T.neg(s)
        q = v.int("q", lo=0, sample=lambda r: 0)
        from pyvc.norm import canon
        n = canon(lift(sp.PN(d, N).space_dim))
        v.assume(wrap(T.lt(lift(q), n)))
        tup = SSeq(n, lambda k: tuple(wrap(T.ite(T.eq(lift(k), lift(q)), lift(N * l[c + 1]), T.app(
            f"other{c}", lift(k), sort="I"))) for c in range(d)), tuple)
        # the parameter of this order
        al = None
        for k in range(1, 16):
            if v.decide(T.eq(lift(N), T.num(k))):
                al = _alpha(d, k)
                break
        al = wrap(T.num(_alpha(d, 16) if al is None else al))
        x = nd.warp_and_blend_nodes(d, N, tup)
        v.prove("one coordinate per axis", T.TRUE if x.shape[0] == d else T.FALSE)
        v.prove_eq("one point per tuple", x.shape[1], wrap(n))

        def blend(f):
            if zero is not None:
                return int(f == zero)
            return _blend(l, f, al)
        want = _warburton(d, l, lambda a, b: wrap(w(a, b)), al, blend)
        for c in range(d):
            v.prove_eq(f"Warburton's point, axis {c}", wrap(odd(norm.canon(lift(x[c, q])))),
                       2 * want[c + 1] - 1)
        v.cover("end")
    return h


@CHECK.vc("Warburton's points are symmetric", functions=[ND + "warp_and_blend_nodes"])
def _(v, W):
    # a lemma about the specification: relabelling the vertices relabels the coordinates
    for d in (2, 3):
        l = [wrap(T.var(f"l{c}", "R")) for c in range(d + 1)]
        al = wrap(T.var("alpha", "R"))

        def points(p):
            def w(a, b):
                a, b = p[a], p[b]
                s = T.var(f"w{min(a, b)}{max(a, b)}", "R")
                return wrap(s if a < b else T.neg(s))
            return _warburton(d, [l[c] for c in p], w, al, lambda f: _blend([l[c] for c in p], f,
                                                                            al))
        ref = points(list(range(d + 1)))
        for k in range(d):
            p = list(range(d + 1))
            p[k], p[k + 1] = p[k + 1], p[k]
            for c, x in enumerate(points(p)):
                v.prove_eq(f"exchange of vertices {k} and {k + 1}, coordinate {c} in {d}d", x,
                           ref[p[c]])
    v.cover("end")


for _d, _z in [(2, None)] + [(3, None)] + [(3, _c) for _c in range(4)]:
    CHECK.vc(f"warp and blend {_d}d: {'inside' if _z is None else f'face {_z}'}", functions=[
        ND + "warp_and_blend_nodes", ND + f"warp_and_blend_nodes_{_d}d",
        ND + "_2d_equilateral_shift", "modepy.tools.unit_to_barycentric",
        "modepy.tools.barycentric_to_equilateral", "modepy.tools.equilateral_to_unit"],
        uses=[ND + "warp_factor"])(_inner(_d, _z))

# }}}


# {{{ tensor products

def _tp(which, bases):
    def h(v, W):
        nd, sp, sh = (W.modules[f"modepy.{m}"] for m in ("nodes", "spaces", "shapes"))
        fs, ns, digs, tot, flat = _setup(v, bases)
        orders = [v.int(f"N{b}", lo=0) for b in range(len(bases))]
        log = []

        def stub(space, shape):
            k = len(log)
            log.append(None)
            v.prove("factors in order", T.TRUE if (space.spatial_dim, shape.dim) == (
                bases[k], bases[k]) else T.FALSE)
            v.prove_eq("its order", space.order, orders[k])
            return fs[k][1]
        f = getattr(nd, which + "_nodes_for_space")
        f.register(sp.PN)(stub)
        s = sp.TensorProductSpace(tuple(sp.PN(d, N) for d, N in zip(bases, orders)))
        t = sh.TensorProductShape(tuple(sh.Simplex(d) for d in bases))
        x = f(s, t)
        _check_nodes(v, x, fs, bases, digs, tot, flat)
        for bad in [sh.Simplex(sum(bases)), sh.Hypercube(sum(bases) + 2)]:
            try:
                f(s, bad)
            except (NotImplementedError, ValueError):
                v.ok("mismatch rejected")
            else:
                v.fail("mismatch rejected")
        v.cover("end")
    return h


for _w in ("equispaced", "edge_clustered"):
    for _b in [(1, 1), (2, 1), (1, 2), (1, 3), (1, 1, 1), (1, 2, 1), (0, 1), (1, 1, 1, 1)]:
        CHECK.vc(f"{_w} nodes of a product {_b}", functions=[
            ND + f"_{_w}_nodes_for_tp", ND + "tensor_product_nodes"])(_tp(_w, _b))


def _tpg(d):
    def h(v, W):
        nd = W.modules["modepy.nodes"]
        n1 = v.int("n1", lo=1, sample=lambda r: r.randint(1, 3))
        N = n1 - 1
        qm = W.modules["modepy.quadrature"]
        g, stub = _gll(v, N, n1)
        W.patch("modepy.quadrature.jacobi_gauss.legendre_gauss_lobatto_nodes", stub)

        def lg(order, backend=None, force_dim_axis=False):
            x = stub(order, force_dim_axis=force_dim_axis)
            return qm.Quadrature(x, v.array("w", (n1,)), 2 * N + 1)
        W.patch("modepy.quadrature.jacobi_gauss.LegendreGaussQuadrature", lg)
        f = (n1, None, lambda i: g(i[1]))
        from .c05 import horner
        digs = [v.int(f"i{b}", lo=0, sample=lambda r: 0) for b in range(d)]
        tot = T.ONE
        for i in digs:
            v.assume(i < n1)
            tot = T.mul(tot, lift(n1))
        flat = wrap(horner([lift(i) for i in digs], [n1] * d))
        for which in ("legendre_gauss", "legendre_gauss_lobatto"):
            x = getattr(nd, which + "_tensor_product_nodes")(d, N)
            _check_nodes(v, x, [f] * d, (1,) * d, digs, wrap(tot), flat)
        v.cover("end")
    return h


for _d in range(5):
    CHECK.vc(f"tensor-product Gauss and Gauss-Lobatto nodes {_d}d", functions=[
        ND + "legendre_gauss_tensor_product_nodes",
        ND + "legendre_gauss_lobatto_tensor_product_nodes"])(_tpg(_d))

# }}}


# {{{ random nodes

class Rng:
    def __init__(self, v):
        self.v = v

    def uniform(self, lo=0.0, hi=1.0, size=None):
        name = T.fresh("rnd", "I").args[0]
        self.v.axiom(name, lambda *a: [T.le(lift(lo), T.app(name, *a)),
                                       T.lt(T.app(name, *a), lift(hi))])
        return new_array(size, lambda i: T.app(name, *i), F8)


def _inside(d, x):
    """x: coordinates of one point, in the closed reference simplex"""
    return T.and_(*[T.le(T.num(-1), c) for c in x], T.le(T.add(T.ZERO, *x), T.num(2 - d)),
                  *[T.le(c, T.ONE) for c in x])


class Rejection:
    """the columns before the counter are points of the simplex"""

    def __init__(self, v, d, n):
        self.v, self.d, self.n = v, d, n

    def conditions(self, loop, env, when):
        v, d, n = self.v, self.d, self.n
        ints = [k for k in loop.names if when == "entry" and isinstance(env.get(k), int)]
        if when == "entry":
            if len(ints) != 1:
                from pyvc.sym import Unsupported
                raise Unsupported("the counter of accepted points is not recognised")
            self.ctr = ints[0]
        k = lift(env[self.ctr])
        yield "counter in range", wrap(T.and_(T.le(T.ZERO, k), T.le(k, lift(n))))
        arrs = [x for x in env.values() if hasattr(x, "_shape") and x.ndim == 2
                and not (x.buf.name or "").startswith("rnd")]
        if when == "entry":
            self.arr = [x for x in arrs]
        for x in self.arr:
            rd = snapshot(x)
            col = lambda j: [rd((T.num(c), j)) for c in range(d)]     # noqa: E731
            if when == "head":
                for nm in loop.havocked.values():
                    v.axiom(nm, lambda c, j, k=k, col=col: [T.or_(
                        T.lt(j, T.ZERO), T.le(k, j), _inside(d, col(j)))])
            else:
                j = T.fresh("col", "I")
                v.samplers[j] = lambda r: 0
                yield "accepted columns inside", wrap(T.or_(
                    T.lt(j, T.ZERO), T.le(k, j), _inside(d, col(j))))


def _rand(d):
    def h(v, W):
        nd, sh = W.modules["modepy.nodes"], W.modules["modepy.shapes"]
        n = v.int("n", lo=0, sample=lambda r: r.randint(0, 3))
        v.while_inv["_random_nodes_for_simplex"] = Rejection(v, d, n)
        x = nd.random_nodes_for_shape(sh.Simplex(d), n, rng=Rng(v))
        v.prove("shape", T.TRUE if x.ndim == 2 and x.shape[0] == d else T.FALSE)
        v.prove_eq("number of points", x.shape[1], n)
        j = v.int("j", lo=0, sample=lambda r: 0)
        v.assume(j < n)
        v.prove("in the simplex", wrap(_inside(d, [lift(x[c, j]) for c in range(d)])))
        v.cover("end")
    return h


for _d in range(6):
    CHECK.vc(f"random nodes of the {_d}-simplex", functions=[ND + "_random_nodes_for_simplex"])(
        _rand(_d))


def _rand_tp(bases):
    def h(v, W):
        nd, sh = W.modules["modepy.nodes"], W.modules["modepy.shapes"]
        n = v.int("n", lo=0, sample=lambda r: r.randint(0, 3))
        rng = Rng(v)
        log = []

        def stub(shape, nnodes, rng=None):
            v.prove("the given generator", T.TRUE if rng is rng0 else T.FALSE)
            v.prove_eq("same number of points", nnodes, n)
            k = len(log)
            log.append(shape.dim)
            return new_array((shape.dim, nnodes), lambda i: T.app(f"RN{k}", *i), F8)
        rng0 = rng
        nd.random_nodes_for_shape.register(sh.Simplex)(stub)
        x = nd.random_nodes_for_shape(sh.TensorProductShape(tuple(
            sh.Simplex(d) for d in bases)), n, rng=rng)
        v.prove("one set per factor", T.TRUE if tuple(log) == bases else T.FALSE)
        want = [(k, c) for k, d in enumerate(bases) for c in range(d)]
        v.prove_array("stacked", x, (sum(bases), n), lambda i, j: wrap(_pick(
            [T.app(f"RN{k}", T.num(c), lift(j)) for k, c in want], i)))
        v.cover("end")
    return h


for _b in [(1, 1), (2, 1), (1, 2), (1, 1, 1), (1, 3), (1, 0), (1, 1, 2)]:
    CHECK.vc(f"random nodes of a product {_b}", functions=[ND + "_random_nodes_for_tp"])(
        _rand_tp(_b))

# }}}


# {{{ battery

def _node_ok(B, what, x, shape_dims, count, inp, distinct=True, open_=False):
    """(dimension, count), inside, distinct"""
    B.equal(f"{what}: shape", x.shape, (sum(shape_dims), count), **inp)
    o = 0
    for d in shape_dims:
        y = x[o:o + d]
        o += d
        B.ok(f"{what}: not below a face", bool(np.all(y >= -1 - 1e-13)), **inp)
        B.ok(f"{what}: not above the last face", bool(np.all(y.sum(axis=0) <= 2 - d + 1e-12)),
             **inp)
    if distinct and count > 1 and sum(shape_dims):
        u = x.T
        dist = np.abs(u[:, None] - u[None]).max(axis=2) + 10 * np.eye(count)
        B.ok(f"{what}: distinct", dist.min() > 1e-10, **inp)


def _contains(B, what, x, verts, inp):
    for w in verts:
        B.ok(f"{what}: contains the vertices", len(w) == 0 or np.abs(
            x - np.array(w, dtype=float)[:, None]).max(axis=0).min() < 1e-13, vertex=w, **inp)


def _simplices():
    big = {0: 12, 1: 24, 2: 20, 3: 13, 4: 6, 5: 4}
    return [(d, n) for d, m in big.items() for n in range(m)]


def _reference(d, n, bary, g):
    """Warburton's points in floating point; the warp by barycentric interpolation"""
    from math import comb
    e = np.linspace(-1, 1, n + 1)
    wt = np.array([(-1.0)**k * comb(n, k) for k in range(n + 1)])

    def warp(r):
        res = np.zeros(len(r))
        for q, x in enumerate(r):
            if abs(x) > 1 - 1e-10:
                continue
            near = np.abs(x - e) < 1e-13
            if near.any():
                res[q] = (g - e)[near][0]
            else:
                c = wt / (x - e)
                res[q] = np.dot(c, g - e) / np.sum(c)
            res[q] /= 1 - x * x
        return res
    cache = {}

    def w(a, b):
        if (a, b) not in cache:
            cache[a, b] = warp(bary[a] - bary[b])
        return cache[a, b]
    al = float(_alpha(d, n))

    def blend(f):
        with np.errstate(divide="ignore", invalid="ignore"):
            inside = np.where(bary[f] > 0, _blend(bary, f, al), 1.0)
        # points of edges belong to two faces, each of which moves them alike
        on = [k for k in range(4) if k != f]
        edge = (bary[on] == 0).any(axis=0)
        first = np.array([min(k for k in range(4) if col[k] == 0) if (col == 0).any() else f
                          for col in bary.T])
        return np.where(edge, (first == f) & (bary[f] == 0), inside)
    return np.array(_warburton(d, bary, w, al, blend))


@CHECK.battery("simplex nodes", functions=[
    ND + "equidistant_nodes", ND + "warp_and_blend_nodes", ND + "_equispaced_nodes_for_pn",
    ND + "_edge_clustered_nodes_for_pn"], timeout=500)
def _(B):
    import modepy as mp
    from modepy.quadrature.jacobi_gauss import legendre_gauss_lobatto_nodes
    from .c15 import _vertices
    from math import comb
    cases = _simplices()
    if B.thorough:
        cases += [(2, n) for n in range(20, 41)] + [(3, n) for n in range(13, 24)]
    for d, n in cases:
        inp = dict(dim=d, order=n)
        sp, sh = mp.PN(d, n), mp.Simplex(d)
        cnt = comb(n + d, d)
        tup = np.array(mp.node_tuples_for_space(sp), dtype=float).reshape(cnt, d).T
        verts = _vertices((d,))
        want = 2 * tup / n - 1 if n else np.full((d, 1), 2 / (d + 1) - 1)
        okc, x = B.call("equispaced", lambda: mp.equispaced_nodes_for_space(sp, sh), **inp)
        if okc:
            _node_ok(B, "equispaced", x, (d,), cnt, inp)
            B.close("equispaced", x, want, 1e-14, 1e-14, **inp)
        okc, x = B.call("equidistant", lambda: mp.equidistant_nodes(d, n), **inp)
        if okc:
            B.close("equidistant", x, want, 1e-14, 1e-14, **inp)
            perm = B.nprng.permutation(cnt)
            ts = [tuple(int(c) for c in tup[:, k]) for k in perm]
            y = mp.equidistant_nodes(d, n, ts)
            B.close("equidistant, tuples", y, want[:, perm] if n else want, 1e-14, 1e-14, **inp)
            B.raises("wrong tuples", ValueError, lambda: mp.equidistant_nodes(d, n, [*ts, ts[0]]),
                     **inp)
        okc, x = B.call("edge clustered", lambda: mp.edge_clustered_nodes_for_space(sp, sh), **inp)
        if not okc:
            continue
        _node_ok(B, "edge clustered", x, (d,), cnt, inp)
        if n:
            _contains(B, "edge clustered", x, verts, inp)
        if d > 3:
            B.close("edge clustered", x, want, 1e-14, 1e-14, **inp)
            continue
        okc, y = B.call("warp and blend", lambda: mp.warp_and_blend_nodes(d, n), **inp)
        if okc:
            B.close("warp and blend", y, x, 0, 0, **inp)
        if d == 0 or n == 0:
            continue
        g = legendre_gauss_lobatto_nodes(n, force_dim_axis=True)[0]
        B.ok("increasing", bool(np.all(np.diff(g) > 0)), **inp)
        bary = np.vstack([n - tup.sum(axis=0), tup])
        for a in range(d + 1):
            for b in range(a + 1, d + 1):
                on = np.nonzero(bary[a] + bary[b] == n)[0]
                t = g[bary[b, on].astype(int)]
                va, vb = np.array(verts[a]), np.array(verts[b])
                e = (va[:, None] * (1 - t) + vb[:, None] * (1 + t)) / 2
                B.close("Gauss-Lobatto points on the edge", x[:, on], e, 0, 1e-11, edge=(a, b),
                        **inp)
        # nodes stay on their faces, the others inside
        xb = np.vstack([(2 - d - x.sum(axis=0)) / 2, (1 + x) / 2])
        B.ok("faces keep their nodes", bool(np.all(np.abs(xb[bary == 0]) < 1e-11)), **inp)
        B.ok("others are off the faces", bool(np.all(xb[bary > 0] > 1e-6)), **inp)
        if d > 1:
            B.close("Warburton's construction", xb, _reference(d, n, bary / n, g), 0,
                    max(1e-7, 2.0**n * 1e-15), **inp)
        # the construction commutes with the symmetries of the triangle and tetrahedron
        pos = {tuple(t): k for k, t in enumerate(bary.T)}
        for _ in range(3):
            p = B.nprng.permutation(d + 1)
            to = [pos[tuple(t)] for t in bary[p].T]
            B.close("symmetric under permutations of the vertices", xb[:, to], xb[p], 0,
                    max(1e-10, 2.0**n * 1e-15), perm=p.tolist(), **inp)
        perm = B.nprng.permutation(cnt)
        ts = [tuple(int(c) for c in tup[:, k]) for k in perm]
        okc, y = B.call("given tuples", lambda: mp.warp_and_blend_nodes(d, n, ts), **inp)
        if okc:
            B.close("in the order of the tuples", y, x[:, perm], 0,
                    max(1e-11, 2.0**n * 1e-16), **inp)
        B.raises("wrong tuples", ValueError, lambda: mp.warp_and_blend_nodes(d, n, ts[:-1]), **inp)
    for d in (4, 5):
        B.raises("no warp and blend nodes", NotImplementedError, lambda: mp.warp_and_blend_nodes(
            d, 2), dim=d)


@CHECK.battery("nodes of products", functions=[
    ND + "_equispaced_nodes_for_tp", ND + "_edge_clustered_nodes_for_tp",
    ND + "legendre_gauss_tensor_product_nodes", ND + "_random_nodes_for_tp",
    ND + "legendre_gauss_lobatto_tensor_product_nodes", ND + "_random_nodes_for_simplex"])
def _(B):
    import modepy as mp
    from modepy.quadrature.jacobi_gauss import (
        LegendreGaussQuadrature, legendre_gauss_lobatto_nodes)
    from modepy.nodes import (legendre_gauss_tensor_product_nodes as gauss, random_nodes_for_shape,
                              legendre_gauss_lobatto_tensor_product_nodes as lobatto)
    from modepy.shapes import TensorProductShape
    from modepy.spaces import TensorProductSpace
    from .c15 import _vertices

    def outer(ys):
        out = [()]
        for y in reversed(ys):
            out = [tuple(c) + t for t in out for c in y.T]
        return np.array(out, dtype=float).reshape(len(out), -1).T
    cases = [(ds, os) for ds in [(1, 1), (2, 1), (1, 2), (1, 3), (3, 1), (1, 1, 1), (1, 2, 1),
                                 (1, 1, 1, 1), (0, 1), (2, 1, 1)]
             for os in product(range(4), repeat=len(ds)) if B.rng.random() < 0.4 or max(os) < 2]
    for ds, os in cases:
        inp = dict(dims=ds, orders=os)
        sp = TensorProductSpace(tuple(mp.PN(d, o) for d, o in zip(ds, os)))
        sh = TensorProductShape(tuple(mp.Simplex(d) for d in ds))
        for what, f in [("equispaced", mp.equispaced_nodes_for_space),
                        ("edge clustered", mp.edge_clustered_nodes_for_space)]:
            okc, x = B.call(what, lambda: f(sp, sh), **inp)
            if not okc:
                continue
            _node_ok(B, what, x, ds, sp.space_dim, inp)
            ys = [f(mp.PN(d, o), mp.Simplex(d)) for d, o in zip(ds, os)]
            B.close(f"{what}: all combinations, first axis fastest", x, outer(ys), 0, 0, **inp)
            if min(os) > 0:
                _contains(B, what, x, _vertices(ds), inp)
        if min(os) > 0:
            tup = np.array(mp.node_tuples_for_space(sp), dtype=float).T
            scale = np.array([o for d, o in zip(ds, os) for _ in range(d)], dtype=float)
            B.close("equispaced: images of the node tuples", mp.equispaced_nodes_for_space(sp, sh),
                    2 * tup / scale[:, None] - 1, 1e-14, 1e-14, **inp)
    # a factor given by integers does not round the others'
    x = mp.nodes.tensor_product_nodes([np.array([-1, 1]), np.array([-0.5, 0.25, 0.75])])
    B.close("nodes of different types", x, outer([np.array([[-1., 1]]),
                                                  np.array([[-.5, .25, .75]])]), 0, 0)
    for d, n in product(range(5), range(6)):
        inp = dict(dim=d, n=n)
        for what, f, g in [
                ("Gauss", gauss, LegendreGaussQuadrature(n, force_dim_axis=True).nodes),
                ("Gauss-Lobatto", lobatto, legendre_gauss_lobatto_nodes(n, force_dim_axis=True))]:
            if n == 0 and what != "Gauss":
                continue
            okc, x = B.call(what, lambda: f(d, n), **inp)
            if okc:
                _node_ok(B, what, x, (1,) * d, (n + 1)**d, inp, distinct=len(x.T) < 700)
                B.close(f"{what}: all combinations, first axis fastest", x, outer([g] * d), 0, 0,
                        **inp)
                if what != "Gauss":
                    _contains(B, what, x, _vertices((1,) * d), inp)
    shapes = [((d,), mp.Simplex(d)) for d in range(6)] + [
        ((1,) * d, mp.Hypercube(d)) for d in range(5)] + [
        (ds, TensorProductShape(tuple(mp.Simplex(d) for d in ds)))
        for ds in [(2, 1), (1, 2), (3, 1), (1, 1, 3)]]
    for ds, sh in shapes:
        for n in (0, 1, 2, 7, 60):
            inp = dict(dims=ds, nnodes=n)
            for seed in range(3):
                okc, x = B.call("random", lambda: random_nodes_for_shape(
                    sh, n, rng=np.random.default_rng(seed)), **inp)
                if okc:
                    _node_ok(B, "random", x, ds, n, inp)
                    B.close("random: same stream, same points", random_nodes_for_shape(
                        sh, n, rng=np.random.default_rng(seed)), x, 0, 0, **inp)
            okc, x = B.call("random", lambda: random_nodes_for_shape(sh, n), **inp)
            if okc:
                _node_ok(B, "random", x, ds, n, inp)

# }}}
