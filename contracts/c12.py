"""C12: the quadrature rule chosen for a space."""
from itertools import product
from math import factorial

import numpy as np

from pyvc import terms as T
from pyvc.sym import lift, wrap
from .base import Check
from .c11 import onb, legendre

CHECK = Check(
    "C12", level="proof",
    trusted=["a product of rules that integrate the factor spaces integrates the product space "
             "(linearity and Fubini; the product rule itself: C13)",
             "the rules used are exact as advertised (C09, C10, C11)"],
    assumptions=["the number of tensor product factors is enumerated (0 to 4); orders and factor "
                 "dimensions are arbitrary",
                 "concrete evaluation: floating point tolerance 1e-11 relative to the size of "
                 "the weights"])

Q = "modepy.quadrature."
PNQ, TPQ = Q + "_quadrature_for_pn", Q + "_quadrature_for_tp"


def _rule(v, qm, kind, dim, exact):
    """an abstract rule on the reference element of dimension dim, exact to degree exact"""
    n = v.int(f"npts{len(v._made)}", lo=1, sample=lambda r: 2)
    k = len(v._made)
    q = qm.Quadrature(v.array(f"x{k}", (dim, n)), v.array(f"w{k}", (n,)), wrap(lift(exact)))
    v._made.append((q, kind, dim, exact))
    return q


def _stubs(v, W):
    qm, mp = W.modules["modepy.quadrature"], W.modules["modepy"]
    v._made = []

    def lg(N, backend=None, force_dim_axis=False):
        v.prove("non-negative Gauss order", wrap(T.le(T.num(0), lift(N))))
        v.prove("nodes with a dimension axis", T.TRUE if force_dim_axis else T.FALSE)
        return _rule(v, qm, "simplex", 1, T.add(T.mul(T.num(2), lift(N)), T.ONE))

    def xg(order, dims):
        if v.choose(f"table{len(v._made)}"):
            return _rule(v, qm, "simplex", dims, order)
        raise qm.QuadratureRuleUnavailable

    def gm(order, dimension):
        v.prove("non-negative Grundmann-Moeller order", wrap(T.le(T.num(0), lift(order))))
        return _rule(v, qm, "simplex", dimension, T.add(T.mul(T.num(2), lift(order)), T.ONE))
    def legendre_tp(*a, **kw):
        raise NotImplementedError
    mp.LegendreGaussQuadrature, mp.XiaoGimbutasSimplexQuadrature = lg, xg
    mp.GrundmannMoellerSimplexQuadrature = gm
    return qm


def _pn(d0):
    def h(v, W):
        qm = _stubs(v, W)
        sp, sh = W.modules["modepy.spaces"], W.modules["modepy.shapes"]
        d = d0 if d0 < 3 else v.int("d", lo=3)
        o = v.int("order", lo=0)
        q = qm.quadrature_for_space(sp.PN(d, o), sh.Simplex(d))
        if d0 == 0:
            v.prove("a point", T.TRUE if q.nodes.shape == (0, 1) and q.weights.shape == (1,)
                    else T.FALSE)
            v.prove_eq("point evaluation", q.weights[0], 1)
            v.prove("always exact", T.TRUE if isinstance(q.exact_to, qm._Inf) else T.FALSE)
        else:
            hit = [m for m in v._made if m[0] is q]
            v.prove("one of the rules for simplices", T.TRUE if hit else T.FALSE)
            _, kind, dd, e = hit[0]
            v.prove_eq("of the shape's dimension", wrap(lift(dd)), d)
            v.prove("exact for the space", wrap(T.le(lift(o), lift(e))))
            v.prove("advertised", wrap(T.le(lift(o), lift(q.exact_to))))
        v.cover("end")
    return h


for _d in range(4):
    CHECK.vc(f"PN in dimension {_d if _d < 3 else 'at least 3'}", functions=[PNQ],
             uses=["LegendreGaussQuadrature", "XiaoGimbutasSimplexQuadrature",
                   "GrundmannMoellerSimplexQuadrature"])(_pn(_d))


@CHECK.vc("PN: dimension mismatch", functions=[PNQ])
def _(v, W):
    qm = _stubs(v, W)
    sp, sh = W.modules["modepy.spaces"], W.modules["modepy.shapes"]
    d, e, o = v.int("d", lo=0), v.int("e", lo=0), v.int("order", lo=0)
    v.assume(d != e)
    try:
        qm.quadrature_for_space(sp.PN(d, o), sh.Simplex(e))
    except ValueError:
        v.ok("ValueError")
    else:
        v.fail("ValueError")
    v.cover("end")


def _tp(k):
    def h(v, W):
        qm = _stubs(v, W)
        sp, sh = W.modules["modepy.spaces"], W.modules["modepy.shapes"]
        ds = [v.int(f"d{b}", lo=1, sample=lambda r: r.randint(1, 3)) for b in range(k)]
        os_ = [v.int(f"o{b}", lo=0, sample=lambda r: r.randint(0, 6)) for b in range(k)]
        space = object.__new__(sp.TensorProductSpace)
        space.bases = tuple(sp.PN(d, o) for d, o in zip(ds, os_))
        shape = object.__new__(sh.TensorProductShape)
        object.__setattr__(shape, "bases", tuple(sh.Simplex(d) for d in ds))
        object.__setattr__(shape, "dim", sum(ds))
        q = qm.quadrature_for_space(space, shape)
        if k == 0:
            v.prove("a point", T.TRUE if q.nodes.shape == (0, 1) and q.weights.shape == (1,)
                    else T.FALSE)
            v.prove_eq("point evaluation", q.weights[0], 1)
            v.cover("end")
            return
        parts = list(q.quadratures)
        v.prove("one rule per factor", T.TRUE if len(parts) == k else T.FALSE)
        for b, p in enumerate(parts):
            hit = [m for m in v._made if m[0] is p]
            v.prove("factor rule of the right family", T.TRUE if hit else T.FALSE)
            _, _, dd, e = hit[0]
            v.prove_eq(f"factor {b}: dimension", wrap(lift(dd)), ds[b])
            v.prove(f"factor {b}: exact for the factor space", wrap(T.le(lift(os_[b]), lift(e))))
        v.prove_eq("dimension of the nodes", wrap(lift(q.nodes.shape[0])), sum(ds))
        mn = lift(q.exact_to)
        for b in range(k):
            v.prove("advertised exactness is true", wrap(T.le(
                mn, lift([m for m in v._made if m[0] is parts[b]][0][3]))))
        low = lift(os_[0])
        for b in range(1, k):
            low = T.ite(T.lt(lift(os_[b]), low), lift(os_[b]), low)
        v.prove("advertised exactness at least the smallest factor order", wrap(T.le(low, mn)))
        v.cover("end")
    return h


for _k in range(5):
    CHECK.vc(f"tensor product of {_k} factors", functions=[TPQ, PNQ, Q +
                                                           "TensorProductQuadrature.__init__"],
             uses=["LegendreGaussQuadrature", "XiaoGimbutasSimplexQuadrature",
                   "GrundmannMoellerSimplexQuadrature"], timeout=400,
             max_paths=4000)(_tp(_k))


@CHECK.vc("tensor product mismatches", functions=[TPQ, PNQ])
def _(v, W):
    qm = _stubs(v, W)
    sp, sh = W.modules["modepy.spaces"], W.modules["modepy.shapes"]
    d, e, o = v.int("d", lo=1), v.int("e", lo=1), v.int("order", lo=0)
    space = object.__new__(sp.TensorProductSpace)
    space.bases = (sp.PN(d, o), sp.PN(e, o))

    def shp(*b):
        s = object.__new__(sh.TensorProductShape)
        object.__setattr__(s, "bases", tuple(sh.Simplex(x) for x in b))
        object.__setattr__(s, "dim", sum(b))
        return s
    f = v.int("f", lo=1)
    v.assume(f != d + e)
    cases = [("total dimension", ValueError, lambda: qm.quadrature_for_space(space, shp(f))),
             ("a simplex of the same dimension", NotImplementedError,
              lambda: qm.quadrature_for_space(space, sh.Simplex(d + e))),
             ("a PN space on a product", NotImplementedError,
              lambda: qm.quadrature_for_space(sp.PN(d + e, o), shp(d, e))),
             ("fewer factors", ValueError, lambda: qm.quadrature_for_space(space, shp(d + e)))]
    for what, exc, fn in cases:
        try:
            fn()
        except exc:
            v.ok(what)
        else:
            v.fail(what)
    v.assume(d != e)
    try:
        qm.quadrature_for_space(space, shp(e, d))
    except ValueError:
        v.ok("factors in another order")
    else:
        v.fail("factors in another order")
    v.cover("end")


# {{{ battery

def polys(d, n, x):
    """reference orthonormal polynomials on the simplex of dimension d up to degree n"""
    if d == 0:
        yield (), np.ones(x.shape[1])
    elif d == 1:
        for k, p in enumerate(legendre(n, x[0])[:n + 1]):
            yield (k,), p
    else:
        yield from onb(True, d, n, x)


def monos(d, n, x):
    """[(exponents, value, integral)] for dimensions above 3; homogeneous in (1+x)/2"""
    for k in product(range(n + 1), repeat=d):
        if sum(k) <= n:
            r = np.ones(x.shape[1])
            for j in range(d):
                r = r * ((1 + x[j]) / 2)**k[j]
            num = 1
            for j in k:
                num *= factorial(j)
            yield k, r, 2.0**d * num / factorial(d + sum(k))


@CHECK.battery("simplices", functions=[PNQ])
def _(B):
    import modepy as mp
    from modepy.quadrature import quadrature_for_space
    mx = {0: 6, 1: 40, 2: 60, 3: 26 if B.thorough else 20, 4: 9, 5: 6, 6: 4}
    for d, m in mx.items():
        for o in range(m + 1):
            inp = dict(dim=d, order=o)
            sp, sh = mp.PN(d, o), mp.Simplex(d)
            okc, q = B.call("a rule", lambda: quadrature_for_space(sp, sh), **inp)
            if not okc:
                continue
            x, w = q.nodes, q.weights
            if not B.ok("shapes", x.shape == (d, w.size) and w.ndim == 1 and q.dim == d, **inp):
                continue
            B.ok("advertised", q.exact_to >= o, **inp)
            n = o if d == 0 else min(q.exact_to, mx[d] + 3)
            B.ok("not more than it can", isinstance(q.exact_to, (int, np.integer))
                 or d == 0 or (q.exact_to > 10**9 and d == 0), **inp)
            s = np.abs(w).sum()
            if d <= 3:
                for k, p in polys(d, n, x):
                    B.close("integral", (w * p).sum(),
                            np.sqrt(2.0**d / factorial(d)) if sum(k) == 0 else 0,
                            0, 2e-13 * max(1, s) * max(1, np.abs(p).max()), mode=k, **inp)
            else:
                for k, p, i in monos(d, n, x):
                    B.close("integral", (w * p).sum(), i, 1e-9, 1e-13 * s, mode=k, **inp)


@CHECK.battery("tensor products", functions=[TPQ, PNQ])
def _(B):
    import modepy as mp
    from modepy.quadrature import quadrature_for_space
    from modepy.shapes import TensorProductShape
    from modepy.spaces import TensorProductSpace
    cases = [((1,) * k, os_) for k in (2,) for os_ in product((0, 1, 2, 5, 9), repeat=2)]
    cases += [((1, 1), o) for o in ((20, 2), (2, 20), (0, 13), (7, 8))]
    cases += [((1, 1, 1), o) for o in product((0, 1, 3), repeat=3)] + [((1, 1, 1), (2, 9, 4))]
    cases += [((2, 1), o) for o in product((0, 1, 4), repeat=2)]
    cases += [((1, 2), o) for o in product((0, 2, 7), repeat=2)]
    cases += [((3, 1), (2, 5)), ((1, 3), (4, 1)), ((1, 3), (0, 3)), ((2, 1, 1), (3, 0, 2)),
              ((1, 2, 1), (5, 2, 1)), ((1, 1, 2), (1, 4, 3)), ((1, 1, 1, 1), (2, 0, 3, 1))]
    for ds, os_ in cases:
        inp = dict(dims=ds, orders=os_)
        sp = TensorProductSpace(tuple(mp.PN(d, o) for d, o in zip(ds, os_)))
        sh = TensorProductShape(tuple(mp.Simplex(d) for d in ds))
        okc, q = B.call("a rule", lambda: quadrature_for_space(sp, sh), **inp)
        if not okc:
            continue
        x, w = q.nodes, q.weights
        if not B.ok("shapes", x.shape == (sum(ds), w.size) and q.dim == sum(ds), **inp):
            continue
        fs = []
        o = 0
        for d, n in zip(ds, os_):
            fs.append(list(polys(d, n, x[o:o + d])))
            o += d
        for c in product(*fs):
            ks = [k for k, _ in c]
            p = np.prod([y for _, y in c], axis=0)
            want = np.prod([np.sqrt(2.0**d / factorial(d)) for d in ds]) \
                if not any(sum(k) for k in ks) else 0.0
            B.close("integral", (w * p).sum(), want, 0, 1e-11, mode=ks, **inp)
        if len(set(os_)) == 1:
            B.ok("advertised", q.exact_to >= sp.order, **inp)
        # the advertised total degree, on monomials of single factors and mixed
        e = q.exact_to
        B.ok("integer", isinstance(e, (int, np.integer)), **inp)
        if e <= 12 and all(d == 1 for d in ds):
            for k in product(range(e + 1), repeat=len(ds)):
                if sum(k) <= e:
                    p = np.prod([x[j]**k[j] for j in range(len(ds))], axis=0)
                    want = np.prod([(1 - (-1)**(a + 1)) / (a + 1) for a in k])
                    B.close("total degree", (w * p).sum(), want, 0, 1e-11, mode=k, **inp)
    for k in (2, 3, 4, 5):
        for o in (0, 1, 3):
            sp, sh = mp.QN(k, o), mp.Hypercube(k)
            okc, q = B.call("a rule", lambda: quadrature_for_space(sp, sh), dim=k, order=o)
            if okc:
                B.close("volume", q.weights.sum(), 2.0**k, dim=k, order=o)
                B.ok("advertised", q.exact_to >= o, dim=k, order=o)
                B.close("odd and even powers", q(lambda y: (y**o).prod(0)),
                        ((1 - (-1)**(o + 1)) / (o + 1))**k, 1e-12, 1e-12, dim=k, order=o)
    okc, q = B.call("zero factors", lambda: quadrature_for_space(
        TensorProductSpace(()), TensorProductShape(())))
    if okc:
        B.ok("a point", q.nodes.shape == (0, 1) and q.weights.tolist() == [1.0])
    # space_for_shape round trip
    for sh in (mp.Simplex(1), mp.Simplex(2), mp.Simplex(3), mp.Hypercube(1), mp.Hypercube(2),
               mp.Hypercube(3), TensorProductShape((mp.Simplex(2), mp.Simplex(1)))):
        for o in (0, 1, 2, 5):
            sp = mp.space_for_shape(sh, o)
            okc, q = B.call("a rule", lambda: quadrature_for_space(sp, sh), shape=repr(sh),
                            order=o)
            if okc:
                B.equal("dimension", q.dim, sh.dim, shape=repr(sh), order=o)


@CHECK.battery("mismatches", functions=[TPQ, PNQ])
def _(B):
    import modepy as mp
    from modepy.quadrature import quadrature_for_space
    from modepy.shapes import TensorProductShape
    from modepy.spaces import FunctionSpace, TensorProductSpace
    S = mp.Simplex

    def tps(*b):
        return TensorProductSpace(tuple(mp.PN(d, 2) for d in b))

    def tpsh(*b):
        return TensorProductShape(tuple(S(d) for d in b))
    for d in range(5):
        for e in range(5):
            if d != e:
                B.raises("PN", ValueError, lambda: quadrature_for_space(mp.PN(d, 2), S(e)),
                         space=d, shape=e)
            if d > 1 and e > 1 and d != e:
                B.raises("QN", ValueError, lambda: quadrature_for_space(
                    mp.QN(d, 2), mp.Hypercube(e)), space=d, shape=e)
            if d > 1:
                B.raises("QN on a simplex", NotImplementedError,
                         lambda: quadrature_for_space(mp.QN(d, 2), S(e)), space=d, shape=e)
            if e > 1:
                B.raises("PN on a cube", NotImplementedError,
                         lambda: quadrature_for_space(mp.PN(d, 2), mp.Hypercube(e)),
                         space=d, shape=e)
    for a, b in [((2, 1), (1, 2)), ((1, 2), (2, 1)), ((1, 1, 1), (2, 1)), ((2, 1), (1, 1, 1)),
                 ((1, 1, 2), (1, 1, 1, 1)), ((1, 1), (2, 1)), ((1, 3), (3, 1))]:
        B.raises("factors", ValueError, lambda: quadrature_for_space(tps(*a), tpsh(*b)),
                 space=a, shape=b)

    class Other(FunctionSpace):
        spatial_dim = 1
        space_dim = 1
    B.raises("unknown space", NotImplementedError, lambda: quadrature_for_space(Other(), S(1)))

# }}}
