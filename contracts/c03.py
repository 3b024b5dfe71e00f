"""C03: basis gradients and derivatives."""
from fractions import Fraction
from itertools import product

import mpmath
import numpy as np

from pyvc import terms as T
from pyvc.sym import SSeq, SArr, lift, wrap, new_array, snapshot, F8, elemnum
from . import spec as S
from .base import Check
from .c02 import TOL, coords, order_, simplex_points, stub_modes, _gn, _len, basis_of

CHECK = Check(
    "C03", level="proof",
    trusted=["the derivative of SP is DSP (C01: grad_jacobi)",
             "PKDO modes of order >= 2 in the collapsing variables vanish to second order on the "
             "collapsed set (homogeneous polynomials)",
             "pytools.wandering_element (battery-checked)"],
    assumptions=["floating point is treated as real arithmetic",
                 "points within 1e-9 of a collapsed vertex/edge, other than those on it, are "
                 "sampled by the battery only",
                 "callees jacobi and grad_jacobi are used through their contracts (C01)"],
    bounded=["tensor-product gradients: proved for every factor function, for factor-dimension "
             "lists of length <= 3 with entries <= 3"])

VARS = [T.var(f"${n}", "R") for n in "rst"]


def _at(term, X):
    return T.subst(term, dict(zip(VARS, X)))


def _grad(d, k, arr):
    def h(v, W):
        modes = W.modules["modepy.modes"]
        W.patch("modepy.modes.jacobi", S.jacobi_contract)
        W.patch("modepy.modes.grad_jacobi", S.grad_jacobi_contract)
        v.defs.update(S.small_defs(v))
        o = order_(v, d)
        rs, xs, elem, _ = coords(v, (d, k), arr)
        X = [lift(x) for x in xs]
        O = [lift(x) for x in o]
        V = VARS[:d]
        fn = {1: "_grad_pkdo_1d", 2: "grad_pkdo_2d", 3: "grad_pkdo_3d"}[d]
        poly = None
        if k == "vertex" and d == 2:
            if v.choose("i=0"):
                o = (0, o[1])
                poly = S.pkdo2_vertex(0, O[1], *V)
            elif v.choose("i=1"):
                o = (1, o[1])
                poly = S.pkdo2_vertex(1, O[1], *V)
            else:
                v.assume(o[0] >= 2)
        elif k == "edge":
            if v.choose("i=0"):
                o = (0, *o[1:])
                poly = S.pkdo3_edge(0, *O[1:], *V)
            elif v.choose("i=1"):
                o = (1, *o[1:])
                poly = S.pkdo3_edge(1, *O[1:], *V)
            else:
                v.assume(o[0] >= 2)
        elif k == "vertex":
            for a, b in ((0, 0), (1, 0), (0, 1)):
                if v.choose(f"i={a},j={b}"):
                    o = (a, b, o[2])
                    poly = S.pkdo3_vertex(a, b, O[2], *V)
                    break
            else:
                v.assume(o[0] + o[1] >= 2)
        elif d == 1:
            poly = S.SP(S.ZERO, S.ZERO, O[0], V[0])
        elif d == 2:
            poly = S.pkdo2(*O, *V)
        else:
            poly = S.pkdo3(*O, *V)
        r = getattr(modes, fn)(o, rs)
        v.prove("one component per axis", T.TRUE if len(r) == d else T.FALSE)
        for ax in range(d):
            want = S.ZERO if poly is None else _at(S.diff(poly, V[ax]), X)
            v.prove_eq(f"{fn}: component {ax} is the partial derivative ({k})",
                       elem(r[ax]), wrap(want))
        v.cover("end")
        if not arr and k == "generic":
            import modepy.modes as mm
            v.conform(fn, r[d - 1], lambda E: getattr(mm, fn)(
                tuple(E(x) for x in o), np.array([E(x) for x in xs]))[d - 1])
    return h


for _d, _k in ((1, "generic"), (2, "generic"), (2, "vertex"), (3, "generic"), (3, "edge"),
               (3, "vertex")):
    for _arr in (False, True):
        _n = {1: "_grad_pkdo_1d", 2: "grad_pkdo_2d", 3: "grad_pkdo_3d"}[_d]
        CHECK.vc(f"{_n} {_k} {'array' if _arr else 'point'}",
                 functions=[f"modepy.modes.{_n}", "modepy.modes._where"]
                 + (["modepy.modes._rstoab"] if _d == 2 else [])
                 + (["modepy.modes._rsttoabc"] if _d == 3 else []),
                 uses=["modepy.modes.jacobi", "modepy.modes.grad_jacobi"],
                 timeout=200)(_grad(_d, _k, _arr))


def dmono(o, x, ax):
    """d/dx_ax prod x_k^o_k as a term; 0 when the exponent is 0"""
    parts = []
    for k, (e, y) in enumerate(zip(o, x)):
        if k == ax:
            parts.append(T.ite(T.eq(e, S.ZERO), S.ZERO,
                               T.mul(e, T.pow_(y, T.sub(e, S.ONE)))))
        else:
            parts.append(T.pow_(y, e))
    return T.mul(*parts)


def _mono(d):
    def h(v, W):
        modes = W.modules["modepy.modes"]
        o = order_(v, d, "ijkl")
        O = [lift(x) for x in o]
        m = v.int("m", lo=0, sample=lambda r: r.randint(0, 3))
        x = v.array("x", (d, m))
        rd = snapshot(x)
        g = modes.grad_monomial(o, x)
        v.prove("one component per axis", T.TRUE if len(g) == d else T.FALSE)
        for ax in range(d):
            def want(i, ax=ax):
                return wrap(dmono(O, [rd((S.N_(k), lift(i))) for k in range(d)], ax))
            v.prove_array(f"grad_monomial component {ax}", g[ax], (m,), want)
            v.prove_array(f"diff_monomial axis {ax}", modes.diff_monomial(o, ax, x), (m,), want)
        v.cover("end")
    return h


for _d in (1, 2, 3, 4):
    CHECK.vc(f"monomial gradients {_d}d", functions=[
        "modepy.modes.grad_monomial", "modepy.modes.diff_monomial",
        "modepy.modes._diff_monomial_1d"])(_mono(_d))


def _basis(cls, d):
    """gradients[q] / derivatives(a)[q] belong to mode q, for every q"""
    def h(v, W):
        modes = W.modules["modepy.modes"]
        n = v.int("n", lo=1)
        N = v.int("N", lo=0)
        q = v.int("q", lo=0)
        v.assume(q < n)
        W.pytools["generate_nonnegative_integer_tuples_summing_to_at_most"] = \
            lambda a, b: _gn(v, a, b, N, d, n)
        tag = []

        def pk(name):
            def stub(order, rst):
                tag.append(name)
                return tuple(wrap(T.app("DPK", S.N_(ax), *[lift(x) for x in order]))
                             for ax in range(d))
            return stub

        def dm(order, ax, rst):
            tag.append("diff_monomial")
            return wrap(T.app("DPK", lift(ax), *[lift(x) for x in order]))
        for nm in ("_grad_pkdo_1d", "grad_pkdo_2d", "grad_pkdo_3d", "grad_monomial"):
            W.patch(f"modepy.modes.{nm}", pk(nm))
        W.patch("modepy.modes.diff_monomial", dm)
        b = getattr(modes, cls)(d, N)
        mode = [T.app(f"mode{k}", lift(q), sort="I") for k in range(d)]
        gs = b.gradients
        v.prove_eq("as many gradients as modes", _len(gs), n)
        x = v.array("x", (d,))
        g = gs[q](x)
        mono = cls == "_SimplexMonomialBasis"
        fam = {"grad_monomial", "diff_monomial"} if mono else \
            {{1: "_grad_pkdo_1d", 2: "grad_pkdo_2d", 3: "grad_pkdo_3d"}[d]}
        for ax in range(d):
            v.prove_eq(f"gradient q, component {ax}", g[ax],
                       wrap(T.app("DPK", S.N_(ax), *mode)))
            ds = b.derivatives(ax)
            v.prove_eq("as many derivatives as modes", _len(ds), n)
            v.prove_eq(f"derivative {ax} of mode q", ds[q](x),
                       wrap(T.app("DPK", S.N_(ax), *mode)))
        v.prove("gradients of the right family", T.TRUE if set(tag) <= fam else T.FALSE)
        v.cover("end")
    return h


for _d in (1, 2, 3):
    CHECK.vc(f"_SimplexONB.gradients {_d}d", functions=[
        "modepy.modes._SimplexONB.gradients", "modepy.modes.Basis.derivatives"],
        uses=["pytools.gnitsam"])(_basis("_SimplexONB", _d))
for _d in (1, 2, 4):
    CHECK.vc(f"_SimplexMonomialBasis.gradients {_d}d", functions=[
        "modepy.modes._SimplexMonomialBasis.gradients",
        "modepy.modes._SimplexMonomialBasis.derivatives"],
        uses=["pytools.gnitsam"])(_basis("_SimplexMonomialBasis", _d))


def _tp(dims):
    """gradient of a product = sum over the owning factor only, with all factors uninterpreted"""
    def h(v, W):
        modes = W.modules["modepy.modes"]
        n = sum(dims)
        off = [sum(dims[:k]) for k in range(len(dims) + 1)]
        m = v.int("m", lo=0, sample=lambda r: r.randint(0, 3))
        x = v.array("x", (n, m))
        rd = snapshot(x)

        def F(k):
            def f(y):
                v.prove_eq(f"factor {k} gets its own coordinates", y.shape[0], dims[k])
                ry = snapshot(y)
                return new_array((m,), lambda i: T.app(
                    f"F{k}", *[ry((S.N_(c), i[0])) for c in range(dims[k])]), F8)
            return f

        def G(k):
            def g(y):
                v.prove_eq(f"factor {k} gets its own coordinates", y.shape[0], dims[k])
                ry = snapshot(y)
                return tuple(new_array((m,), lambda i, ax=ax: T.app(
                    f"D{k}_{ax}", *[ry((S.N_(c), i[0])) for c in range(dims[k])]), F8)
                    for ax in range(dims[k]))
            return g

        class StubBasis:
            def __init__(self, k):
                self.k = k
                self.functions = (F(k),)
                self.gradients = (G(k),)
                self.mode_ids = ((0,) * dims[k],)

            def derivatives(self, ax):
                g = G(self.k)
                return (lambda y: g(y)[ax],)

        def want(ax):
            def w(i):
                out = []
                for k in range(len(dims)):
                    nm = f"F{k}" if not off[k] <= ax < off[k + 1] else f"D{k}_{ax - off[k]}"
                    out.append(T.app(nm, *[rd((S.N_(c), lift(i)))
                                           for c in range(off[k], off[k + 1])]))
                return wrap(T.mul(*out))
            return w
        b = modes.TensorProductBasis([StubBasis(k) for k in range(len(dims))],
                                     dims_per_basis=tuple(dims))
        gs = b.gradients
        v.prove("one mode", T.TRUE if len(gs) == 1 else T.FALSE)
        g = gs[0](x)
        v.prove("one component per axis", T.TRUE if len(g) == n else T.FALSE)
        for ax in range(n):
            v.prove_array(f"gradient component {ax}", g[ax], (m,), want(ax))
            d = b.derivatives(ax)
            v.prove("one derivative per mode", T.TRUE if len(d) == 1 else T.FALSE)
            v.prove_array(f"derivative {ax}", d[0](x), (m,), want(ax))
        v.prove_array("points unmodified", x, (n, m), lambda i, j: wrap(rd((lift(i), lift(j)))))
        v.cover("end")
    return h


for _L in (1, 2, 3):
    for _dims in product((1, 2, 3), repeat=_L):
        if sum(_dims) <= 5:
            CHECK.vc(f"tensor product gradients {_dims}", functions=[
                "modepy.modes._TensorProductGradientBasisFunction.__call__",
                "modepy.modes._TensorProductBasisFunction.__call__",
                "modepy.modes.TensorProductBasis.gradients",
                "modepy.modes.TensorProductBasis.derivatives"],
                uses=["factor functions (uninterpreted)", "pytools.gnitb",
                      "pytools.wandering_element"])(_tp(_dims))


# {{{ batteries

@CHECK.battery("pkdo gradients", functions=["modepy.modes.grad_pkdo_2d",
                                            "modepy.modes.grad_pkdo_3d"])
def _(B):
    for d, NM in ((1, 8), (2, 6 if not B.thorough else 10), (3, 4 if not B.thorough else 6)):
        pts = simplex_points(d, B.nprng, 4)
        b = basis_of(d, NM)
        for mid, f, g in zip(b.mode_ids, b.functions, b.gradients, strict=True):
            with mpmath.workdps(40):
                want = np.array([[float(c) for c in S.ref_pkdo_grad(d, mid, p)]
                                 for p in pts.T]).T
            sc = max(1, np.max(np.abs(want)))
            got = g(pts)
            B.ok("tuple of axes", isinstance(got, tuple) and len(got) == d, d=d, mode=mid)
            B.close("gradient", np.array(got), want, rtol=1e-7, atol=1e-7 * sc, d=d, mode=mid)
        for ax in range(d):
            for q, (df, g) in enumerate(zip(b.derivatives(ax), b.gradients, strict=True)):
                B.close("derivatives", df(pts), g(pts)[ax], d=d, ax=ax, q=q)
        for shape in ((d, 0), (d, 1), (d,)):
            x = B.nprng.uniform(-1, -.6, shape)
            for q, g in enumerate(b.gradients):
                B.ok("shapes", all(np.shape(c) == shape[1:] for c in g(x)), d=d, q=q,
                     shape=shape)


def fd_grad(f, x):
    """numerical gradient by 6th-order differences (points interior)"""
    out = []
    h = 1e-2
    for ax in range(len(x)):
        s = 0
        for k, c in ((1, 3 / 4), (2, -3 / 20), (3, 1 / 60)):
            e = np.zeros_like(x)
            e[ax] = k * h
            s = s + c * (f(x + e) - f(x - e)) / h
        out.append(s)
    return np.array(out)


def bases_zoo(thorough=False):
    import modepy as mp
    out = []
    for d, N in ((1, 4), (2, 4), (3, 3)):
        for mk in (mp.orthonormal_basis_for_space, mp.monomial_basis_for_space):
            out.append((f"{mk.__name__} PN({d},{N})", d, mk(mp.PN(d, N), mp.Simplex(d))))
    out.append(("monomial PN(4,2)", 4, mp.monomial_basis_for_space(mp.PN(4, 2),
                                                                   mp.Simplex(4))))
    for d, N in ((1, 3), (2, 3), (3, 2)):
        for mk in (mp.orthonormal_basis_for_space, mp.monomial_basis_for_space):
            out.append((f"{mk.__name__} QN({d},{N})", d, mk(mp.QN(d, N), mp.Hypercube(d))))
    for parts in (((1, 2), (1, 4)), ((1, 1), (1, 3), (1, 2)), ((2, 2), (1, 3)), ((1, 3), (2, 2)), ((1, 1), (3, 2)),
                  ((1, 2), (1, 1), (2, 2)), ((3, 1), (1, 2)), ((2, 2), (1, 1), (1, 3))):
        sp = mp.TensorProductSpace(tuple(mp.PN(*p) for p in parts))
        sh = mp.TensorProductShape(tuple(mp.Simplex(p[0]) for p in parts))
        for mk in (mp.orthonormal_basis_for_space, mp.monomial_basis_for_space):
            out.append((f"{mk.__name__} {parts}", sp.spatial_dim, mk(sp, sh)))
    on, mo = mp.orthonormal_basis_for_space, mp.monomial_basis_for_space
    out.append(("mixed", 3, mp.TensorProductBasis(
        [mo(mp.PN(2, 2), mp.Simplex(2)), on(mp.PN(1, 3), mp.Simplex(1))],
        dims_per_basis=(2, 1))))
    out.append(("triangle x triangle", 4, mp.TensorProductBasis(
        [on(mp.PN(2, 1), mp.Simplex(2)), on(mp.PN(2, 3), mp.Simplex(2))],
        dims_per_basis=(2, 2))))
    inner = mp.TensorProductBasis([on(mp.PN(1, 2), mp.Simplex(1)),
                                   mo(mp.PN(2, 1), mp.Simplex(2))], dims_per_basis=(1, 2))
    out.append(("nested", 4, mp.TensorProductBasis(
        [mo(mp.PN(1, 1), mp.Simplex(1)), inner], dims_per_basis=(1, 3))))
    return out


@CHECK.battery("gradients of every basis", functions=["modepy.modes.Basis.gradients",
                                                      "modepy.modes.Basis.derivatives"])
def _(B):
    for name, d, b in bases_zoo(B.thorough):
        lam = B.nprng.dirichlet(np.ones(d + 1), 6)
        x = (-0.9 + 1.8 * lam[:, 1:]).T
        fs, gs = b.functions, b.gradients
        B.ok("as many gradients as functions", len(fs) == len(gs), basis=name)
        ds = [b.derivatives(ax) for ax in range(d)]
        for q in range(len(fs)):
            want = fd_grad(fs[q], x)
            got = gs[q](x)
            B.ok("components", len(got) == d, basis=name, q=q)
            sc = max(1, np.abs(want).max())
            B.close("gradient", np.array(got), want, rtol=1e-5, atol=1e-5 * sc, basis=name, q=q)
            for ax in range(d):
                B.close("derivative", ds[ax][q](x), got[ax], basis=name, q=q, ax=ax)
            for m in (0, 1):
                g = gs[q](x[:, :m])
                B.ok("shapes", all(np.shape(c) == (m,) for c in g), basis=name, q=q, m=m)
                B.close("one point", np.array(g), np.array(got)[:, :m], basis=name, q=q, m=m)


@CHECK.battery("monomial gradients", functions=["modepy.modes.grad_monomial",
                                                "modepy.modes.diff_monomial"])
def _(B):
    from modepy.modes import diff_monomial, grad_monomial
    for d in (1, 2, 3, 4):
        x = np.concatenate([B.nprng.uniform(-1, 1, (d, 4)), np.zeros((d, 1)),
                            np.eye(d)[:, :1] * 0.5], axis=1)
        for o in product(range(5 if d < 3 else 4), repeat=d):
            g = grad_monomial(o, x)
            for ax in range(d):
                w = np.ones(x.shape[1])
                for k in range(d):
                    if k != ax:
                        w = w * x[k] ** o[k]
                    else:
                        w = w * (o[k] * x[k] ** (o[k] - 1) if o[k] else 0)
                B.close("grad_monomial", g[ax], w, o=o, ax=ax)
                B.close("diff_monomial", diff_monomial(o, ax, x), w, o=o, ax=ax)



@CHECK.battery("integer points", functions=["modepy.modes", "modepy.modes.grad_pkdo_2d"])
def _(B):
    import modepy as mp
    from itertools import product
    for sh in (mp.Simplex(1), mp.Simplex(2), mp.Simplex(3), mp.Hypercube(2), mp.Hypercube(3),
               mp.TensorProductShape((mp.Simplex(2), mp.Simplex(1)))):
        V = np.array(list(product((-1, 0, 1), repeat=sh.dim))).T
        if isinstance(sh, mp.Simplex):
            V = V[:, V.sum(0) <= 2 - sh.dim]
        if isinstance(sh, mp.TensorProductShape) and not isinstance(sh, mp.Hypercube):
            V = V[:, V[0] + V[1] <= 0]
        sp = mp.space_for_shape(sh, 3)
        for mk in (mp.orthonormal_basis_for_space, mp.monomial_basis_for_space,
                   mp.basis_for_space):
            b = mk(sp, sh)
            for nm, fs in (("functions", b.functions), ("gradients", b.gradients)):
                for mid, f in zip(b.mode_ids, fs, strict=True):
                    want = np.array(f(V.astype(np.float64)))
                    sc = max(1, np.max(np.abs(want)))
                    for dt in (np.int64, np.int32):
                        okc, got = B.call("integer points", lambda: f(V.astype(dt)), shape=repr(sh),
                                          basis=mk.__name__, which=nm, mode=mid, dtype=dt.__name__)
                        if okc:
                            B.close("integer points", np.array(got), want, rtol=1e-9,
                                    atol=1e-9 * sc, shape=repr(sh), basis=mk.__name__, which=nm,
                                    mode=mid, dtype=dt.__name__)

# }}}
