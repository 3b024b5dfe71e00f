"""C02: simplex orthonormal (PKDO) and monomial bases: values."""
from fractions import Fraction
from itertools import product
from math import comb

import mpmath
import numpy as np

from pyvc import terms as T
from pyvc.sym import SNum, SSeq, lift, wrap, new_array, snapshot, F8, elemnum
from . import spec as S
from .base import Check, THOROUGH

CHECK = Check(
    "C02", level="proof",
    trusted=["with the Jacobi families orthonormal (C01), the PKDO products of the contract are "
             "orthonormal on the simplex (Koornwinder; the Jacobian exponents are discharged "
             "as lemma obligations)",
             "P_i(a) w^i with a = u/w - 1 is a homogeneous polynomial of degree i in (u, w): "
             "its value where u = w = 0 is its constant term for i = 0 and 0 for i >= 1",
             "pytools.generate_nonnegative_integer_tuples_summing_to_at_most (battery-checked)"],
    assumptions=["floating point is treated as real arithmetic",
                 "points within 1e-9 of a collapsed vertex/edge, other than those on it, are "
                 "sampled by the battery only",
                 "callee jacobi is used through its contract (C01)"])

TOL = Fraction(1, 10**9)


def point(v, kind):
    """(coordinates, assumptions are pushed).  kind: generic / collapsed"""
    d, k = kind
    if k == "generic":
        xs = [v.real("rst"[i]) for i in range(d)]
        if d == 2:
            v.assume(1 - xs[1] >= TOL)
        if d == 3:
            v.assume(-(xs[1] + xs[2]) >= TOL)
            v.assume(1 - xs[2] >= TOL)
        return xs
    if k == "vertex":
        return [wrap(S.N_(-1))] * (d - 1) + [wrap(S.ONE)]
    # edge of the tetrahedron
    t = v.real("t")
    v.assume(1 - t >= TOL)
    return [wrap(S.N_(-1)), -t, t]


def coords(v, kind, arr):
    """(argument for the code, element coordinates as terms, reader of results)"""
    xs = point(v, kind)
    d = len(xs)
    if not arr:
        buf = new_array((d,), lambda i: _pick(xs, i[0]), F8)
        return buf, xs, lambda r: r, None
    m = v.int("m", lo=1, sample=lambda r: r.randint(1, 3))
    q = v.int("q", lo=0, sample=lambda r: 0)
    v.assume(q < m)
    base = v.array("X", (d, m))
    rd = snapshot(base)
    Q = lift(q)
    buf = new_array((d, m), lambda i: T.ite(T.eq(i[1], Q), _pick(xs, i[0]), rd(i)), F8)

    def elem(r):
        v.prove("one value per point", T.and_(*[T.eq(lift(a), lift(b)) for a, b in
                                                zip(r.shape, (m,))])
                if len(r.shape) == 1 else T.FALSE)
        return elemnum(r.elem((Q,)))
    return buf, xs, elem, q


def _pick(xs, i):
    out = lift(xs[-1])
    for k in range(len(xs) - 2, -1, -1):
        out = T.ite(T.eq(i, S.N_(k)), lift(xs[k]), out)
    return out


def order_(v, d, names="ijk"):
    return tuple(v.int(names[n], lo=0, sample=lambda r: r.randint(0, 3)) for n in range(d))


def _value(d, k, arr):
    def h(v, W):
        modes = W.modules["modepy.modes"]
        W.patch("modepy.modes.jacobi", S.jacobi_contract)
        v.defs.update(S.small_defs(v))
        o = order_(v, d)
        rs, xs, elem, _ = coords(v, (d, k), arr)
        X = [lift(x) for x in xs]
        O = [lift(x) for x in o]
        fn = {1: "_pkdo_1d", 2: "pkdo_2d", 3: "pkdo_3d"}[d]
        f = getattr(modes, fn)
        if k == "vertex" and d == 2:
            if v.choose("i=0"):
                v.assume(o[0] == 0)
                o = (0, o[1])
                want = S.pkdo2_vertex(0, O[1], *X)
            else:
                v.assume(o[0] >= 1)
                want = S.ZERO
        elif k == "edge":
            if v.choose("i=0"):
                o = (0, *o[1:])
                want = S.pkdo3_edge(0, *O[1:], *X)
            else:
                v.assume(o[0] >= 1)
                want = S.ZERO
        elif k == "vertex":
            if v.choose("i+j=0"):
                o = (0, 0, o[2])
                want = S.pkdo3_vertex(0, 0, O[2], *X)
            else:
                v.assume(o[0] + o[1] >= 1)
                want = S.ZERO
        elif d == 1:
            want = S.SP(S.ZERO, S.ZERO, O[0], X[0])
        elif d == 2:
            want = S.pkdo2(*O, *X)
        else:
            want = S.pkdo3(*O, *X)
        r = elem(f(o, rs))
        v.prove_eq(f"{fn} is its defining polynomial ({k})", r, wrap(want))
        v.cover("end")
        if not arr and k == "generic":
            import modepy.modes as mm
            v.conform(fn, r, lambda E: getattr(mm, fn)(
                tuple(E(x) for x in o), np.array([E(x) for x in xs])))
    return h


for _d, _k in ((1, "generic"), (2, "generic"), (2, "vertex"), (3, "generic"), (3, "edge"),
               (3, "vertex")):
    for _arr in (False, True):
        _n = {1: "_pkdo_1d", 2: "pkdo_2d", 3: "pkdo_3d"}[_d]
        CHECK.vc(f"{_n} {_k} {'array' if _arr else 'point'}",
                 functions=[f"modepy.modes.{_n}", "modepy.modes._where"]
                 + (["modepy.modes._rstoab"] if _d == 2 else [])
                 + (["modepy.modes._rsttoabc"] if _d == 3 else []),
                 uses=["modepy.modes.jacobi"])(_value(_d, _k, _arr))


@CHECK.vc("zerod_basis", functions=["modepy.modes.zerod_basis"])
def _(v, W):
    modes = W.modules["modepy.modes"]
    m = v.int("m", lo=0, sample=lambda r: r.randint(0, 3))
    r = modes.zerod_basis(v.array("x", (0, m)))
    v.prove_array("the constant 1, orthonormal on a point", r, (m,), lambda i: 1)
    v.cover("end")


def _monomial(d, arr):
    def h(v, W):
        modes = W.modules["modepy.modes"]
        o = order_(v, d, "ijkl")
        if arr:
            m = v.int("m", lo=0, sample=lambda r: r.randint(0, 3))
            x = v.array("x", (d, m))
            rd = snapshot(x)
            r = modes.monomial(o, x)
            v.prove_array("monomial value", r, (m,), lambda i: wrap(T.mul(*[
                T.pow_(rd((S.N_(k), lift(i))), lift(o[k])) for k in range(d)])))
        else:
            x = v.array("x", (d,))
            rd = snapshot(x)
            r = modes.monomial(o, x)
            v.prove_eq("monomial value", elemnum(r), wrap(T.mul(*[
                T.pow_(rd((S.N_(k),)), lift(o[k])) for k in range(d)])))
        v.cover("end")
    return h


for _d in (1, 2, 3, 4):
    CHECK.vc(f"monomial {_d}d", functions=["modepy.modes.monomial"])(_monomial(_d, True))


def stub_modes(v, n, d):
    """an arbitrary sequence of n mode tuples"""
    return SSeq(lift(n), lambda q: tuple(
        wrap(T.app(f"mode{k}", lift(q), sort="I")) for k in range(d)))


def _basis(cls, d):
    """functions[q] is the basis polynomial of order mode_ids[q], for every q"""
    def h(v, W):
        modes = W.modules["modepy.modes"]
        n = v.int("n", lo=1)
        N = v.int("N", lo=0)
        q = v.int("q", lo=0)
        v.assume(q < n)
        W.pytools["generate_nonnegative_integer_tuples_summing_to_at_most"] = \
            lambda a, b: _gn(v, a, b, N, d, n)
        tag = {}

        def pk(name):
            def stub(order, rst):
                tag["name"] = name
                return wrap(T.app("PK", *[lift(x) for x in order]))
            return stub
        for nm in ("_pkdo_1d", "pkdo_2d", "pkdo_3d", "monomial"):
            W.patch(f"modepy.modes.{nm}", pk(nm))
        b = getattr(modes, cls)(d, N)
        fs = b.functions
        v.prove_eq("as many functions as mode tuples", _len(fs), n)
        x = v.array("x", (d,))
        r = fs[q](x)
        v.prove_eq("function q has the order given by identifier q", r, wrap(
            T.app("PK", *[T.app(f"mode{k}", lift(q), sort="I") for k in range(d)])))
        want = "monomial" if cls == "_SimplexMonomialBasis" else \
            {1: "_pkdo_1d", 2: "pkdo_2d", 3: "pkdo_3d"}[d]
        v.prove("function of the right family", T.TRUE if tag["name"] == want else T.FALSE)
        v.cover("end")
    return h


def _len(x):
    return x.len_() if hasattr(x, "len_") else len(x)


def _gn(v, a, b, N, d, n):
    v.prove_eq("tuples summing to at most the order", a, N)
    v.prove_eq("tuples of the dimension's length", b, d)
    return stub_modes(v, n, d)


for _d in (1, 2, 3):
    CHECK.vc(f"_SimplexONB.functions {_d}d", functions=[
        "modepy.modes._SimplexONB.functions", "modepy.modes.SimplexBasis.mode_ids"],
        uses=["pytools.gnitsam"])(_basis("_SimplexONB", _d))
for _d in (1, 2, 4):
    CHECK.vc(f"_SimplexMonomialBasis.functions {_d}d", functions=[
        "modepy.modes._SimplexMonomialBasis.functions", "modepy.modes.SimplexBasis.mode_ids"],
        uses=["pytools.gnitsam"])(_basis("_SimplexMonomialBasis", _d))


@CHECK.vc("lemma: weights of the Jacobi factors are the Jacobians")
def _(v, W):
    """the two powers of (1-b) and the Duffy Jacobian give exactly the Jacobi weight"""
    i = v.int("i", lo=0)
    ip = v.int("ip", lo=0)
    j = v.int("j", lo=0)
    b = v.real("b", lo=-1, hi=1)
    i_, j_, B = lift(i), lift(j), T.sub(S.ONE, lift(b))
    # 2D: dr ds = (1-b)/2 da db;   (sqrt2)^2 (1-b)^(2i) (1-b)/2 = (1-b)^(2i+1)
    v.prove_eq("triangle", wrap(T.mul(S.TWO, T.pow_(B, i_), T.pow_(B, i_), S.half(B))),
               wrap(T.pow_(B, T.add(T.mul(S.TWO, i_), S.ONE))))
    # 3D: dr ds dt = (1-b)/2 ((1-c)/2)^2 da db dc
    v.prove_eq("tetrahedron, b", wrap(T.mul(S.TWO, T.pow_(B, i_), T.pow_(B, i_), S.half(B))),
               wrap(T.pow_(B, T.add(T.mul(S.TWO, i_), S.ONE))))
    s = T.add(i_, j_)
    v.prove_eq("tetrahedron, c", wrap(T.mul(S.N_(4), T.pow_(B, s), T.pow_(B, s),
                                            S.half(B), S.half(B))),
               wrap(T.pow_(B, T.add(T.mul(S.TWO, s), S.TWO))))
    v.cover("end")


# {{{ batteries

def simplex_points(d, rng, n=12):
    """points of the closed reference simplex, including degenerate and nearly degenerate ones"""
    pts = []
    for v in range(d + 1):
        p = -np.ones(d)
        if v:
            p[v - 1] = 1
        pts.append(p)
    vs = np.array(pts)
    pts.append(vs.mean(axis=0))
    for _ in range(n):
        lam = rng.dirichlet(np.ones(d + 1))
        pts.append(lam @ vs)
    for a in range(d + 1):
        for b in range(a):
            for t in (0.5, 0.123, 1e-3, 1e-6, 1e-9, 3e-11, 1e-13):
                pts.append((1 - t) * vs[a] + t * vs[b])
    for a in range(d + 1):
        for eps in (1e-1, 1e-4, 1e-7, 1e-10, 1e-12, 1e-14):
            lam = rng.dirichlet(np.ones(d + 1))
            pts.append((1 - eps) * vs[a] + eps * (lam @ vs))
    if d == 3:
        for eps in (1e-2, 1e-5, 1e-8, 1e-10, 1e-12):
            for t in (-0.9, 0.0, 0.6, 1 - 1e-6):
                # near the edge s + t = 0
                q = np.array([-1 + 0.3 * eps, -t - eps, t])
                if q[1] >= -1:
                    pts.append(q)
    return np.array(pts).T


def basis_of(d, N):
    import modepy as mp
    return mp.orthonormal_basis_for_space(mp.PN(d, N), mp.Simplex(d))


@CHECK.battery("pkdo values", functions=["modepy.modes.pkdo_2d", "modepy.modes.pkdo_3d",
                                         "modepy.modes._pkdo_1d"])
def _(B):
    for d, NM in ((1, 9), (2, 7 if not B.thorough else 12), (3, 4 if not B.thorough else 7)):
        pts = simplex_points(d, B.nprng, 6)
        b = basis_of(d, NM)
        for mid, f in zip(b.mode_ids, b.functions, strict=True):
            with mpmath.workdps(30):
                want = np.array([float(S.ref_pkdo(d, mid, p)) for p in pts.T])
            sc = max(1, np.max(np.abs(want)))
            B.close("values", f(pts), want, rtol=1e-8, atol=1e-8 * sc, d=d, mode=mid)
            for p in (pts[:, d], pts[:, 0], pts[:, d + 2]):
                with mpmath.workdps(30):
                    w = float(S.ref_pkdo(d, mid, p))
                B.close("value at one point", f(p), w, rtol=1e-8, atol=1e-8 * sc, d=d,
                        mode=mid, p=p.tolist())
        for mid, f in ((m, f) for m, f in zip(b.mode_ids, b.functions) if sum(m) <= 2):
            for shape in ((d, 0), (d, 1), (d, 2, 3)):
                x = B.nprng.uniform(-1, -0.5, shape)
                got = f(x)
                want = np.array([float(S.ref_pkdo(d, mid, p))
                                 for p in x.reshape(d, -1).T]).reshape(shape[1:])
                B.close("shape", got, want, rtol=1e-8, atol=1e-8, d=d, mode=mid, shape=shape)
    for mid in ((17, 3), (3, 17), (0, 24), (24, 0)):
        pts = simplex_points(2, B.nprng, 2)
        import modepy as mp
        with mpmath.workdps(40):
            want = np.array([float(S.ref_pkdo(2, mid, p)) for p in pts.T])
        B.close("high order", mp.modes.pkdo_2d(mid, pts), want, rtol=1e-6,
                atol=1e-7 * np.max(np.abs(want)), mode=mid)
    # (2i + 2 <= 171: the range of the gamma function that the normalisation uses)
    for mid in ((60, 2), (75, 0), (76, 1), (80, 0), (84, 2)):
        pts = simplex_points(2, B.nprng, 3)
        for p in pts.T:
            with mpmath.workdps(120):
                w = float(S.ref_pkdo(2, mid, p))
                top = max(abs(float(S.ref_pkdo(2, mid, [v, u]))) for v, u in
                          ((p[0], p[1]), (p[0] * .999, p[1]), (p[0], p[1] * .999)))
            B.close("high order", mp.modes.pkdo_2d(mid, p), w, rtol=1e-6, atol=1e-7 * top, mode=mid,
                    p=p.tolist())
    for mid in ((9, 2, 1), (1, 8, 3), (0, 2, 10), (30, 30, 0), (20, 56, 1)):
        pts = simplex_points(3, B.nprng, 2)
        with mpmath.workdps(40 if sum(mid) < 40 else 120):
            want = np.array([float(S.ref_pkdo(3, mid, p)) for p in pts.T])
        B.close("high order", mp.modes.pkdo_3d(mid, pts), want, rtol=1e-6,
                atol=1e-7 * np.max(np.abs(want)), mode=mid)


def duffy_rule(d, n):
    """exact rule on the simplex from Gauss-Legendre/Jacobi, independent of modepy"""
    from scipy.special import roots_jacobi
    rules = [roots_jacobi(n, k, 0) for k in range(d)]
    pts, wts = [], []
    for idx in product(range(n), repeat=d):
        u = [rules[k][0][idx[k]] for k in range(d)]
        w = np.prod([rules[k][1][idx[k]] / 2 ** k for k in range(d)])
        # collapse
        x = [0.0] * d
        rem = 1.0
        for k in range(d - 1, -1, -1):
            lam = (1 + u[k]) / 2 * rem
            x[k] = -1 + 2 * lam
            rem -= lam
        pts.append(x)
        wts.append(w)
    return np.array(pts).T, np.array(wts)


@CHECK.battery("orthonormality, counts and degrees", functions=[
    "modepy.modes._SimplexONB", "modepy.modes.zerod_basis"])
def _(B):
    import modepy as mp
    for d, NM in ((1, 14), (2, 9), (3, 5)):
        x, w = duffy_rule(d, NM + 2)
        B.close("rule volume (self-check)", w.sum(), 2.0**d / [1, 1, 2, 6][d], d=d)
        for N in range(NM + 1):
            for maker in (mp.orthonormal_basis_for_space, mp.basis_for_space):
                b = maker(mp.PN(d, N), mp.Simplex(d))
                B.ok("count", len(b.functions) == comb(N + d, d) == len(set(b.mode_ids)),
                     d=d, N=N)
                B.ok("degrees", all(len(m) == d and sum(m) <= N and min(m) >= 0
                                    for m in b.mode_ids), d=d, N=N)
                V = np.array([f(x) for f in b.functions])
                B.close("gram", (V * w) @ V.T, np.eye(len(V)), atol=1e-9, d=d, N=N,
                        maker=maker.__name__)
                B.ok("is orthonormal, weight 1", b.orthonormality_weight() == 1, d=d, N=N)
        # total degree <= N: along every line the (N+1)-st difference vanishes
        b = basis_of(d, min(NM, 5))
        for mid, f in zip(b.mode_ids, b.functions):
            n = sum(mid)
            p, q = B.nprng.uniform(-.9, -.5, d), B.nprng.uniform(-.1, .1, d)
            t = np.linspace(0, 1, n + 2)
            y = f(p[:, None] + q[:, None] * t)
            c = [(-1) ** k * comb(n + 1, k) for k in range(n + 2)]
            B.close("total degree", np.dot(c, y), 0, atol=1e-8 * max(1, np.abs(y).max())
                    * 2 ** n, d=d, mode=mid)
    for N in (0, 1, 4):
        b = mp.orthonormal_basis_for_space(mp.PN(0, N), mp.Simplex(0))
        B.ok("0d count", len(b.functions) == 1, N=N)
        for m in (0, 1, 3):
            B.close("0d: the constant orthonormal on a point", b.functions[0](
                np.zeros((0, m))), np.ones(m), N=N, m=m)


@CHECK.battery("monomials", functions=["modepy.modes.monomial",
                                       "modepy.modes._SimplexMonomialBasis"])
def _(B):
    import modepy as mp
    for d in (1, 2, 3, 4, 5):
        for N in range(0, 6 if d < 4 else 4):
            b = mp.monomial_basis_for_space(mp.PN(d, N), mp.Simplex(d))
            want = {t for t in product(range(N + 1), repeat=d) if sum(t) <= N}
            B.ok("every monomial once", set(b.mode_ids) == want
                 and len(b.mode_ids) == len(want) == len(b.functions), d=d, N=N)
            for shape in ((d, 4), (d, 1), (d, 0), (d,)):
                x = B.nprng.uniform(-1, 1, shape)
                x0 = x.copy()
                for mid, f in zip(b.mode_ids, b.functions):
                    w = np.ones(shape[1:])
                    for k in range(d):
                        w = w * x[k] ** mid[k]
                    B.close("value", f(x), w, rtol=1e-12, d=d, mode=mid, shape=shape)
                B.ok("points unmodified", np.array_equal(x, x0), d=d, N=N, shape=shape)
            if d > 3:
                b2 = mp.basis_for_space(mp.PN(d, N), mp.Simplex(d))
                B.ok("basis_for_space beyond 3d is monomial", b2.mode_ids == b.mode_ids,
                     d=d, N=N)
        x = np.array([[0.0, -1.0, 0.5]] * d)
        for o in ((0,) * d, (7,) + (0,) * (d - 1), (0,) * (d - 1) + (5,)):
            w = np.prod([x[k] ** o[k] for k in range(d)], axis=0)
            B.close("special", mp.modes.monomial(o, x), w, o=o)

# }}}
