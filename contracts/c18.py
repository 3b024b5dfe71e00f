"""C18: affine maps and the coordinate maps of the simplex."""
import numpy as np

from pyvc import terms as T
from pyvc.sym import lift, wrap, snapshot, asarr
from .base import Check

CHECK = Check(
    "C18", level="proof",
    trusted=["numpy.linalg.inv, solve and det (contracts: two-sided inverse, solution, "
             "determinant)", "pytools.memoize_method"],
    assumptions=["equilateral coordinates exist in dimensions 1 to 3 only (the library's tables); "
                 "points and their number are arbitrary",
                 "floating point is treated as real arithmetic"])

TO = "modepy.tools."
AM = TO + "AffineMap."


def _sum(n, fn):
    u = T.fresh("u", "I")
    return T.binder("sum", u, T.num(0), lift(n), fn(u))


# {{{ affine maps

def _map(v, W, n):
    to = W.modules["modepy.tools"]
    a, b = v.array("a", (n, n)), v.array("b", (n,))
    return to.AffineMap(a, b), snapshot(a), snapshot(b), a, b


@CHECK.vc("affine map: definition", functions=[AM + "__init__", AM + "__call__"])
def _(v, W):
    n = v.int("n", lo=1, sample=lambda r: r.randint(1, 3))
    m = v.int("m", lo=0, sample=lambda r: r.randint(0, 3))
    k = v.int("k", lo=1, sample=lambda r: r.randint(1, 3))
    to = W.modules["modepy.tools"]
    a, b = v.array("a", (k, n)), v.array("b", (k,))
    f, ra, rb = to.AffineMap(a, b), snapshot(a), snapshot(b)
    x, y = v.array("x", (n, m)), v.array("y", (n,))
    rx, ry = snapshot(x), snapshot(y)
    v.prove_array("points", f(x), (k, m), lambda i, j: wrap(T.add(
        _sum(n, lambda u: T.mul(ra((lift(i), u)), rx((u, lift(j))))), rb((lift(i),)))))
    v.prove_array("one point", f(y), (k,), lambda i: wrap(T.add(
        _sum(n, lambda u: T.mul(ra((lift(i), u)), ry((u,)))), rb((lift(i),)))))
    for nm, arr, rd, r in [("a", a, 2, ra), ("b", b, 1, rb), ("x", x, 2, rx)]:
        v.prove_array(nm + " unmodified", arr, arr.shape,
                      lambda *i, r=r: wrap(r(tuple(lift(z) for z in i))))
    v.prove_array("matrix", f.a, (k, n), lambda i, j: wrap(ra((lift(i), lift(j)))))
    v.prove_array("offset", f.b, (k,), lambda i: wrap(rb((lift(i),))))
    v.cover("end")


@CHECK.vc("affine map: inverse", functions=[AM + "inverse", AM + "__call__", AM + "__init__"])
def _(v, W):
    n = v.int("n", lo=1, sample=lambda r: r.randint(1, 3))
    m = v.int("m", lo=0, sample=lambda r: r.randint(0, 3))
    f, ra, rb, a, b = _map(v, W, n)
    x, y = v.array("x", (n, m)), v.array("y", (n,))
    rx, ry = snapshot(x), snapshot(y)
    g = f.inverse
    v.prove("an affine map", T.TRUE if isinstance(g, type(f)) else T.FALSE)
    v.prove_array("inverse after map", g(f(x)), (n, m), lambda i, j: wrap(rx((lift(i), lift(j)))))
    v.prove_array("map after inverse", f(g(x)), (n, m), lambda i, j: wrap(rx((lift(i), lift(j)))))
    v.prove_array("inverse after map, one point", g(f(y)), (n,), lambda i: wrap(ry((lift(i),))))
    v.prove_array("map after inverse, one point", f(g(y)), (n,), lambda i: wrap(ry((lift(i),))))
    v.prove_array("map unchanged: a", f.a, (n, n), lambda i, j: wrap(ra((lift(i), lift(j)))))
    v.prove_array("map unchanged: b", f.b, (n,), lambda i: wrap(rb((lift(i),))))
    v.prove_array("again", f.inverse(f(x)), (n, m), lambda i, j: wrap(rx((lift(i), lift(j)))))
    v.cover("end")


@CHECK.vc("affine map: Jacobian", functions=[AM + "jacobian"])
def _(v, W):
    from itertools import permutations
    for d in (1, 2, 3, 4):
        f, ra, rb, a, b = _map(v, W, d)
        t = T.num(0)
        for p in permutations(range(d)):
            s = (-1)**sum(p[j] > p[i] for i in range(d) for j in range(i))
            t = T.add(t, T.mul(T.num(s), *[ra((T.num(i), T.num(p[i]))) for i in range(d)]))
        v.prove_eq(f"determinant, dimension {d}", f.jacobian, wrap(t))
        v.prove_eq(f"again, dimension {d}", f.jacobian, wrap(t))
    n = v.int("n", lo=1, sample=lambda r: r.randint(1, 3))
    f, ra, rb, a, b = _map(v, W, n)
    v.prove_eq("determinant of the matrix, any dimension", f.jacobian, W.la.det(a))
    v.cover("end")

# }}}


# {{{ coordinates of the simplex

B2U, U2B = TO + "barycentric_to_unit", TO + "unit_to_barycentric"
B2E, E2U = TO + "barycentric_to_equilateral", TO + "equilateral_to_unit"


def _bary(v, d, n, name="l"):
    """n points of d+1 barycentric coordinates (the first from the sum)"""
    from pyvc.sym import new_array, F8
    x = snapshot(v.array(name, (d, n)))
    return new_array((d + 1, n), lambda i: T.ite(
        T.eq(i[0], T.ZERO), T.sub(T.ONE, _sum(d, lambda u: x((u, i[1])))),
        x((T.sub(i[0], T.ONE), i[1]))), F8), x


@CHECK.vc("barycentric and unit coordinates, any dimension", functions=[B2U, U2B])
def _(v, W):
    to = W.modules["modepy.tools"]
    d = v.int("d", lo=0, sample=lambda r: r.randint(0, 4))
    n = v.int("n", lo=0, sample=lambda r: r.randint(0, 3))
    u = v.array("u", (d, n))
    ru = snapshot(u)
    lam = to.unit_to_barycentric(u)
    v.prove_array("barycentric", lam, (d + 1, n), lambda i, j: wrap(T.ite(
        T.eq(lift(i), T.ZERO),
        T.sub(T.ONE, _sum(d, lambda k: T.div(T.add(ru((k, lift(j))), T.ONE), T.num(2)))),
        T.div(T.add(ru((T.sub(lift(i), T.ONE), lift(j))), T.ONE), T.num(2)))))
    j = v.int("j", lo=0)
    v.assume(T.lt(lift(j), lift(n)))
    rl = snapshot(lam)
    v.prove_eq("they add up to one", wrap(_sum(d + 1, lambda k: rl((k, lift(j))))), 1)
    v.prove_array("unit after barycentric", to.barycentric_to_unit(lam), (d, n),
                  lambda i, j: wrap(ru((lift(i), lift(j)))))
    v.prove_array("argument unmodified", u, (d, n), lambda i, j: wrap(ru((lift(i), lift(j)))))
    b, x = _bary(v, d, n)
    rb = snapshot(b)
    un = to.barycentric_to_unit(b)
    v.prove_array("unit", un, (d, n), lambda i, j: wrap(T.sub(
        T.mul(T.num(2), x((lift(i), lift(j)))), T.ONE)))
    v.prove_array("barycentric after unit", to.unit_to_barycentric(un), (d + 1, n),
                  lambda i, j: wrap(rb((lift(i), lift(j)))))
    v.cover("end")


@CHECK.vc("barycentric to unit coordinates is linear, any dimension", functions=[B2U])
def _(v, W):
    to = W.modules["modepy.tools"]
    d = v.int("d", lo=0, sample=lambda r: r.randint(0, 4))
    n = v.int("n", lo=0, sample=lambda r: r.randint(0, 3))
    b = v.array("b", (d + 1, n))
    rb = snapshot(b)
    V = lambda i, k: T.ite(T.eq(k, T.add(i, T.ONE)), T.ONE, T.num(-1))    # noqa: E731
    v.prove_array("combination of the vertices in their order", to.barycentric_to_unit(b), (d, n),
                  lambda i, j: wrap(_sum(d + 1, lambda k: T.mul(V(lift(i), k), rb((k, lift(j)))))))
    v.cover("end")


def _equi(d):
    """documented vertices (shapes.py), the order of the unit vertices"""
    s = lambda x: T.sqrt(T.num(x))    # noqa: E731
    D = T.div
    o, z, m = T.ONE, T.num(0), T.num(-1)
    if d == 1:
        return [[m], [o]]
    if d == 2:
        return [[m, D(m, s(3))], [o, D(m, s(3))], [z, D(T.num(2), s(3))]]
    return [[m, D(m, s(3)), D(m, s(6))], [o, D(m, s(3)), D(m, s(6))],
            [z, D(T.num(2), s(3)), D(m, s(6))], [z, z, D(T.num(3), s(6))]]


def _equilateral(d):
    def h(v, W):
        to = W.modules["modepy.tools"]
        n = v.int("n", lo=0, sample=lambda r: r.randint(0, 3))
        V = _equi(d)
        for p in range(d + 1):
            for q in range(p):
                v.prove_eq("documented vertices: edges of length two", wrap(T.add(*[T.mul(
                    T.sub(V[p][i], V[q][i]), T.sub(V[p][i], V[q][i])) for i in range(d)])), 4)
        b = v.array("b", (d + 1, n))
        rb = snapshot(b)
        j = v.int("j", lo=0)
        v.assume(T.lt(lift(j), lift(n)))
        e = to.barycentric_to_equilateral(b)
        v.prove("shape", T.TRUE if e.ndim == 2 and e.shape[0] == d else T.FALSE)
        v.prove_eq("points", e.shape[1], n)
        for i in range(d):
            v.prove_eq("combination of the vertices", e[i, j], wrap(T.add(*[T.mul(
                V[k][i], rb((T.num(k), lift(j)))) for k in range(d + 1)])))
        # points: the coordinates add up to one
        bb, x = _bary(v, d, n, "x")
        un = to.barycentric_to_unit(bb)
        got = to.equilateral_to_unit(to.barycentric_to_equilateral(bb))
        v.prove("shape of unit points", T.TRUE if got.ndim == 2 and got.shape[0] == d else T.FALSE)
        v.prove_eq("number of unit points", got.shape[1], n)
        for i in range(d):
            v.prove_eq("equilateral and direct way agree", got[i, j], un[i, j])
            v.prove_eq("unit coordinates", got[i, j], wrap(T.sub(T.mul(T.num(2), x(
                (T.num(i), lift(j)))), T.ONE)))
        # every equilateral point is such a combination: affine, and its reverse
        f = to.EQUILATERAL_TO_UNIT_MAP[d]
        q = v.array("q", (d, n))
        rq = snapshot(q)
        uq = to.equilateral_to_unit(q)
        fq = f(q)
        back = to.barycentric_to_equilateral(to.unit_to_barycentric(uq))
        for i in range(d):
            v.prove_eq("reverse", back[i, j], wrap(rq((T.num(i), lift(j)))))
            v.prove_eq("the tabulated map", fq[i, j], uq[i, j])
        v.prove("vertex table", T.TRUE if asarr(to.EQUILATERAL_VERTICES[d]).shape == (d + 1, d)
                else T.FALSE)
        for k in range(d + 1):
            for i in range(d):
                v.prove_eq("vertex table", to.EQUILATERAL_VERTICES[d][k, i], wrap(V[k][i]))
        v.cover("end")
    return h


for _d in (1, 2, 3):
    CHECK.vc(f"equilateral coordinates, dimension {_d}", functions=[B2E, E2U, B2U, U2B])(
        _equilateral(_d))

# }}}


# {{{ battery

@CHECK.battery("affine maps", functions=[AM + "__call__", AM + "inverse", AM + "jacobian"])
def _(B):
    from modepy.tools import AffineMap
    for d in (1, 2, 3, 4, 5, 7):
        for t in range(6):
            a = B.nprng.uniform(-1, 1, (d, d)) + 2 * np.eye(d)[B.nprng.permutation(d)]
            if t == 1:
                a = np.eye(d)[B.nprng.permutation(d)]
            if t == 2:
                a *= 1e-3
            if t == 3:
                a = np.rint(4 * a).astype(int) + 9 * np.eye(d, dtype=int)
            if t == 4:
                a = np.triu(a) + 3 * np.eye(d)
            if t == 5:
                a = np.diag(B.nprng.uniform(1, 2, d))
            b = B.nprng.uniform(-3, 3, d)
            if t == 3:
                b = np.arange(d) + 1
            a0, b0 = a.copy(), b.copy()
            as_list = t == 0
            f = AffineMap(a.tolist(), b.tolist()) if as_list else AffineMap(a, b)
            for x in (B.nprng.uniform(-1, 1, (d, 5)), B.nprng.uniform(-1, 1, d), np.zeros((d, 0))):
                inp = dict(a=a0, b=b0, x=x)
                want = np.array([[sum(a0[i, k] * x2[k] for k in range(d)) + b0[i]
                                  for x2 in x.reshape(d, -1).T] for i in range(d)], dtype=float)
                okc, y = B.call("map", lambda: f(x), **inp)
                if not okc:
                    continue
                B.close("map", y, want.reshape(x.shape), **inp)
                okc, g = B.call("inverse", lambda: f.inverse, **inp)
                if okc:
                    B.close("inverse after map", g(y), x, rtol=1e-7, atol=1e-7, **inp)
                    B.close("map after inverse", f(g(x)), x, rtol=1e-7, atol=1e-7, **inp)
            B.close("Jacobian", f.jacobian, _det(a0), rtol=1e-8, atol=1e-18, a=a0)
            B.ok("arguments unmodified", (a == a0).all() and (b == b0).all(), a=a0, b=b0)
            B.close("matrix", f.a, a0, a=a0)
            B.close("offset", f.b, b0, b=b0)


def _det(m):
    m = np.array(m, dtype=float)
    if len(m) == 1:
        return m[0, 0]
    return sum((-1)**j * m[0, j] * _det(np.delete(m[1:], j, axis=1)) for j in range(len(m)))


@CHECK.battery("coordinates", functions=[B2U, U2B, B2E, E2U])
def _(B):
    from modepy import tools as to
    for d in range(0, 8):
        for n in (0, 1, 6):
            u = B.nprng.uniform(-1, 1, (d, n))
            inp = dict(d=d, n=n)
            okc, lam = B.call("barycentric", lambda: to.unit_to_barycentric(u), **inp)
            if not okc:
                continue
            want = np.vstack([1 - ((u + 1) / 2).sum(axis=0)[None], (u + 1) / 2])
            B.close("barycentric", lam, want, **inp)
            okc, u2 = B.call("unit", lambda: to.barycentric_to_unit(lam), **inp)
            if okc:
                B.close("round trip", u2, u, **inp)
            if d in (1, 2, 3):
                okc, e = B.call("equilateral", lambda: to.barycentric_to_equilateral(lam), **inp)
                if okc:
                    okc, u3 = B.call("unit", lambda: to.equilateral_to_unit(e), **inp)
                    if okc:
                        B.close("round trip over equilateral", u3, u, **inp)
        lam = np.eye(d + 1)
        V = -np.ones((d, d + 1))
        for i in range(d):
            V[i, i + 1] = 1
        B.close("vertices", to.barycentric_to_unit(lam), V, d=d)
        if d in (1, 2, 3):
            E = np.array([[-1, -1 / 3**0.5, -1 / 6**0.5], [1, -1 / 3**0.5, -1 / 6**0.5],
                          [0, 2 / 3**0.5, -1 / 6**0.5], [0, 0, 3 / 6**0.5]])[:d + 1, :d].T
            B.close("equilateral vertices", to.barycentric_to_equilateral(lam), E, d=d)
            B.close("equilateral vertices to unit", to.equilateral_to_unit(E), V, d=d)

# }}}
