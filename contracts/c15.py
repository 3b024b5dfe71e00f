"""C15: reference shapes, faces and face maps."""
from itertools import combinations, product

import numpy as np

from pyvc import terms as T
from pyvc.sym import SArr, asarr, lift, wrap, snapshot
from .base import Check

CHECK = Check(
    "C15", level="proof",
    trusted=["pymbolic.geometric_algebra.MultiVector (normals are evaluated concretely)"],
    assumptions=["faces are tabulated in the library for dimensions 1 to 3 only: all of these are "
                 "covered, for arbitrary points of the face element; the finitely many normals "
                 "are evaluated exhaustively"])

SH = "modepy.shapes."
UV = SH + "unit_vertices_for_simplex"
UVT = SH + "unit_vertices_for_tp"
FS, FH = SH + "faces_for_simplex", SH + "faces_for_hypercube"
MS, MH = SH + "_simplex_face_to_vol_map", SH + "_hypercube_face_to_vol_map"


@CHECK.vc("simplex vertices, any dimension", functions=[UV, SH + "Simplex.nvertices",
                                                        SH + "Simplex.nfaces"])
def _(v, W):
    sh = W.modules["modepy.shapes"]
    d = v.int("d", lo=0, sample=lambda r: r.randint(0, 4))
    s = sh.Simplex(d)
    v.prove_eq("dimension", s.dim, d)
    v.prove_eq("number of vertices", s.nvertices, d + 1)
    v.prove_eq("number of faces", s.nfaces, d + 1)
    x = sh.unit_vertices_for_shape(s)
    v.prove_array("vertices: the lower corner, then one unit along each axis", x, (d, d + 1),
                  lambda i, j: wrap(T.ite(T.eq(lift(j), T.add(lift(i), T.ONE)), T.ONE, T.num(-1))))
    v.cover("end")


def bits(k, d):
    return [(k >> i) & 1 for i in range(d)]


@CHECK.vc("hypercube vertices: binary counting", functions=[
    UVT, UV, SH + "TensorProductShape.__init__", SH + "TensorProductShape.nvertices",
    SH + "TensorProductShape.nfaces", SH + "Hypercube.__init__", SH + "Hypercube.__new__"])
def _(v, W):
    sh = W.modules["modepy.shapes"]
    for d in range(7):
        s = sh.Hypercube(d)
        v.prove_eq(f"dimension {d}", s.dim, d)
        v.prove_eq(f"number of vertices {d}", s.nvertices, 2**d)
        v.prove_eq(f"number of faces {d}", s.nfaces, 2 * d)
        x = sh.unit_vertices_for_shape(s)
        v.prove(f"shape {d}", T.TRUE if x.shape == (d, 2**d) else T.FALSE)
        for k in range(2**d):
            for i in range(d):
                v.prove_eq(f"vertex {k} of the {d}-cube, axis {i}", x[i, k], 2 * bits(k, d)[i] - 1)
    v.cover("end")


def _vertices(bases):
    """independent enumeration: the first factor varies fastest"""
    vs = [()]
    for d in reversed(bases):
        one = [tuple(1 if i + 1 == j else -1 for i in range(d)) for j in range(d + 1)]
        vs = [a + b for b in vs for a in one]
    return vs


PRODUCTS = [(1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (0, 1),
            (1, 0), (4, 1), (1, 1, 1, 1), (1, 1, 3), ()]


def nfaces(bases):
    return sum(d + 1 for d in bases if d)


@CHECK.vc("vertices of products", functions=[UVT, SH + "TensorProductShape.__init__",
                                             SH + "TensorProductShape.nvertices",
                                             SH + "TensorProductShape.nfaces"])
def _(v, W):
    sh = W.modules["modepy.shapes"]
    for b in PRODUCTS:
        s = sh.TensorProductShape(tuple(sh.Simplex(d) for d in b))
        want = _vertices(b)
        v.prove_eq(f"dimension {b}", s.dim, sum(b))
        v.prove_eq(f"number of vertices {b}", s.nvertices, len(want))
        v.prove_eq(f"number of faces {b}", s.nfaces, nfaces(b))
        x = sh.unit_vertices_for_shape(s)
        v.prove(f"shape {b}", T.TRUE if x.shape == (sum(b), len(want)) else T.FALSE)
        for k, w in enumerate(want):
            for i in range(sum(b)):
                v.prove_eq(f"vertex {k} of {b}, axis {i}", x[i, k], w[i])
    v.cover("end")


def blend(simplex, p, verts):
    """P1/Q1 interpolation of the vertices at the point p of the face's reference element"""
    h = [T.div(T.add(T.ONE, x), T.num(2)) for x in p]
    if simplex:
        lam = [T.sub(T.ONE, T.add(T.num(0), *h))] + h
    else:
        lam = []
        for k in range(2**len(h)):
            t = T.ONE
            for b, x in zip(bits(k, len(h)), h):
                t = T.mul(t, x if b else T.sub(T.ONE, x))
            lam.append(t)
    return [T.add(*[T.mul(a, T.num(w[i])) for a, w in zip(lam, verts)], T.num(0))
            for i in range(len(verts[0]))]


def facets(kind, d):
    """the facets as sets of vertex numbers"""
    if kind == "Simplex":
        return [frozenset(c) for c in combinations(range(d + 1), d)]
    return [frozenset(k for k in range(2**d) if bits(k, d)[i] == b)
            for i in range(d) for b in (0, 1)]


def _faces(kind, d):
    def h(v, W):
        sh = W.modules["modepy.shapes"]
        shape = getattr(sh, kind)(d)
        simplex = kind == "Simplex" or d == 1
        verts = _vertices((d,) if simplex else (1,) * d)
        fs = sh.faces_for_shape(shape)
        v.prove("as many faces as announced", T.TRUE if len(fs) == shape.nfaces else T.FALSE)
        got = [frozenset(f.volume_vertex_indices) for f in fs]
        v.prove("every facet of the boundary exactly once", T.TRUE if sorted(
            map(sorted, got)) == sorted(map(sorted, facets("Simplex" if simplex else kind, d)))
            else T.FALSE)
        n = v.int("n", lo=0, sample=lambda r: r.randint(0, 3))
        for k, f in enumerate(fs):
            v.prove("a shape of one dimension less", T.TRUE if f.dim == d - 1 and isinstance(
                f, sh.Shape) else T.FALSE)
            v.prove("its element", T.TRUE if isinstance(f, sh.Simplex) == (
                simplex or d - 1 <= 1) else T.FALSE)
            v.prove("index", T.TRUE if f.face_index == k else T.FALSE)
            v.prove("volume", T.TRUE if f.volume_shape == shape else T.FALSE)
            fv = [verts[i] for i in f.volume_vertex_indices]
            v.prove("vertices of the face element", T.TRUE if len(fv) == f.nvertices
                    else T.FALSE)
            p = v.array(f"p{k}", (d - 1, n))
            rp = snapshot(p)
            x = f.map_to_volume(p)
            i = T.fresh("j", "I")
            pt = [rp((T.num(a), i)) for a in range(d - 1)]
            want = blend(simplex, pt, fv)
            sym = sh.unit_vertices_for_shape(f)
            ref = _vertices((d - 1,) if simplex else (1,) * (d - 1))
            v.prove("reference vertices of the face", T.TRUE if sym.shape == (d - 1, len(ref))
                    else T.FALSE)
            for a in range(d - 1):
                for j, w in enumerate(ref):
                    v.prove_eq("reference vertex of the face", sym[a, j], w[a])

            def el(a, j):
                r = want[-1]
                for b in range(d - 2, -1, -1):
                    r = T.ite(T.eq(lift(a), T.num(b)), want[b], r)
                return wrap(T.subst(r, {i: lift(j)}))
            v.prove_array(f"face {k}: affine interpolation of its listed vertices", x, (d, n), el)
            v.prove_array("points unmodified", p, (d - 1, n),
                          lambda a, j: wrap(rp((lift(a), lift(j)))))
            y = f.map_to_volume(sym)
            for a in range(d):
                for j, w in enumerate(fv):
                    v.prove_eq(f"face {k}: vertex {j} goes to the listed vertex", y[a, j], w[a])
        v.cover("end")
    return h


for _k in ("Simplex", "Hypercube"):
    for _d in (1, 2, 3):
        CHECK.vc(f"faces of {_k}({_d})", functions=[FS, MS] if _k == "Simplex" or _d == 1 else
                 [FH, MH, MS])(_faces(_k, _d))


@CHECK.vc("face map of any simplex facet", functions=[MS])
def _(v, W):
    sh = W.modules["modepy.shapes"]
    d = v.int("d", lo=1, sample=lambda r: r.randint(1, 3))
    n = v.int("n", lo=0, sample=lambda r: r.randint(0, 3))
    V, p = v.array("V", (d, d)), v.array("p", (d - 1, n))
    rv, rp = snapshot(V), snapshot(p)
    x = getattr(sh, "_simplex_face_to_vol_map")(V, p)

    def want(i, k):
        i, k = lift(i), lift(k)
        j = T.fresh("j", "I")
        o = rv((i, T.num(0)))
        return wrap(T.add(o, T.binder("sum", j, T.num(0), T.sub(lift(d), T.ONE), T.mul(
            T.sub(rv((i, T.add(j, T.ONE))), o),
            T.div(T.add(T.ONE, rp((j, k))), T.num(2))))))
    v.prove_array("affine interpolation", x, (d, n), want)
    v.cover("end")


# {{{ battery

def _shapes():
    import modepy as mp
    from modepy.shapes import TensorProductShape
    S = mp.Simplex
    out = [("S", (d,), S(d)) for d in range(6)] + [("H", (1,) * d, mp.Hypercube(d))
                                                   for d in range(6)]
    out += [("P", b, TensorProductShape(tuple(S(d) for d in b))) for b in PRODUCTS if len(b) != 1]
    out += [("P", (1, 1, 2), TensorProductShape((mp.Hypercube(2), S(2)))),
            ("P", (2, 1, 1), TensorProductShape((S(2), mp.Hypercube(2)))),
            ("P", (1, 2, 1), TensorProductShape((TensorProductShape((S(1), S(2))), S(1)))),
            ("P", (1, 1, 1, 1), TensorProductShape((mp.Hypercube(2), mp.Hypercube(2)))),
            ("P", (1, 1, 1, 2), TensorProductShape(
                (S(1), TensorProductShape((mp.Hypercube(2), S(2)))))),
            ("P", (1, 1, 2), TensorProductShape((mp.Hypercube(0), mp.Hypercube(2), S(2)))),
            ("S", (2,), TensorProductShape((S(2),))),
            ("H", (1, 1), TensorProductShape((mp.Hypercube(2),)))]
    return out


@CHECK.battery("vertices and counts", functions=[UV, UVT])
def _(B):
    import modepy as mp
    from modepy.shapes import TensorProductShape
    for kind, b, s in _shapes():
        want = np.array(_vertices(b), dtype=float).reshape(-1, sum(b)).T if sum(b) else np.zeros((0, len(_vertices(b))))
        inp = dict(kind=kind, factors=b)
        B.equal("dimension", s.dim, sum(b), **inp)
        B.equal("number of vertices", s.nvertices, want.shape[1], **inp)
        if not (kind == "S" and b == (0,)):
            okc, nf = B.call("number of faces", lambda: s.nfaces, **inp)
            if okc:
                B.equal("number of faces", nf, nfaces(b), **inp)
        okc, x = B.call("vertices", lambda: mp.unit_vertices_for_shape(s), **inp)
        if okc:
            B.close("vertices", x, want, 0, 0, **inp)
        if isinstance(s, TensorProductShape):
            B.equal("flat", tuple(x.dim for x in s.bases), b, **inp)
    for b in [(2, 2), (2, 3), (2, 2, 1), (3, 1, 2)]:
        B.raises("two simplices", NotImplementedError, lambda: TensorProductShape(
            tuple(mp.Simplex(d) for d in b)), factors=b)


@CHECK.battery("faces", functions=[FS, FH, MS, MH, SH + "face_normal"])
def _(B):
    import modepy as mp
    from modepy.shapes import TensorProductShape
    for kind, d in product(("Simplex", "Hypercube"), (1, 2, 3)):
        shape = getattr(mp, kind)(d)
        V = mp.unit_vertices_for_shape(shape)
        cen = V.mean(axis=1)
        simplex = kind == "Simplex" or d == 1
        fs = mp.faces_for_shape(shape)
        B.equal("number of faces", len(fs), shape.nfaces, kind=kind, dim=d)
        B.equal("facets", sorted(sorted(f.volume_vertex_indices) for f in fs),
                sorted(map(sorted, facets("Simplex" if simplex else kind, d))), kind=kind, dim=d)
        tot = np.zeros(d)
        for k, f in enumerate(fs):
            inp = dict(kind=kind, dim=d, face=k)
            fv = V[:, list(f.volume_vertex_indices)]
            B.equal("index", f.face_index, k, **inp)
            B.equal("volume", f.volume_shape, shape, **inp)
            B.equal("dim", f.dim, d - 1, **inp)
            B.equal("number of vertices", f.nvertices, len(f.volume_vertex_indices), **inp)
            B.close("face vertices", f.map_to_volume(mp.unit_vertices_for_shape(f)), fv, 0, 1e-15,
                    **inp)
            p = B.nprng.uniform(-1, 1, (d - 1, 6))
            p0 = p.copy()
            x = f.map_to_volume(p)
            q = B.nprng.uniform(-1, 1, (d - 1, 6))
            t = B.nprng.uniform(-2, 2, 6)
            B.close("affine", f.map_to_volume(t*p + (1-t)*q), t*x + (1-t)*f.map_to_volume(q),
                    1e-13, 1e-13, **inp)
            B.ok("points unmodified", np.array_equal(p, p0), **inp)
            n = mp.face_normal(f)
            B.equal("normal: shape", np.shape(n), (d,), **inp)
            B.close("normal: unit", np.sqrt((n**2).sum()), 1, 1e-14, 1e-14, **inp)
            for j in range(1, fv.shape[1]):
                B.close("normal: orthogonal to the edges", n @ (fv[:, j] - fv[:, 0]), 0, 0, 1e-14,
                        **inp)
            B.ok("normal: outward", n @ (fv[:, 0] - cen) > 0.1, **inp)
            B.close("normal: constant on the facet's plane", n @ x, np.full(6, n @ fv[:, 0]), 1e-13,
                    1e-13, **inp)
            m = mp.face_normal(f, normalize=False)
            if d > 1:
                e = fv[:, 1:d] - fv[:, :1]
                B.close("unnormalised", m, n * np.sqrt(np.linalg.det(e.T @ e)), 1e-13, 1e-13, **inp)
                tot = tot + m
            else:
                B.close("unnormalised", m, n, **inp)
                tot = tot + m
        B.close("the normals of a closed surface cancel", tot, np.zeros(d), 0, 1e-13, kind=kind,
                dim=d)
    B.raises("no faces for prisms", NotImplementedError, lambda: mp.faces_for_shape(
        TensorProductShape((mp.Simplex(2), mp.Simplex(1)))))

# }}}
