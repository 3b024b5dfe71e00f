"""C08: resampling and differentiation matrices."""
from itertools import product

import numpy as np

from pyvc import terms as T
from pyvc.sym import SSeq, lift, wrap, snapshot
from .base import Check
from .linear import Fns, GFns, vdm_stub, multi_vdm_stub, sums, coef

CHECK = Check(
    "C08", level="proof",
    trusted=["numpy.linalg.solve/pinv by contract: solve(A, B) is the X with A X = B for "
             "invertible A; pinv(A) A = 1 for full column rank",
             "vandermonde / multi_vandermonde by contract (C07)"],
    assumptions=["'unisolvent' means the Vandermonde matrix on the old nodes is invertible (of "
                 "full column rank in the least-squares case)",
                 "diff_matrix_permutation: node tuples are distinct and closed under the swap "
                 "of the axes",
                 "numpy raises LinAlgError on exactly singular systems"])

RS = "modepy.matrices.resampling_matrix"
DM = "modepy.matrices.differentiation_matrices"


def _resample(d, lsq):
    def h(v, W):
        mat = W.modules["modepy.matrices"]
        W.patch("modepy.matrices.vandermonde", vdm_stub)
        n = v.int("n", lo=1, sample=lambda r: r.randint(1, 3))
        mo = n if not lsq else v.int("mo", lo=1, sample=lambda r: r.randint(1, 4))
        mn = v.int("mn", lo=0, sample=lambda r: r.randint(0, 3))
        if lsq:
            v.assume(mo > n)
        xo, xn = v.array("xo", (d, mo)), v.array("xn", (d, mn))
        ro, rn = snapshot(xo), snapshot(xn)
        F = Fns("F", n, d)
        if lsq:
            R = mat.resampling_matrix(F, xn, xo, least_squares_ok=True)
        else:
            R = mat.resampling_matrix(F, xn, xo)
        v.prove_eq("one row per new node", R.shape[0], mn)
        v.prove_eq("one column per old node", R.shape[1], mo)
        c = coef("c")
        a = v.int("a", lo=0, sample=lambda r: 0)
        v.assume(a < mn)
        rd = snapshot(R)
        lhs = sums([mo, n], lambda i, j: T.mul(rd((lift(a), i)), F.at(ro, j, i), c(j)))
        rhs = sums([n], lambda j: T.mul(F.at(rn, j, a), c(j)))
        v.prove_eq("span functions are resampled exactly", wrap(lhs), wrap(rhs))
        if not lsq:
            R2 = snapshot(mat.resampling_matrix(F, xn, xo, least_squares_ok=True))
            lhs = sums([mo, n], lambda i, j: T.mul(R2((lift(a), i)), F.at(ro, j, i), c(j)))
            v.prove_eq("with least_squares_ok", wrap(lhs), wrap(rhs))
        v.prove_array("old nodes unchanged", xo, (d, mo),
                      lambda k, i: wrap(ro((lift(k), lift(i)))))
        v.prove_array("new nodes unchanged", xn, (d, mn),
                      lambda k, i: wrap(rn((lift(k), lift(i)))))
        v.cover("end")
    return h


def _reject(d):
    def h(v, W):
        mat = W.modules["modepy.matrices"]
        W.patch("modepy.matrices.vandermonde", vdm_stub)
        W.patch("modepy.matrices.multi_vandermonde", multi_vdm_stub)
        n = v.int("n", lo=1, sample=lambda r: r.randint(1, 3))
        mo = v.int("mo", lo=0, sample=lambda r: r.randint(0, 5))
        v.assume(wrap(T.not_(T.eq(lift(mo), lift(n)))))
        mn = v.int("mn", lo=0, sample=lambda r: r.randint(0, 3))
        xo, xn = v.array("xo", (d, mo)), v.array("xn", (d, mn))
        try:
            mat.resampling_matrix(Fns("F", n, d), xn, xo)
        except RuntimeError:
            v.ok("resampling from too few or too many nodes is rejected")
        else:
            v.fail("resampling from too few or too many nodes is rejected")
        try:
            mat.differentiation_matrices(Fns("F", n, d), GFns("dF", n, d, d), xn, xo)
        except ValueError:
            v.ok("differentiation from too few or too many nodes is rejected")
        else:
            v.fail("differentiation from too few or too many nodes is rejected")
        try:
            mat.differentiation_matrices(Fns("F", n, d), GFns("dF", n, d, d), xo)
        except ValueError:
            v.ok("differentiation on too few or too many nodes is rejected")
        else:
            v.fail("differentiation on too few or too many nodes is rejected")
        v.cover("end")
    return h


def _diff(d, frm, via):
    def h(v, W):
        mat = W.modules["modepy.matrices"]
        W.patch("modepy.matrices.vandermonde", vdm_stub)
        W.patch("modepy.matrices.multi_vandermonde", multi_vdm_stub)
        n = v.int("n", lo=1, sample=lambda r: r.randint(1, 3))
        m = v.int("m", lo=0, sample=lambda r: r.randint(0, 3)) if frm else n
        x = v.array("x", (d, m))
        y = v.array("y", (d, n)) if frm else x
        rx, ry = snapshot(x), snapshot(y)
        F, G = Fns("F", n, d), GFns("dF", n, d, d)
        args = (x, y) if frm else (x,)
        if via == "diff_matrices":
            class B:
                functions = F
                gradients = G
            D = mat.diff_matrices(B(), *args)
        else:
            D = mat.differentiation_matrices(F, G, *args)
        v.prove("one matrix per axis", T.TRUE if isinstance(D, tuple) and len(D) == d
                else T.FALSE)
        c = coef("c")
        a = v.int("a", lo=0, sample=lambda r: 0)
        v.assume(a < m)
        for ax in range(d):
            v.prove_eq(f"one row per node {ax}", D[ax].shape[0], m)
            v.prove_eq(f"one column per source node {ax}", D[ax].shape[1], n)
            rd = snapshot(D[ax])
            lhs = sums([n, n], lambda i, j: T.mul(rd((lift(a), i)), F.at(ry, j, i), c(j)))
            rhs = sums([n], lambda j: T.mul(G.at(rx, ax, j, a), c(j)))
            v.prove_eq(f"derivative along axis {ax} of span functions", wrap(lhs), wrap(rhs))
        v.prove_array("nodes unchanged", x, (d, m), lambda k, i: wrap(rx((lift(k), lift(i)))))
        v.cover("end")
    return h


for _d in (1, 2, 3):
    for _l in (False, True):
        CHECK.vc(f"resampling {_d}d{', least squares' if _l else ''}", functions=[RS],
                 uses=["modepy.matrices.vandermonde"])(_resample(_d, _l))
    CHECK.vc(f"rejection {_d}d", functions=[RS, DM])(_reject(_d))
    for _f in (False, True):
        for _v in ("differentiation_matrices", "diff_matrices"):
            CHECK.vc(f"{_v} {_d}d{', other source nodes' if _f else ''}",
                     functions=[DM, f"modepy.matrices.{_v}"],
                     uses=["modepy.matrices.vandermonde", "modepy.matrices.multi_vandermonde"])(
                         _diff(_d, _f, _v))


# {{{ axis permutation

def _perm(d, ax):
    """node_tuples[permutation[i]] is node_tuples[i] with axes 0 and ax swapped"""
    def h(v, W):
        mat = W.modules["modepy.matrices"]
        n = v.int("n", lo=0, sample=lambda r: r.randint(0, 4))

        def tup(i):
            return tuple(wrap(T.app(f"t{k}", lift(i), sort="I")) for k in range(d))
        nt = SSeq(lift(n), tup, tuple)
        v.lookup_ok = True      # distinct tuples, closed under the swap of axes
        p = mat.diff_matrix_permutation(nt, ax)
        v.prove_eq("one entry per node", p.shape[0], n)
        i = v.int("i", lo=0, sample=lambda r: 0)
        v.assume(i < n)
        pi = p[i]
        if ax == 0:
            v.prove_eq("identity", pi, i)
        else:
            v.prove("within the node set", wrap(T.and_(T.le(T.num(0), lift(pi)),
                                                       T.lt(lift(pi), lift(n)))))
            sw = list(range(d))
            sw[0], sw[ax] = sw[ax], sw[0]
            for k in range(d):
                v.prove(f"entry {k} of the tuple at the permuted position",
                        wrap(T.eq(lift(tup(pi)[k]), lift(tup(i)[sw[k]]))))
        v.cover("end")
    return h


for _d in (1, 2, 3, 4):
    for _ax in range(_d):
        CHECK.vc(f"diff_matrix_permutation {_d}d, axis {_ax}",
                 functions=["modepy.matrices.diff_matrix_permutation"])(_perm(_d, _ax))

# }}}


# {{{ battery

def cases(thorough):
    """(name, basis, nodes)"""
    import modepy as mp
    from modepy.modes import monomial_basis_for_space, orthonormal_basis_for_space
    from modepy.nodes import edge_clustered_nodes_for_space, equispaced_nodes_for_space
    from modepy.shapes import TensorProductShape
    from modepy.spaces import TensorProductSpace
    out = []
    for d in (1, 2, 3):
        for o in range(1, 6 if d < 3 else 4):
            out.append((mp.PN(d, o), mp.Simplex(d)))
            if d > 1 and o < 4:
                out.append((mp.QN(d, o), mp.Hypercube(d)))
    for ds, os_ in [((1, 1), (1, 3)), ((1, 1), (3, 1)), ((2, 1), (2, 1)), ((1, 2), (3, 2)),
                    ((1, 1, 1), (1, 2, 3))]:
        out.append((TensorProductSpace(tuple(mp.PN(d, o) for d, o in zip(ds, os_))),
                    TensorProductShape(tuple(mp.Simplex(d) for d in ds))))
    for sp, sh in out:
        for kind, bf in [("orth", orthonormal_basis_for_space),
                         ("mono", monomial_basis_for_space)]:
            b = bf(sp, sh)
            yield (f"{sp!r} {kind} edge-clustered", sp, sh, b,
                   edge_clustered_nodes_for_space(sp, sh))
            yield (f"{sp!r} {kind} equispaced", sp, sh, b, equispaced_nodes_for_space(sp, sh))


def span_fn(B, basis, n):
    c = B.nprng.uniform(-1, 1, n)
    fs = basis.functions
    gs = basis.gradients
    return (lambda x: sum(ci * f(x) for ci, f in zip(c, fs)),
            lambda x, ax: sum(ci * g(x)[ax] for ci, g in zip(c, gs)))


def inner_points(B, sh, n):
    from modepy.nodes import random_nodes_for_shape
    return random_nodes_for_shape(sh, n, rng=np.random.default_rng(B.nprng.randint(2**31)))


@CHECK.battery("resampling and differentiation", functions=[RS, DM,
                                                            "modepy.matrices.diff_matrices"])
def _(B):
    from modepy.matrices import diff_matrices, differentiation_matrices, resampling_matrix
    for name, sp, sh, b, nodes in cases(B.thorough):
        n = sp.space_dim
        f, g = span_fn(B, b, n)
        cond = np.linalg.cond(np.array([fi(nodes) for fi in b.functions]).T)
        tol = 1e-13 * max(cond, 100) * 10
        for m in (0, 1, n, n + 3):
            x = inner_points(B, sh, m) if m else np.empty((sh.dim, 0))
            R = resampling_matrix(b.functions, x, nodes)
            B.close("resampled", R @ f(nodes), f(x), tol, tol, case=name, m=m)
            R = resampling_matrix(b.functions, x, nodes, least_squares_ok=True)
            B.close("resampled (least squares allowed)", R @ f(nodes), f(x), tol, tol,
                    case=name, m=m)
            more = np.hstack([nodes, inner_points(B, sh, 4)])
            R = resampling_matrix(b.functions, x, more, least_squares_ok=True)
            B.close("resampled in the least-squares sense", R @ f(more), f(x), tol, tol,
                    case=name, m=m)
            if m:
                D = differentiation_matrices(b.functions, b.gradients, x, nodes)
                D2 = diff_matrices(b, x, nodes)
                B.equal("one matrix per axis", len(D), sh.dim, case=name)
                for ax in range(sh.dim):
                    B.close("differentiated", D[ax] @ f(nodes), g(x, ax), tol * 10, tol * 10,
                            case=name, axis=ax, m=m)
                    B.close("differentiated", D2[ax] @ f(nodes), g(x, ax), tol * 10, tol * 10,
                            case=name, axis=ax, m=m)
        D = differentiation_matrices(b.functions, b.gradients, nodes)
        D2 = diff_matrices(b, nodes)
        for ax in range(sh.dim):
            B.close("differentiated on the same nodes", D[ax] @ f(nodes), g(nodes, ax),
                    tol * 10, tol * 10, case=name, axis=ax)
            B.close("differentiated on the same nodes", D2[ax], D[ax], 1e-12, 1e-12,
                    case=name, axis=ax)
        if n > 1:
            bad = nodes[:, 1:]
            B.raises("too few nodes", RuntimeError,
                     lambda: resampling_matrix(b.functions, nodes, bad), case=name)
            B.raises("too many nodes", RuntimeError, lambda: resampling_matrix(
                b.functions, nodes, np.hstack([nodes, nodes[:, :1] / 3])), case=name)
            B.raises("too few nodes", ValueError, lambda: differentiation_matrices(
                b.functions, b.gradients, nodes, bad), case=name)
            B.raises("too few nodes", ValueError, lambda: differentiation_matrices(
                b.functions, b.gradients, bad), case=name)
            B.raises("too many nodes", ValueError, lambda: diff_matrices(
                b, nodes, np.hstack([nodes, nodes[:, :1] / 3])), case=name)


@CHECK.battery("badly conditioned bases", functions=[RS, DM])
def _(B):
    """tolerances follow the condition of the system: nothing of the span may be dropped"""
    import modepy as mp
    from modepy.matrices import differentiation_matrices, resampling_matrix
    for d, orders in ((1, (8, 12, 16)), (2, (6, 9))):
        for o in orders:
            sp, sh = mp.PN(d, o), mp.Simplex(d)
            b = mp.monomial_basis_for_space(sp, sh)
            nodes = mp.edge_clustered_nodes_for_space(sp, sh)
            more = np.hstack([nodes, inner_points(B, sh, sp.space_dim)])
            x = inner_points(B, sh, 7)
            scale = np.arange(1, sp.space_dim + 1)[::-1] ** 2.0
            for nm, fs, gs in [
                    ("monomials", b.functions, b.gradients),
                    ("scaled", [lambda y, f=f, c=c: f(y) / c for f, c in zip(
                        b.functions, scale)],
                     [lambda y, g=g, c=c: tuple(z / c for z in g(y)) for g, c in zip(
                         b.gradients, scale)])]:
                for old in (nodes, more):
                    V = np.array([f(old) for f in fs]).T
                    tol = 1e-14 * max(np.linalg.cond(V), 100) * 10
                    R = resampling_matrix(fs, x, old, least_squares_ok=True)
                    for j, f in enumerate(fs):
                        B.close("resampled", R @ f(old), f(x), tol, tol * np.abs(f(old)).max(),
                                dim=d, order=o, basis=nm, function=j, nodes=old.shape[1])
                D = differentiation_matrices(fs, gs, x, nodes)
                for j, (f, g) in enumerate(zip(fs, gs)):
                    for ax in range(d):
                        B.close("differentiated", D[ax] @ f(nodes), g(x)[ax], tol * o**2,
                                tol * o**2 * np.abs(f(nodes)).max(), dim=d, order=o, basis=nm,
                                function=j, axis=ax)


@CHECK.battery("axis permutation", functions=["modepy.matrices.diff_matrix_permutation"])
def _(B):
    import modepy as mp
    from modepy.matrices import diff_matrices, diff_matrix_permutation
    from modepy.modes import monomial_basis_for_space, orthonormal_basis_for_space
    from modepy.nodes import (
        edge_clustered_nodes_for_space, equispaced_nodes_for_space, node_tuples_for_space,
    )
    top = {1: 6, 2: 6, 3: 4, 4: 3, 5: 2, 6: 1}
    for d in top:
        for o in range(1, top[d] + 1):
            for sp, sh in [(mp.PN(d, o), mp.Simplex(d))] + (
                    [(mp.QN(d, o), mp.Hypercube(d))] if d > 1 and (o < 5 or d < 3)
                    and (o + 1)**d < 100 else []):
                nt = node_tuples_for_space(sp)
                b = (orthonormal_basis_for_space if d <= 3 else monomial_basis_for_space)(sp, sh)
                for nm, nodes in [("equispaced", equispaced_nodes_for_space(sp, sh)),
                                  ("edge-clustered", edge_clustered_nodes_for_space(sp, sh))]:
                    D = diff_matrices(b, nodes)
                    for ax in range(d):
                        p = diff_matrix_permutation(nt, ax)
                        B.ok("a permutation", p.dtype.kind == "i" and sorted(p) == list(
                            range(len(nt))), space=repr(sp), axis=ax)
                        B.close("permuted first matrix", D[0][p][:, p], D[ax], 1e-8, 1e-8,
                                space=repr(sp), axis=ax, nodes=nm)
                        # any order of the tuples
                        q = B.nprng.permutation(len(nt))
                        t2 = [nt[i] for i in q]
                        p2 = diff_matrix_permutation(t2, ax)
                        D2 = [m[q][:, q] for m in (D[0], D[ax])]
                        B.close("permuted first matrix, reordered nodes", D2[0][p2][:, p2],
                                D2[1], 1e-8, 1e-8, space=repr(sp), axis=ax, nodes=nm)

# }}}
