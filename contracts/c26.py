"""C26: estimate of the Lebesgue constant."""
import numpy as np

from pyvc import terms as T
from pyvc.sym import SSeq, lift, wrap, new_array, snapshot, F8
from .base import Check
from .linear import Fns, vdm_stub

CHECK = Check(
    "C26", level="proof",
    trusted=["numpy.linalg.solve/inv by contract: inv(A) is the two-sided inverse, solve(A, B) = "
             "inv(A) B",
             "vandermonde by contract (C07), node tuples by contract (C04, C16)",
             "the rows of (values of a basis at the points) times the inverse Vandermonde matrix "
             "are the Lagrange basis functions at the points, for every basis of the space"],
    assumptions=["'unisolvent' means the Vandermonde matrix on the nodes is invertible",
                 "shapes: simplices, hypercubes and prisms up to dimension 4; orders, nodes and "
                 "their number are arbitrary",
                 "floating point is treated as real arithmetic"])

TO = "modepy.tools."


def _shape(sh, key):
    fs = tuple(sh.Simplex(d) for d in key)
    return fs[0] if len(fs) == 1 else sh.Hypercube(len(fs)) if set(key) == {1} else \
        sh.TensorProductShape(fs)


def _estimate(key):
    d = sum(key)

    def h(v, W):
        to, sh = W.modules["modepy.tools"], W.modules["modepy.shapes"]
        mp = W.modules["modepy"]
        shape = _shape(sh, key)
        n = v.int("n", lo=0, sample=lambda r: r.randint(0, 3))
        m = v.int("m", lo=1, sample=lambda r: r.randint(1, 3))
        x = v.array("x", (d, m))
        rx = snapshot(x)
        F = Fns("F", m, d)
        asked = []

        def space_for(s, order):
            v.prove("space for the shape", T.TRUE if s == shape else T.FALSE)
            asked.append(order)
            return ("space", lift(order))

        def basis_for(space, s):
            v.prove("basis for the shape", T.TRUE if s == shape else T.FALSE)
            v.prove_eq("basis of the order", wrap(space[1]), n)

            class B:
                functions = F
            return B()

        def tuples_for(space):
            # tuples on a grid of this order
            g = wrap(space[1])
            v.prove("the grid is at least ten (2D: thirty) times finer than the order", wrap(
                T.and_(T.lt(T.ZERO, lift(g)),
                       T.le(T.mul(T.num(30 if d == 2 else 10), lift(n)), lift(g)))))
            grid.append(g)
            k = T.app("count", lift(g), sort="I")
            v.assume(wrap(T.le(T.ONE, k)))
            return SSeq(k, lambda q: tuple(wrap(T.app(f"tup{c}", lift(q), sort="I"))
                                           for c in range(d)), tuple)
        grid = []
        for nm in ("basis_for_space", "orthonormal_basis_for_space", "monomial_basis_for_space"):
            W.patch("modepy.modes." + nm, basis_for)
        W.patch("modepy.spaces.space_for_shape", space_for)
        W.patch("modepy.nodes.node_tuples_for_space", tuples_for)
        W.patch("modepy.matrices.vandermonde", vdm_stub)
        r = to.estimate_lebesgue_constant(n, x, shape)
        g = lift(grid[0])
        k = T.app("count", g, sort="I")
        # a grid of the order divides every edge of the element into that many parts
        y = new_array((d, wrap(k)), lambda i: T.sub(T.div(T.mul(T.num(2), _pick(
            [T.app(f"tup{c}", i[1], sort="I") for c in range(d)], i[0])), g), T.ONE), F8)
        np_, la = W.np, W.la
        lag = vdm_stub(F, y) @ la.inv(vdm_stub(F, new_array((d, m), lambda i: rx(i), F8)))
        want = np_.max(np_.sum(np_.abs(lag), axis=1))
        v.prove_eq("largest sum of absolute Lagrange basis functions on the grid", r, want)
        v.prove_array("nodes unchanged", x, (d, m), lambda i, j: wrap(rx((lift(i), lift(j)))))
        v.cover("end")
    return h


def _pick(xs, i):
    r = xs[-1]
    for c in range(len(xs) - 2, -1, -1):
        r = T.ite(T.eq(i, T.num(c)), xs[c], r)
    return r


for _key in [(1,), (2,), (3,), (1, 1), (1, 1, 1), (2, 1), (1, 2), (3, 1), (1, 2, 1)]:
    CHECK.vc(f"estimate on {'x'.join(map(str, _key))}", functions=[
        TO + "estimate_lebesgue_constant", TO + "_evaluate_lebesgue_function"],
        uses=["modepy.matrices.vandermonde", "modepy.nodes.node_tuples_for_space",
              "modepy.modes.basis_for_space"])(_estimate(_key))


@CHECK.vc("nodes of another dimension", functions=[TO + "estimate_lebesgue_constant"])
def _(v, W):
    to, sh = W.modules["modepy.tools"], W.modules["modepy.shapes"]
    n = v.int("n", lo=0)
    m = v.int("m", lo=1)
    for key in [(1,), (2,), (3,), (1, 1), (2, 1)]:
        for d in range(1, 5):
            if d == sum(key):
                continue
            try:
                to.estimate_lebesgue_constant(n, v.array(f"x{d}", (d, m)), _shape(sh, key))
            except ValueError:
                v.ok("rejected")
            else:
                v.fail("rejected")
    v.cover("end")


@CHECK.battery("Lebesgue constants", functions=[
    TO + "estimate_lebesgue_constant", TO + "_evaluate_lebesgue_function"], timeout=400)
def _(B):
    import modepy as mp
    import modepy.shapes as sh
    from modepy.tools import estimate_lebesgue_constant as est
    rng = B.nprng
    cases = [((1,), range(0, 13)), ((2,), range(0, 8)), ((3,), range(0, 5)), ((1, 1), range(0, 6)),
             ((1, 1, 1), range(0, 3)), ((2, 1), range(0, 4)), ((1, 2), range(0, 3))]
    for key, orders in cases:
        shape = _shape(sh, key)
        for n in orders:
            inp = dict(shape=str(shape), order=n)
            space = mp.space_for_shape(shape, n)
            sets = {"clustered": mp.edge_clustered_nodes_for_space(space, shape),
                    "equispaced": mp.equispaced_nodes_for_space(space, shape)}
            if n < 4:
                sets["perturbed"] = sets["clustered"] * .9 + rng.uniform(
                    -.03, .03, sets["clustered"].shape) / (n + 1)
            for nm, x in sets.items():
                keep = x.copy()
                ok, c = B.call("estimate", lambda: est(n, x, shape), nodes=nm, **inp)
                if not ok:
                    continue
                B.ok("nodes unchanged", np.array_equal(keep, x), nodes=nm, **inp)
                B.ok("a number not below one", isinstance(c, float) and c >= 1 - 1e-9,
                     info=str(c), nodes=nm, **inp)
                if n == 0:
                    B.close("order zero", c, 1, 0, 1e-12, nodes=nm, **inp)
                # independently, on the grid of the property: thirty times the order in two
                # dimensions, ten times otherwise
                fac = 30 if sum(key) == 2 else 10
                lam = _lebesgue(key, n, x, mp.equispaced_nodes_for_space(
                    mp.space_for_shape(shape, fac * max(n, 1)), shape))
                B.close("largest value on the grid", c, lam.max(), 1e-8, 1e-8, nodes=nm, **inp)
                p = rng.permutation(x.shape[1])
                ok, c2 = B.call("renumbered", lambda: est(n, x[:, p], shape), nodes=nm, **inp)
                if ok:
                    B.close("independent of the numbering", c2, c, 1e-7, 1e-9, nodes=nm, **inp)
    for n in range(1, 6):
        x = np.linspace(-1, 1, n + 1).reshape(1, -1)
        g = np.linspace(-1, 1, 10 * n + 1)
        L = np.array([np.prod([(g - x[0, j]) / (x[0, i] - x[0, j]) for j in range(n + 1)
                               if j != i], axis=0) for i in range(n + 1)])
        B.close("Lagrange polynomials", est(n, x, sh.Simplex(1)), np.abs(L).sum(axis=0).max(),
                1e-10, 1e-10, order=n)
    B.raises("dimension", ValueError, lambda: est(2, np.zeros((1, 6)), sh.Simplex(2)))
    B.raises("dimension", ValueError, lambda: est(2, np.zeros((3, 9)), sh.Hypercube(2)))


def _lebesgue(key, n, x, pts):
    """sum of the absolute Lagrange basis functions, from Chebyshev products"""
    from itertools import product as prod
    blocks, at = [], 0
    for d in key:
        blocks.append([e for e in prod(range(n + 1), repeat=d) if sum(e) <= n])
        at += d
    ids = [sum(c, ()) for c in prod(*blocks)]

    def tab(y):
        ch = [[np.polynomial.chebyshev.chebval(y[a], [0] * k + [1]) for k in range(n + 1)]
              for a in range(len(y))]
        return np.array([np.prod([ch[a][e] for a, e in enumerate(i)], axis=0) for i in ids]).T
    L = np.linalg.solve(tab(x).T, tab(pts).T)
    return np.abs(L).sum(axis=0)
