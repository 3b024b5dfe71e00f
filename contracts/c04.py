"""C04: modes, identifiers, gradients and node tuples correspond one to one."""
from itertools import product
from math import comb

import numpy as np

from pyvc import terms as T
from pyvc.sym import SSeq, SArr, lift, wrap, new_array, snapshot, F8
from .base import Check
from .c05 import abstract_basis, dig, horner, stub_gnitb, _len, tp_zoo

CHECK = Check(
    "C04", level="proof",
    trusted=["pytools.generate_nonnegative_integer_tuples_summing_to_at_most(n, d) enumerates "
             "the comb(n+d, d) tuples of length d and sum <= n, each once; "
             "generate_nonnegative_integer_tuples_below enumerates all tuples below the bounds, "
             "last entry fastest (battery-checked)",
             "the basis polynomials named by distinct identifiers are independent (C02: "
             "orthonormal family; monomials)"],
    assumptions=["number of tensor factors enumerated (<= 4); orders and factor sizes arbitrary"])

GNITSAM = "generate_nonnegative_integer_tuples_summing_to_at_most"
GNITB = "generate_nonnegative_integer_tuples_below"


def stub_gnitsam(v, N, d, n):
    def gn(a, b):
        v.prove_eq("tuples of sum at most the order", a, N)
        v.prove_eq("tuples of the dimension's length", b, d)
        return SSeq(lift(n), lambda q: tuple(
            wrap(T.app(f"mode{k}", lift(q), sort="I")) for k in range(d)))
    return gn


def the_mode(q, d):
    return [T.app(f"mode{k}", lift(q), sort="I") for k in range(d)]


def _simplex(cls, d):
    def h(v, W):
        modes = W.modules["modepy.modes"]
        n = v.int("n", lo=1)
        N = v.int("N", lo=0)
        q = v.int("q", lo=0)
        v.assume(q < n)
        W.pytools[GNITSAM] = stub_gnitsam(v, N, d, n)

        def pk(name):
            return lambda order, rst, *a: wrap(T.app(name, *[lift(x) for x in order]))
        val = {"_SimplexONB": ["_pkdo_1d", "pkdo_2d", "pkdo_3d"],
               "_SimplexMonomialBasis": ["monomial"]}[cls]
        grd = {"_SimplexONB": ["_grad_pkdo_1d", "grad_pkdo_2d", "grad_pkdo_3d"],
               "_SimplexMonomialBasis": ["grad_monomial"]}[cls]
        for nm in val:
            W.patch(f"modepy.modes.{nm}", pk("VAL"))
        for nm in grd:
            W.patch(f"modepy.modes.{nm}", pk("GRAD"))
        dd = {}
        W.patch("modepy.modes.diff_monomial", lambda order, axis, r: wrap(
            T.app("DIFF", lift(axis), *[lift(x) for x in order])))
        b = getattr(modes, cls)(d, N)
        x = v.array("x", (d,))
        ids, fs, gs = b.mode_ids, b.functions, b.gradients
        for nm, s in [("identifiers", ids), ("functions", fs), ("gradients", gs)]:
            v.prove_eq(f"number of {nm}", wrap(lift(_len(s))), n)
        mid = ids[q]
        v.prove("identifier of the dimension's length", T.TRUE if len(mid) == d else T.FALSE)
        for k in range(d):
            v.prove_eq(f"entry {k} of identifier q", mid[k], wrap(the_mode(q, d)[k]))
        v.prove_eq("function q is of mode q", fs[q](x), wrap(T.app("VAL", *the_mode(q, d))))
        v.prove_eq("gradient q is of mode q", gs[q](x), wrap(T.app("GRAD", *the_mode(q, d))))
        if cls == "_SimplexMonomialBasis":
            for ax in range(d):
                ds = b.derivatives(ax)
                v.prove_eq("number of derivatives", wrap(lift(_len(ds))), n)
                v.prove_eq("derivative q is of mode q", ds[q](x), wrap(
                    T.app("DIFF", T.num(ax), *the_mode(q, d))))
        v.cover("end")
        del dd
    return h


for _c, _ds in [("_SimplexONB", (1, 2, 3)), ("_SimplexMonomialBasis", (1, 2, 3, 4, 5))]:
    for _d in _ds:
        CHECK.vc(f"{_c} {_d}d: identifiers, functions and gradients correspond", functions=[
            f"modepy.modes.{_c}.functions", f"modepy.modes.{_c}.gradients",
            "modepy.modes.SimplexBasis.mode_ids"], uses=["pytools." + GNITSAM])(
                _simplex(_c, _d))


def _pn(d):
    def h(v, W):
        sp, nd = W.modules["modepy.spaces"], W.modules["modepy.nodes"]
        n = v.int("n", lo=1)
        N = v.int("N", lo=0)
        W.pytools[GNITSAM] = stub_gnitsam(v, N, d, n)
        space = sp.PN(d, N)
        # binomial(N + d, d), the number of tuples
        want = T.ONE
        for k in range(1, d + 1):
            want = T.div(T.mul(want, T.add(lift(N), T.num(k))), T.num(k))
        v.prove_eq("dimension of the space", space.space_dim, wrap(want))
        v.prove_eq("order", space.order, N)
        v.prove_eq("spatial dimension", space.spatial_dim, d)
        t = nd.node_tuples_for_space(space)
        v.prove_eq("number of node tuples", wrap(lift(_len(t))), n)
        q = v.int("q", lo=0)
        v.assume(q < n)
        for k in range(d):
            v.prove_eq(f"entry {k} of node tuple q", t[q][k], wrap(the_mode(q, d)[k]))
        v.cover("end")
    return h


for _d in (1, 2, 3, 4):
    CHECK.vc(f"PN({_d}, N): dimension and node tuples", functions=[
        "modepy.spaces.PN.space_dim", "modepy.nodes.node_tuples_for_space",
        "modepy.nodes._node_tuples_for_pn"], uses=["pytools." + GNITSAM])(_pn(_d))


def fresh_sizes(v, k):
    ns = [v.int(f"n{b}", lo=1, sample=lambda r: r.randint(1, 3)) for b in range(k)]
    tot = T.ONE
    for n in ns:
        tot = T.mul(tot, lift(n))
    q = v.int("q", lo=0, sample=lambda r: 0)
    v.assume(q < wrap(tot))
    return ns, tot, q


def _tpids(kinds):
    """kinds: per factor, the length of its identifiers (None: opaque, not a tuple)"""
    def h(v, W):
        modes = W.modules["modepy.modes"]
        k = len(kinds)
        ns, tot, q = fresh_sizes(v, k)
        W.pytools[GNITB] = stub_gnitb(v, ns)

        def ids(b, i):
            if kinds[b] is None:
                return wrap(T.app(f"id{b}", lift(i), sort="R"))
            return tuple(wrap(T.app(f"id{b}_{c}", lift(i), sort="I")) for c in range(kinds[b]))
        bases = [abstract_basis(v, modes, b, ns[b], lambda i: None,
                                ids=SSeq(lift(ns[b]), lambda i, b=b: ids(b, i), tuple))
                 for b in range(k)]
        tp = modes.TensorProductBasis(bases, dims_per_basis=tuple(
            1 if d is None else d for d in kinds))
        mids = tp.mode_ids
        v.prove_eq("number of identifiers", wrap(lift(_len(mids))), wrap(tot))
        mid = mids[q]
        v.prove("one entry per factor", T.TRUE if isinstance(mid, tuple) and len(mid) == k
                else T.FALSE)
        for b in range(k):
            want = ids(b, dig(b, q))
            if kinds[b] == 1:
                v.prove_eq(f"entry {b} is the degree along the axis", mid[b], want[0])
            elif kinds[b] is None:
                v.prove_eq(f"entry {b} is the factor's identifier", mid[b], want)
            else:
                v.prove(f"entry {b} is the factor's identifier", T.TRUE
                        if isinstance(mid[b], tuple) and len(mid[b]) == kinds[b] else T.FALSE)
                for c in range(kinds[b]):
                    v.prove_eq(f"entry {b}.{c}", mid[b][c], want[c])
        mi = tp._mode_index_tuples[q]
        for b in range(k):
            v.prove_eq(f"index {b} of mode q", mi[b], wrap(dig(b, q)))
        v.prove_eq("first axis fastest", wrap(horner(list(mi), ns)), q)
        v.cover("end")
    return h


for _ks in [(1,), (2,), (1, 1), (2, 1), (1, 2), (None, 1), (1, 1, 1), (2, 1, 1), (1, None, 2),
            (3, 1), (1, 1, 1, 1)]:
    CHECK.vc(f"tensor product identifiers, factor identifiers of length {_ks}", functions=[
        "modepy.modes.TensorProductBasis.mode_ids",
        "modepy.modes.TensorProductBasis._mode_index_tuples"], uses=["pytools." + GNITB])(
            _tpids(_ks))


def _tptuples(lens):
    def h(v, W):
        nd, sp = W.modules["modepy.nodes"], W.modules["modepy.spaces"]
        k = len(lens)
        ns, tot, q = fresh_sizes(v, k)
        W.pytools[GNITB] = stub_gnitb(v, ns)

        class Factor(sp.FunctionSpace):
            def __init__(self, b):
                self.b = b

            @property
            def spatial_dim(self):
                return lens[self.b]

            @property
            def space_dim(self):
                return ns[self.b]
        real = nd.node_tuples_for_space.dispatch(sp.TensorProductSpace)

        def tups(b, i):
            return tuple(wrap(T.app(f"nt{b}_{c}", lift(i), sort="I")) for c in range(lens[b]))
        W.patch("modepy.nodes.node_tuples_for_space",
                lambda s: SSeq(lift(ns[s.b]), lambda i: tups(s.b, i), tuple))
        space = sp.TensorProductSpace(tuple(Factor(b) for b in range(k)))
        t = real(space)
        v.prove_eq("as many node tuples as the dimension", wrap(lift(_len(t))),
                   space.space_dim)
        v.prove_eq("dimension of the product", space.space_dim, wrap(tot))
        v.prove_eq("spatial dimension of the product", space.spatial_dim, sum(lens))
        want = [x for b in range(k) for x in tups(b, dig(b, q))]
        v.prove("tuple of the dimension's length", T.TRUE if len(t[q]) == len(want)
                else T.FALSE)
        if not k:
            v.cover("end")
            return
        for c, w in enumerate(want):
            v.prove_eq(f"entry {c}: factors' tuples in order, first factor fastest", t[q][c], w)
        v.cover("end")
    return h


for _ls in [(1, 1), (2, 1), (1, 2), (1, 1, 1), (1, 3), (2, 1, 2), (1, 1, 1, 1)]:
    CHECK.vc(f"node tuples of tensor products, factors of dimension {_ls}", functions=[
        "modepy.nodes._node_tuples_for_tp", "modepy.spaces.TensorProductSpace.space_dim",
        "modepy.spaces.TensorProductSpace.spatial_dim"], uses=["pytools." + GNITB])(
            _tptuples(_ls))


def _tpnodes(ds, flat=()):
    """flat: factors given as one-dimensional arrays"""
    def h(v, W):
        nd = W.modules["modepy.nodes"]
        k = len(ds)
        ns = [v.int(f"n{b}", lo=1, sample=lambda r: r.randint(1, 3)) for b in range(k)]
        xs = [v.array(f"x{b}", (ns[b],) if b in flat else (ds[b], ns[b])) for b in range(k)]
        rds = [snapshot(x) for x in xs]
        r = nd.tensor_product_nodes(xs)
        tot = T.ONE
        for n in ns:
            tot = T.mul(tot, lift(n))
        v.prove_eq("number of rows", r.shape[0], sum(ds))
        v.prove_eq("number of nodes", r.shape[1], wrap(tot))
        ii = [v.int(f"i{b}", lo=0, sample=lambda r: 0) for b in range(k)]
        for i, n in zip(ii, ns):
            v.assume(i < n)
        q = wrap(horner(ii, ns))
        o = 0
        for b in range(k):
            for c in range(ds[b]):
                v.prove_eq(f"coordinate {o} of node (i1, ..., ik)", r[o, q], wrap(
                    rds[b]((lift(ii[b]),) if b in flat else (T.num(c), lift(ii[b])))))
                o += 1
        for b in range(k):
            v.prove_array(f"factor {b} unmodified", xs[b],
                          (ns[b],) if b in flat else (ds[b], ns[b]),
                          lambda *i, b=b: wrap(rds[b](tuple(lift(z) for z in i))))
        v.cover("end")
    return h


for _ds, _fl in [((1, 1), ()), ((1, 1), (0, 1)), ((2, 1), ()), ((1, 2), ()), ((1, 1, 1), ()),
                 ((1, 1, 1), (0, 1, 2)), ((1, 3), ()), ((1, 2, 1), (0,)), ((1,), (0,)),
                 ((1, 1, 1, 1), ())]:
    CHECK.vc(f"tensor_product_nodes, dimensions {_ds}, flat {_fl}",
             functions=["modepy.nodes.tensor_product_nodes"])(_tpnodes(_ds, _fl))


def _tpnodes_int(dims):
    def h(v, W):
        nd = W.modules["modepy.nodes"]
        n = v.int("n", lo=1, sample=lambda r: r.randint(1, 3))
        x = v.array("x", (n,))
        rd = snapshot(x)
        r = nd.tensor_product_nodes(dims, x)
        v.prove_eq("number of rows", r.shape[0], dims)
        v.prove_eq("number of nodes", r.shape[1], n**dims)
        ii = [v.int(f"i{b}", lo=0, sample=lambda r: 0) for b in range(dims)]
        for i in ii:
            v.assume(i < n)
        q = wrap(horner(ii, [n] * dims))
        for b in range(dims):
            v.prove_eq(f"coordinate {b}", r[b, q], wrap(rd((lift(ii[b]),))))
        v.cover("end")
    return h


for _k in (1, 2, 3, 4):
    CHECK.vc(f"tensor_product_nodes({_k}, nodes)",
             functions=["modepy.nodes.tensor_product_nodes"])(_tpnodes_int(_k))


def _dims(ds, order):
    """equispaced / edge-clustered nodes of a tensor product follow the node tuples"""


# {{{ battery

def zoo(thorough):
    from modepy.shapes import Hypercube, Simplex, TensorProductShape
    from modepy.spaces import PN, QN, TensorProductSpace
    out = []
    for d in (1, 2, 3):
        for o in range(0, (7 if thorough else 5) if d < 3 else 4):
            out.append((f"PN({d},{o})", PN(d, o), Simplex(d), (d,), (o,)))
            if d > 1:
                out.append((f"QN({d},{o})", QN(d, o), Hypercube(d), (1,) * d, (o,) * d))
    for os_ in [(1, 2), (2, 1), (0, 3), (3, 0), (1, 2, 3), (3, 2, 1), (2, 0, 1), (0, 0),
                (1, 0, 2, 1), (4, 1)]:
        out.append((f"TP{os_}", TensorProductSpace(tuple(PN(1, o) for o in os_)),
                    TensorProductShape((Simplex(1),) * len(os_)), (1,) * len(os_), os_))
    for ds, os_ in [((2, 1), (2, 1)), ((2, 1), (1, 3)), ((1, 2), (3, 1)), ((1, 2), (0, 2)),
                    ((1, 3), (2, 1)), ((3, 1), (1, 2)), ((1, 2, 1), (2, 1, 3))]:
        out.append((f"TP{ds}{os_}", TensorProductSpace(tuple(PN(d, o) for d, o in
                                                             zip(ds, os_))),
                    TensorProductShape(tuple(Simplex(d) for d in ds)), ds, os_))
    return out


def simplex_points(rng, d, n):
    r = rng.dirichlet(np.ones(d + 1), n).T[:d]
    return 2 * r - 1


@CHECK.battery("correspondence", functions=["modepy.modes", "modepy.spaces"])
def _(B):
    from modepy.modes import (
        BasisNotOrthonormal, basis_for_space, monomial_basis_for_space,
        orthonormal_basis_for_space,
    )
    from modepy.nodes import node_tuples_for_space
    for name, sp, sh, ds, os_ in zoo(B.thorough):
        want = int(np.prod([comb(o + d, d) for d, o in zip(ds, os_)]))
        B.equal("space dimension", sp.space_dim, want, space=name)
        B.equal("spatial dimension", sp.spatial_dim, sum(ds), space=name)
        nt = node_tuples_for_space(sp)
        B.equal("number of node tuples", len(nt), want, space=name)
        B.equal("node tuples distinct", len(set(nt)), want, space=name)
        fac = [[t for t in product(range(o + 1), repeat=d) if sum(t) <= o]
               for d, o in zip(ds, os_)]
        B.equal("node tuples are those of the space", set(nt),
                {sum(t, ()) for t in product(*fac)}, space=name)
        if len(ds) > 1:
            fn = [list(node_tuples_for_space(type(sp.bases[i])(d, o)))
                  for i, (d, o) in enumerate(zip(ds, os_))]
            B.equal("node tuples, first factor fastest", list(nt),
                    [sum(t[::-1], ()) for t in product(*fn[::-1])], space=name)
        x = np.vstack([simplex_points(B.nprng, d, 4 * want + 5) for d in ds])
        for kind, f in [("basis", basis_for_space), ("orth", orthonormal_basis_for_space),
                        ("mono", monomial_basis_for_space)]:
            b = f(sp, sh)
            inp = dict(space=name, kind=kind)
            ids, fs, gs = b.mode_ids, b.functions, b.gradients
            B.equal("number of identifiers", len(ids), want, **inp)
            B.equal("number of functions", len(fs), want, **inp)
            B.equal("number of gradients", len(gs), want, **inp)
            B.equal("identifiers distinct", len(set(ids)), want, **inp)
            one = [d == 1 for d in ds]
            flat = []
            for mid in ids:
                if len(ds) == 1:
                    flat.append(mid)
                else:
                    t = ()
                    for e, o1 in zip(mid, one):
                        t += (e,) if o1 else tuple(e)
                    flat.append(t)
            B.equal("identifiers are the degrees", sorted(flat), sorted(
                sum(t, ()) for t in product(*fac)), **inp)
            V = np.array([g(x) for g in fs]).T
            sv = np.linalg.svd(V / np.abs(V).max(axis=0), compute_uv=False)
            B.ok("functions independent", sv[-1] > 1e-8 * sv[0], **inp)
            # every function lies in the space: fits exactly in the monomials of the space
            M = np.array([np.prod([x[k]**t[k] for k in range(len(t))], axis=0)
                          for t in flat]).T
            c, *_ = np.linalg.lstsq(M, V, rcond=None)
            B.ok("functions lie in the space", np.abs(M @ c - V).max() <= 1e-7 * max(
                1, np.abs(V).max()), **inp)
            if kind == "mono":
                B.close("function q is the monomial of identifier q", V, M, **inp)
            else:
                # the degree along each axis is the identifier's: highest coefficient
                for q, t in enumerate(flat):
                    cq = c[:, q]
                    big = {flat[p] for p in range(want) if abs(cq[p]) > 1e-5 * np.abs(cq).max()}
                    o = 0
                    for d, _ in zip(ds, os_):
                        deg = max(sum(m[o:o + d]) for m in big)
                        B.equal("degree of function q in each factor", deg, sum(t[o:o + d]),
                                mode=t, **inp)
                        o += d
            for q in range(want):
                h = 1e-6
                g = gs[q](x[:, :3])
                B.equal("one component per axis", len(g), sum(ds), mode=flat[q], **inp)
                for ax in range(sum(ds)):
                    e = np.zeros((sum(ds), 1))
                    e[ax] = h
                    fd = (fs[q](x[:, :3] + e) - fs[q](x[:, :3] - e)) / (2 * h)
                    B.close("gradient q differentiates function q", g[ax], fd, 1e-4, 1e-4,
                            mode=flat[q], axis=ax, **inp)


@CHECK.battery("tensor product nodes", functions=["modepy.nodes.tensor_product_nodes"])
def _(B):
    from modepy.nodes import tensor_product_nodes
    for sizes in [(2, 3), (3, 2), (1, 4), (4, 1), (2, 3, 4), (4, 3, 2), (2, 1, 3), (2, 2, 2),
                  (1, 2, 3, 2), (3,), (5, 2)]:
        for ds in {(1,) * len(sizes), (2,) + (1,) * (len(sizes) - 1),
                   (1,) * (len(sizes) - 1) + (2,), (3,) + (1,) * (len(sizes) - 1)}:
            sets = [B.nprng.uniform(-1, 1, (d, n)) for d, n in zip(ds, sizes)]
            want = np.array([np.concatenate([s[:, i] for s, i in zip(sets, mi[::-1])])
                             for mi in product(*[range(n) for n in sizes[::-1]])]).T
            B.close("nodes", tensor_product_nodes(sets), want, 0, 0, sizes=sizes, dims=ds)
            if all(d == 1 for d in ds):
                B.close("nodes from flat arrays", tensor_product_nodes([s[0] for s in sets]),
                        want, 0, 0, sizes=sizes)
    for dims in range(1, 5):
        for n in range(1, 4):
            x = B.nprng.uniform(-1, 1, n)
            want = np.array([x[list(mi[::-1])] for mi in product(range(n), repeat=dims)]).T
            B.close("nodes of equal factors", tensor_product_nodes(dims, x), want, 0, 0,
                    dims=dims, n=n)
    # factors of different types: no coordinate is truncated or rounded
    for dts in [(int, float), (float, int), (int, int, float), (np.float32, float),
                (int, np.float32), (np.int32, float, int)]:
        for flat in (False, True):
            sets = [np.array([-1, 0, 1], dtype=dt) if np.dtype(dt).kind == "i" else
                    B.nprng.uniform(-1, 1, 2 + k).astype(dt) for k, dt in enumerate(dts)]
            want = np.array([[float(s[i]) for s, i in zip(sets, mi[::-1])]
                             for mi in product(*[range(len(s)) for s in sets[::-1]])]).T
            okc, got = B.call("nodes of different types", lambda: tensor_product_nodes(
                sets if flat else [s.reshape(1, -1) for s in sets]), types=[
                    np.dtype(t).name for t in dts], flat=flat)
            if okc:
                B.close("nodes of different types", got, want, 0, 0, types=[
                    np.dtype(t).name for t in dts], flat=flat)
    B.equal("no factors", tensor_product_nodes([]).shape, (0, 1))


@CHECK.battery("enumerations of pytools", functions=["pytools"])
def _(B):
    from pytools import (
        generate_nonnegative_integer_tuples_below as gnitb,
        generate_nonnegative_integer_tuples_summing_to_at_most as gnitsam,
    )
    for d in range(0, 6):
        for n in range(0, 7):
            t = list(gnitsam(n, d))
            B.ok("gnitsam", len(t) == comb(n + d, d) and sorted(t) == sorted(
                m for m in product(range(n + 1), repeat=d) if sum(m) <= n)
                and len(set(t)) == len(t), n=n, d=d)
    for bs in [(), (1,), (3,), (2, 3), (3, 2), (0, 2), (2, 3, 4), (1, 1, 2)]:
        B.equal("gnitb", [tuple(t) for t in gnitb(list(bs))],
                list(product(*[range(b) for b in bs])), bounds=bs)

# }}}
