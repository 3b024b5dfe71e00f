"""C17: submeshes."""
from fractions import Fraction
from itertools import combinations, product

import numpy as np

from pyvc import norm, terms as T
from pyvc.runtime import SDict
from pyvc.sym import PList, SSeq, Unsupported, lift, wrap
from .base import Check

CHECK = Check(
    "C17", level="proof",
    trusted=["pytools.add_tuples, pytools.single_valued",
             "the unit cells of the integer lattice tile space, and the planes sum(x) = k cut "
             "each of them into slabs (elementary geometry: turns the per-cell obligations into "
             "a partition of the element)"],
    assumptions=["node tuples are those of the shape's space at any order, each once, in any "
                 "sequence", "simplices up to dimension 3 (others raise NotImplementedError), "
                 "products of up to four factors"])

SH = "modepy.shapes."
SS, SHC = SH + "submesh_for_simplex", SH + "submesh_for_hypercube"


# {{{ exact geometry of small simplices

def det(m):
    n = len(m)
    if n == 0:
        return 1
    return sum((-1)**j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(n))


def vol(s):
    """signed volume times d!"""
    return det([[a - b for a, b in zip(x, s[0])] for x in s[1:]])


def _nullvec(rows, d):
    """a normal of d-1 vectors (generalised cross product)"""
    return [(-1)**j * det([list(r[:j]) + list(r[j + 1:]) for r in rows]) for j in range(d)]


def apart(a, b):
    """disjoint interiors, by a separating hyperplane"""
    d = len(a[0])
    if d == 0:
        return False
    edges = [tuple(x - y for x, y in zip(p, q)) for s in (a, b) for p, q in combinations(s, 2)]
    for rows in combinations(edges, d - 1):
        n = _nullvec(rows, d)
        if not any(n):
            continue
        pa = [sum(x * y for x, y in zip(n, p)) for p in a]
        pb = [sum(x * y for x, y in zip(n, p)) for p in b]
        if max(pa) <= min(pb) or max(pb) <= min(pa):
            return True
    return False


def slab(d, r):
    """d! times the volume of the unit cell below the plane sum(x) = r"""
    from math import comb, factorial
    return sum((-1)**k * comb(d, k) * (r - k)**d for k in range(min(r, d) + 1)) \
        if r < d else factorial(d)

# }}}


def _pair(el, ds):
    """an element as a product of simplices (its vertices with the first factor fastest)"""
    parts, o, stride = [], 0, 1
    for d in ds:
        parts.append([el[k * stride][o:o + d] for k in range(d + 1)]
                     if len(el) > d * stride else None)
        o += d
        stride *= d + 1
    if None in parts or stride != len(el):
        return None
    for k, w in enumerate(el):
        t = ()
        for d, p in zip(ds, parts):
            t += tuple(p[k % (d + 1)])
            k //= d + 1
        if t != tuple(w):
            return None
    return parts


def _local(v, ds, rs, els):
    """els: the elements put into one unit cell, as tuples of offsets from its lowest corner;
    rs: how far the plane of each factor is"""
    d = sum(ds)
    prods = []
    ok = True
    for e in els:
        p = _pair(e, ds)
        good = p is not None and all(len(w) == d for w in e)
        v.prove("vertices of a product of simplices, in the reference order",
                T.TRUE if good else T.FALSE)
        ok = ok and good
        prods.append(p)
    if not ok:
        return
    for e in els:
        v.prove("inside the cell and the element", T.TRUE if all(
            c in (0, 1) for w in e for c in w) and all(
                sum(w[sum(ds[:k]):sum(ds[:k + 1])]) <= r for w in e for k, r in enumerate(rs))
            else T.FALSE)
    vols = [np.prod([vol(s) for s in p], dtype=int) for p in prods]
    v.prove("positively oriented, equal volumes", T.TRUE if all(
        vol(s) == 1 for p in prods for s in p) else T.FALSE)
    want = 1
    for k, r in zip(ds, rs):
        want *= slab(k, r)
    v.prove("volumes add up to that of the cell within the element", T.TRUE if sum(vols) == want
            else T.FALSE)
    v.prove("no overlap", T.TRUE if all(any(
        d and apart(x, y) for d, x, y in zip(ds, a, b)) for a, b in combinations(prods, 2))
        else T.FALSE)
    if all(r >= 1 for r in rs):
        used = {tuple(w) for e in els for w in e}
        for combo in product(*[[(0,) * k] + [tuple(int(i == j) for i in range(k))
                                             for j in range(k)] for k in ds]):
            v.prove("the corners next to the lowest one are used", T.TRUE if sum(combo, ()) in used
                    else T.FALSE)


def _harness(kind, ds, mixed=False):
    dim = sum(ds)
    hits = []       # iterations are explored before the code after the loop

    def h(v, W):
        sh = W.modules["modepy.shapes"]
        n = v.int("n", lo=1)
        Ns = [v.int(f"N{k}" if mixed else "N", lo=1, sample=lambda r: r.randint(1, 3))
              for k in range(len(ds) if mixed else 1)]
        N_of = [lift(Ns[k if mixed else 0]) for k in range(len(ds))]
        tup = lambda q: [T.app(f"t{k}", lift(q), sort="I") for k in range(dim)]   # noqa: E731

        def member(t):
            cs, o = [], 0
            for d, N in zip(ds, N_of):
                p = t[o:o + d]
                cs += [*[T.le(T.ZERO, x) for x in p], T.le(T.add(T.ZERO, *p), N)]
                o += d
            return T.and_(*cs)
        for k in range(dim):
            v.axiom(f"t{k}", lambda q: [T.or_(T.lt(q, T.ZERO), T.le(lift(n), q), member(tup(q)))])
        nodes = SSeq(lift(n), lambda q: tuple(wrap(x) for x in tup(q)), tuple)

        def sv(it, *a):
            if isinstance(it, SSeq):
                x = it.get(T.fresh("s", "I"))
                if isinstance(x, int):
                    return x
                raise Unsupported("single_valued")
            xs = list(it)
            if any(x != xs[0] for x in xs):
                raise ValueError("single_valued")
            return xs[0]
        W.pytools["single_valued"] = sv
        checked = []

        def rule(dic, key):
            if not isinstance(key, tuple) or len(key) != dim:
                raise Unsupported("key of another kind")
            if dic not in checked:
                checked.append(dic)
                q = T.fresh("q", "I")
                v.samplers[q] = lambda r: 0
                k, val = dic.elt(dic.seq.get(q))
                v.prove("keys are the node tuples", wrap(T.and_(*[
                    T.eq(lift(a), b) for a, b in zip(k, tup(q))])))
                v.prove_eq("values are their positions", val, wrap(q))
                v.prove_eq("all of them", wrap(dic.seq.n), n)
            m = member([lift(x) for x in key])
            for c in m.args if m.op == "and" else (m,):
                if not v.decide(c):
                    raise KeyError(key)
            return wrap(T.app("IDX", *[lift(x) for x in key], sort="I"))
        v.dict_rule = rule
        seen = []

        def step(v, loop, env, objs):
            lists = {k: x for k, x in objs.items() if isinstance(x[0], PList)}
            if len(lists) > 1 or len(objs) != len(lists):
                raise Unsupported("more than the list of elements changes")
            if loop.seq.n is not lift(n):
                raise Unsupported("not a loop over the nodes")
            cur = tup(loop.K)
            els = []
            for (o, a, b) in lists.values():
                seen.append(id(o))
                m = norm.canon(T.sub(b.n, a.n))
                if m.op != "num":
                    raise Unsupported("number of new elements unknown")
                for j in range(int(m.args[0])):
                    el = []
                    for x in b.get(T.add(a.n, T.num(j))):
                        t = lift(x)
                        if not (t.op == "app" and t.args[0] == "IDX"):
                            v.fail("indices come from the dictionary")
                            return
                        off = [norm.canon(T.sub(y, c)) for y, c in zip(t.args[1:], cur)]
                        if any(z.op != "num" for z in off):
                            v.fail("vertices next to the current node")
                            return
                        el.append(tuple(int(z.args[0]) for z in off))
                    els.append(tuple(el))
            # how far the planes are on this path
            rs, o = [], 0
            for d, N in zip(ds, N_of):
                s = T.sub(N, T.add(T.ZERO, *cur[o:o + d]))
                o += d
                r = 0
                while r < d and not v.decide(T.eq(s, T.num(r))):
                    r += 1
                rs.append(r)
            _local(v, ds, rs, els)
            hits.append(rs)
        v.step_check["submesh_for_simplex"] = v.step_check["submesh_for_hypercube"] = step
        shape = {"S": lambda: sh.Simplex(dim), "H": lambda: sh.Hypercube(dim),
                 "P": lambda: sh.TensorProductShape(tuple(sh.Simplex(d) for d in ds))}[kind]()
        r = sh.submesh_for_shape(shape, nodes)
        if not isinstance(r, PList):
            raise Unsupported("result of another kind")
        if not hits:
            raise Unsupported("the loop over the nodes was not met")
        v.prove("every kind of cell was met", T.TRUE if {tuple(min(r, 1) for r in rs)
                                                         for rs in hits} == set(
            product((0, 1), repeat=len(ds))) else T.FALSE)
        v.prove("only one list of elements", T.TRUE if r.sym is not None else T.FALSE)
        v.cover("end")
    return h


for _d in (1, 2, 3):
    CHECK.vc(f"submesh of the {_d}-simplex", functions=[SS])(_harness("S", (_d,)))
for _d in (2, 3, 4):
    CHECK.vc(f"submesh of the {_d}-cube", functions=[SHC])(_harness("H", (1,) * _d))
for _ds in [(1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (1, 1, 2), (1, 2, 1)]:
    CHECK.vc(f"submesh of the product {_ds}", functions=[SHC, SS])(_harness("P", _ds, mixed=True))


@CHECK.vc("unsupported dimensions", functions=[SS])
def _(v, W):
    sh = W.modules["modepy.shapes"]
    for d in (4, 5):
        try:
            sh.submesh_for_shape(sh.Simplex(d), [(0,) * d])
        except NotImplementedError:
            v.ok("documented error")
        else:
            v.fail("documented error")
    v.cover("end")


# {{{ battery

def _bmap(x, ds):
    return np.asarray(x, dtype=float)


@CHECK.battery("submeshes", functions=[SS, SHC], timeout=400)
def _(B):
    import modepy as mp
    from math import factorial
    from modepy.shapes import TensorProductShape
    from modepy.spaces import TensorProductSpace
    cases = [((d,), mp.Simplex(d), mp.PN(d, n), (n,)) for d, m in [(1, 12), (2, 9), (3, 6)]
             for n in range(1, m)]
    cases += [((1,) * d, mp.Hypercube(d), mp.QN(d, n), (n,) * d)
              for d, m in [(2, 8), (3, 5), (4, 4)] for n in range(1, m)]
    for ds in [(1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (1, 1, 2), (1, 2, 1), (0, 1)]:
        for os in product((1, 2, 3), repeat=len(ds)):
            if len(ds) < 3 or max(os) < 3:
                cases.append((ds, TensorProductShape(tuple(mp.Simplex(d) for d in ds)),
                              TensorProductSpace(tuple(mp.PN(d, o) for d, o in zip(ds, os))), os))
    for ds, shape, space, os in cases:
        inp = dict(factors=ds, orders=os, kind=type(shape).__name__)
        nt = mp.node_tuples_for_space(space)
        okc, els = B.call("submesh", lambda: mp.submesh_for_shape(shape, nt), **inp)
        if not okc:
            continue
        want = int(np.prod([o**d for d, o in zip(ds, os)]))
        B.equal("number of equal elements", len(els), want, **inp)
        B.ok("existing nodes", all(0 <= i < len(nt) for e in els for i in e), **inp)
        B.ok("every node used", {i for e in els for i in e} == set(range(len(nt))), **inp)
        cells = {}
        good = True
        for e in els:
            w = [nt[i] for i in e]
            low = tuple(min(c) for c in zip(*w))
            p = _pair([tuple(a - b for a, b in zip(x, low)) for x in w], ds)
            good = good and p is not None and all(vol(s) == 1 for s in p)
            if p is not None:
                cells.setdefault(low, []).append(p)
        B.ok("products of positively oriented simplices of equal volume, in the reference order",
             good, **inp)
        B.ok("no overlap", all(any(d and apart(x, y) for d, x, y in zip(ds, a, b))
                               for c in cells.values() for a, b in combinations(c, 2)), **inp)
        perm = B.nprng.permutation(len(nt))
        ntp = tuple(nt[k] for k in perm)
        okc, els2 = B.call("reordered", lambda: mp.submesh_for_shape(shape, ntp), **inp)
        if okc:
            B.ok("reordering the tuples relabels the nodes", sorted(
                tuple(int(perm[i]) for i in e) for e in els2) == sorted(map(tuple, els)), **inp)
    for d in (4, 5):
        B.raises("unsupported", NotImplementedError, lambda: mp.submesh_for_shape(
            mp.Simplex(d), mp.node_tuples_for_space(mp.PN(d, 2))), dim=d)

# }}}
