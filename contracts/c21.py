"""C21: value semantics of spaces and shapes, dispatch, the unbounded-exactness marker."""
import copy
import pickle
import warnings
from itertools import product

import numpy as np

from pyvc import terms as T
from pyvc.sym import SSeq, lift, wrap
from .base import Check

CHECK = Check(
    "C21", level="proof",
    trusted=["Python's data model (pickle and copy rebuild an object from its class, "
             "__getnewargs__ and state; singledispatch picks the implementation of the nearest "
             "registered class); dataclass-generated __eq__ and __hash__ use the same fields"],
    assumptions=["hash values: equality of hashes is evaluated, not proved"],
    bounded=["numbers of factors: at most four, every nesting up to depth three; counts over "
             "the factors for any number of factors; dimensions of hypercubes and QN up to 6; "
             "orders and dimensions of simplices are arbitrary"])

SP, SH = "modepy.spaces.", "modepy.shapes."
QI = "modepy.quadrature._Inf."


# {{{ the marker

@CHECK.vc("the marker is greater than every integer and real number",
          functions=[QI + f"__{o}__" for o in ("eq", "gt", "ge", "lt", "le", "add")])
def _(v, W):
    q = W.modules["modepy.quadrature"]
    inf = q.inf
    for n in (v.int("n"), v.real("x")):
        for what, got, want in [
                ("inf > n", inf > n, True), ("inf >= n", inf >= n, True),
                ("inf < n", inf < n, False), ("inf <= n", inf <= n, False),
                ("n < inf", n < inf, True), ("n <= inf", n <= inf, True),
                ("n > inf", n > inf, False), ("n >= inf", n >= inf, False),
                ("inf == n", inf == n, False), ("n == inf", n == inf, False),
                ("inf != n", inf != n, True), ("n != inf", n != inf, True)]:
            v.prove(what, T.TRUE if bool(got) is want else T.FALSE)
        v.prove("inf + n", T.TRUE if isinstance(inf + n, q._Inf) else T.FALSE)
        v.prove("not infinite", T.TRUE if q.isinf(n) is False else T.FALSE)
    other = q._Inf()
    for what, got, want in [("=", inf == other, True), (">=", inf >= other, True),
                            ("<=", inf <= other, True), (">", inf > other, False),
                            ("<", inf < other, False), ("!=", inf != other, False)]:
        v.prove(f"inf {what} inf", T.TRUE if got is want else T.FALSE)
    v.prove("isinf", T.TRUE if q.isinf(inf) is True and q.isinf(other) is True else T.FALSE)
    v.cover("end")

# }}}


# {{{ products flatten

def nestings(leaves, depth=3):
    """every way to bracket the leaves, as nested lists (no brackets around one element of the
    outermost level)"""
    def groups(xs):
        if not xs:
            yield []
            return
        for i in range(1, len(xs) + 1):
            for rest in groups(xs[i:]):
                yield [xs[:i], *rest]

    def rec(xs, d):
        yield list(xs)
        if d == 0:
            return
        for g in groups(list(xs)):
            if len(g) in (1, len(xs)) and len(xs) > 1:
                continue
            if len(xs) == 1:
                continue
            for choice in product(*[[x[0]] if len(x) == 1 else list(rec(x, d - 1)) for x in g]):
                yield list(choice)
    seen = []
    for n in rec(leaves, depth):
        if n not in seen:
            seen.append(n)
    return seen


def build(make, tree):
    return make(tuple(build(make, t) if isinstance(t, list) else t for t in tree))


def _flat_space(k):
    def h(v, W):
        sp = W.modules["modepy.spaces"]
        ds = [v.int(f"d{i}", lo=0, sample=lambda r: r.randint(0, 2)) for i in range(k)]
        ns = [v.int(f"n{i}", lo=1, sample=lambda r: r.randint(1, 3)) for i in range(k)]

        class Factor(sp.FunctionSpace):
            def __init__(self, i):
                self.i = i

            @property
            def spatial_dim(self):
                return ds[self.i]

            @property
            def space_dim(self):
                return ns[self.i]

            @property
            def order(self):
                return v.__dict__["orders"][self.i]
        fs = [Factor(i) for i in range(k)]
        v.orders = [v.int("N", lo=0)] * k
        td, tn = T.ZERO, T.ONE
        for d, n in zip(ds, ns):
            td, tn = T.add(td, lift(d)), T.mul(tn, lift(n))
        for tree in nestings(fs):
            s = build(sp.TensorProductSpace, tree)
            v.prove("product space", T.TRUE if type(s) is sp.TensorProductSpace else T.FALSE)
            v.prove("flattened, components in order", T.TRUE if isinstance(s.bases, tuple)
                    and len(s.bases) == k
                    and all(a is b for a, b in zip(s.bases, fs)) else T.FALSE)
            v.prove_eq("spatial dimension", s.spatial_dim, wrap(td))
            v.prove_eq("dimension", s.space_dim, wrap(tn))
            if k:
                v.prove_eq("order", s.order, v.orders[0])
            c = copy.copy(s)
            v.prove("copy has the same type and components", T.TRUE if type(c) is type(s)
                    and c.bases == s.bases else T.FALSE)
        v.cover("end")
    return h


for _k in (0, 2, 3, 4):
    CHECK.vc(f"tensor product spaces, {_k} factors", functions=[
        SP + "TensorProductSpace." + m for m in
        ("__new__", "__init__", "__getnewargs__", "order", "spatial_dim", "space_dim")],
        timeout=300)(_flat_space(_k))


@CHECK.vc("tensor product spaces, any number of factors: counts", functions=[
    SP + "TensorProductSpace.spatial_dim", SP + "TensorProductSpace.space_dim"])
def _(v, W):
    sp = W.modules["modepy.spaces"]
    k = v.int("k", lo=0, sample=lambda r: r.randint(0, 4))

    class Factor(sp.FunctionSpace):
        def __init__(self, i):
            self.i = lift(i)

        @property
        def spatial_dim(self):
            return wrap(T.app("sdim", self.i, sort="I"))

        @property
        def space_dim(self):
            return wrap(T.app("fdim", self.i, sort="I"))
    s = object.__new__(sp.TensorProductSpace)
    s.bases = SSeq(lift(k), Factor, tuple)
    u = T.fresh("u", "I")
    v.prove_eq("spatial dimension is the sum", s.spatial_dim, wrap(
        T.binder("sum", u, T.ZERO, lift(k), T.app("sdim", u, sort="I"))))
    v.prove_eq("dimension is the product", s.space_dim, wrap(
        T.binder("prod", u, T.ZERO, lift(k), T.app("fdim", u, sort="I"))))
    v.cover("end")


@CHECK.vc("order of a product with different orders", functions=[
    SP + "TensorProductSpace.order"])
def _(v, W):
    sp = W.modules["modepy.spaces"]
    for k in (2, 3, 4):
        os_ = [v.int(f"N{k}{i}", lo=0) for i in range(k)]
        s = sp.TensorProductSpace(tuple(sp.PN(1, o) for o in os_))
        same = T.and_(*[T.eq(lift(os_[0]), lift(o)) for o in os_[1:]])
        try:
            o = s.order
        except AttributeError:
            v.prove("no order if the factors' orders differ", T.not_(same))
        else:
            v.prove("an order if the factors' orders are the same", same)
            v.prove_eq("the factors' order", o, os_[0])
    v.cover("end")


def _flat_shape(k, at):
    def h(v, W):
        sh = W.modules["modepy.shapes"]
        d = v.int("d", lo=0)
        fs = [sh.Simplex(d) if i == at else sh.Simplex(1) for i in range(k)]
        for tree in nestings(fs):
            s = build(sh.TensorProductShape, tree)
            v.prove("product shape", T.TRUE if type(s) is sh.TensorProductShape else T.FALSE)
            v.prove("flattened, components in order", T.TRUE if isinstance(s.bases, tuple)
                    and len(s.bases) == k
                    and all(a is b for a, b in zip(s.bases, fs)) else T.FALSE)
            v.prove_eq("dimension", s.dim, d + (k - 1) if k else 0)
            v.prove_eq("number of vertices", s.nvertices, 2**(k - 1) * (d + 1) if k else 1)
            c = copy.copy(s)
            v.prove("copy has the same type and components", T.TRUE if type(c) is type(s)
                    and len(c.bases) == k
                    and all(a is b for a, b in zip(c.bases, s.bases)) else T.FALSE)
            v.prove_eq("copy has the same dimension", c.dim, s.dim)
        v.cover("end")
    return h


for _k in (0, 2, 3, 4):
    for _at in range(max(_k, 1)):
        CHECK.vc(f"tensor product shapes, {_k} factors" + (f", simplex at {_at}" if _k else ""),
                 functions=[SH + "TensorProductShape." + m for m in
                            ("__new__", "__init__", "__getnewargs__", "nvertices")],
                 timeout=300)(_flat_shape(_k, _at))


def _two(k):
    def h(v, W):
        sh = W.modules["modepy.shapes"]
        ds = [v.int(f"d{k}{i}", lo=0) for i in range(k)]
        cnt = T.ZERO
        for d in ds:
            cnt = T.add(cnt, T.ite(T.eq(lift(d), T.ONE), T.ZERO, T.ONE))
        try:
            s = sh.TensorProductShape(tuple(sh.Simplex(d) for d in ds))
        except NotImplementedError:
            v.prove("rejected only if two factors are not segments", T.lt(T.ONE, cnt))
        else:
            v.prove("at most one factor is not a segment", T.le(cnt, T.ONE))
            v.prove_eq("dimension", s.dim, sum(ds))
        v.cover("end")
    return h


for _k in (2, 3, 4):
    CHECK.vc(f"tensor product shapes, {_k} factors: at most one is not a segment", functions=[
        SH + "TensorProductShape.__init__"])(_two(_k))


@CHECK.vc("singleton products are the factor", functions=[
    SP + "TensorProductSpace.__new__", SH + "TensorProductShape.__new__",
    SP + "QN.__init__", SH + "Hypercube.__init__"])
def _(v, W):
    sp, sh = W.modules["modepy.spaces"], W.modules["modepy.shapes"]
    N, d = v.int("N", lo=0), v.int("d", lo=0)
    for f in (sp.PN(d, N), sp.QN(2, N), sp.QN(3, N),
              sp.TensorProductSpace((sp.PN(d, N), sp.PN(1, N)))):
        b, sd = getattr(f, "bases", None), f.spatial_dim
        g = sp.TensorProductSpace((f,))
        v.prove("the space itself", T.TRUE if g is f else T.FALSE)
        v.prove_eq("dimension unchanged", g.spatial_dim, sd)
        v.prove("components unchanged", T.TRUE if getattr(g, "bases", None) is b or (
            len(g.bases) == len(b) and all(x is y for x, y in zip(g.bases, b))) else T.FALSE)
    for f in (sh.Simplex(d), sh.Hypercube(2), sh.Hypercube(3),
              sh.TensorProductShape((sh.Simplex(d), sh.Simplex(1)))):
        b, sd = getattr(f, "bases", None), f.dim
        g = sh.TensorProductShape((f,))
        v.prove("the shape itself", T.TRUE if g is f else T.FALSE)
        v.prove_eq("dimension unchanged", g.dim, sd)
        v.prove("components unchanged", T.TRUE if getattr(g, "bases", None) is b or (
            len(g.bases) == len(b) and all(x is y for x, y in zip(g.bases, b))) else T.FALSE)
    v.cover("end")


@CHECK.vc("QN and hypercubes", functions=[
    SP + "QN.__new__", SP + "QN.__init__", SP + "QN.order", SP + "QN.__getnewargs__",
    SH + "Hypercube.__new__", SH + "Hypercube.__init__", SH + "Hypercube.__getnewargs__"])
def _(v, W):
    sp, sh = W.modules["modepy.spaces"], W.modules["modepy.shapes"]
    N = v.int("N", lo=0)
    for d in range(7):
        q = sp.QN(d, N)
        v.prove(f"QN({d}) is {'PN' if d == 1 else 'QN'}", T.TRUE if type(q) is (
            sp.PN if d == 1 else sp.QN) else T.FALSE)
        v.prove_eq("spatial dimension", q.spatial_dim, d)
        v.prove_eq("dimension", q.space_dim, (N + 1)**d)
        if d:
            v.prove_eq("order", q.order, N)
        if d != 1:
            v.prove("one factor per axis", T.TRUE if len(q.bases) == d and all(
                type(b) is sp.PN for b in q.bases) else T.FALSE)
            for b in q.bases:
                v.prove_eq("line", b.spatial_dim, 1)
                v.prove_eq("order of the factor", b.order, N)
        if d:
            c = copy.copy(q)
            v.prove("copy of the same type", T.TRUE if type(c) is type(q) else T.FALSE)
            for what in ("spatial_dim", "space_dim", "order"):
                v.prove_eq(f"copy has the same {what}", getattr(c, what), getattr(q, what))
        h = sh.Hypercube(d)
        v.prove(f"Hypercube({d})", T.TRUE if type(h) is (
            sh.Simplex if d == 1 else sh.Hypercube) and h.dim == d and (
            d == 1 or h.bases == (sh.Simplex(1),) * d) else T.FALSE)
        c = copy.copy(h)
        v.prove("copy", T.TRUE if type(c) is type(h) and c == h and c.dim == d else T.FALSE)
    v.cover("end")

# }}}


# {{{ equality

@CHECK.vc("equality of shapes", functions=[SH + "Simplex", SH + "TensorProductShape"])
def _(v, W):
    sh = W.modules["modepy.shapes"]
    d, e = v.int("d", lo=0), v.int("e", lo=0)
    a, b = sh.Simplex(d), sh.Simplex(e)
    eq = T.eq(lift(d), lift(e))
    iff = lambda x: v.prove(  # noqa: E731
        "equal if and only if built from equal arguments", eq if x else T.not_(eq))
    r = a == b
    iff(bool(r))
    v.prove("a != b is the opposite", T.TRUE if bool(a != b) is not bool(r) else T.FALSE)
    one = sh.Simplex(1)
    iff(bool(sh.TensorProductShape((a, one)) == sh.TensorProductShape((b, one))))
    iff(bool(sh.TensorProductShape((one, one, a)) == sh.TensorProductShape((one, one, b))))
    # the position matters
    x = sh.TensorProductShape((a, one)) == sh.TensorProductShape((one, b))
    both = T.and_(T.eq(lift(d), T.ONE), T.eq(lift(e), T.ONE))
    v.prove("different sequences differ", both if bool(x) else T.not_(both))
    y = sh.Simplex(d) == sh.Hypercube(3)
    v.prove("simplices are not cubes", T.TRUE if not bool(y) else T.FALSE)
    try:
        a.dim = 3
    except AttributeError:
        v.ok("shapes are immutable")
    else:
        v.fail("shapes are immutable")
    v.cover("end")

# }}}


# {{{ the space for a shape

def _sfs(kind):
    def h(v, W):
        sp, sh = W.modules["modepy.spaces"], W.modules["modepy.shapes"]
        N, d = v.int("N", lo=0), v.int("d", lo=0)
        if kind == "simplex":
            s = sp.space_for_shape(sh.Simplex(d), N)
            v.prove("PN", T.TRUE if type(s) is sp.PN else T.FALSE)
            v.prove_eq("spatial dimension", s.spatial_dim, d)
            v.prove_eq("order", s.order, N)
            v.cover("end")
            return
        k, at = kind
        shape = sh.TensorProductShape(tuple(
            sh.Simplex(d) if i == at else sh.Simplex(1) for i in range(k)))
        dims = [d if i == at else 1 for i in range(k)]
        os_ = [v.int(f"N{i}", lo=0) for i in range(k)]
        for orders, arg in [([N] * k, N), (os_, tuple(os_))]:
            s = sp.space_for_shape(shape, arg)
            v.prove("product space", T.TRUE if isinstance(s, sp.TensorProductSpace)
                    and len(s.bases) == k
                    and all(type(b) is sp.PN for b in s.bases) else T.FALSE)
            for i in range(k):
                v.prove_eq(f"dimension of factor {i}", s.bases[i].spatial_dim, dims[i])
                v.prove_eq(f"order of factor {i}", s.bases[i].order, orders[i])
            v.prove_eq("spatial dimension of the shape", s.spatial_dim, shape.dim)
        for m in range(6):
            if m == k:
                continue
            try:
                sp.space_for_shape(shape, (N,) * m)
            except ValueError:
                v.ok("ValueError for a wrong number of orders")
            else:
                v.fail("ValueError for a wrong number of orders")
        v.cover("end")
    return h


for _kind in ["simplex", (0, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (4, 0), (4, 3)]:
    CHECK.vc(f"space for a shape, {_kind}", functions=[
        SP + "space_for_simplex", SP + "space_for_tensor_product_shape"])(_sfs(_kind))

# }}}


# {{{ dispatch

DISPATCH = {
    "basis": ("modes", "basis_for_space"),
    "orthonormal basis": ("modes", "orthonormal_basis_for_space"),
    "monomial basis": ("modes", "monomial_basis_for_space"),
    "equispaced nodes": ("nodes", "equispaced_nodes_for_space"),
    "edge clustered nodes": ("nodes", "edge_clustered_nodes_for_space"),
    "quadrature": ("quadrature", "quadrature_for_space"),
}


def _expect(v, what, exc, f):
    try:
        f()
    except exc:
        v.ok(what)
    else:
        v.fail(what)


def _mismatch(name):
    mod, fn = DISPATCH[name]

    def h(v, W):
        sp, sh = W.modules["modepy.spaces"], W.modules["modepy.shapes"]
        f = getattr(W.modules["modepy." + mod], fn)
        N, d, e = v.int("N", lo=0), v.int("d", lo=0), v.int("e", lo=0)
        v.assume(d != e)
        one = sh.Simplex(1)
        _expect(v, "PN and a simplex of another dimension: ValueError", ValueError,
                lambda: f(sp.PN(d, N), sh.Simplex(e)))
        for shape in (sh.Hypercube(2), sh.TensorProductShape((sh.Simplex(e), one)),
                      sh.TensorProductShape(()), sh.Hypercube(3)):
            _expect(v, "PN and a product: NotImplementedError", NotImplementedError,
                    lambda: f(sp.PN(d, N), shape))
        tp = sp.TensorProductSpace((sp.PN(d, N), sp.PN(1, N)))
        for space in (tp, sp.QN(2, N), sp.QN(3, N), sp.TensorProductSpace(())):
            _expect(v, "product and simplex: NotImplementedError", NotImplementedError,
                    lambda: f(space, sh.Simplex(e)))
        _expect(v, "products of different dimensions: ValueError", ValueError,
                lambda: f(tp, sh.TensorProductShape((sh.Simplex(e), one))))
        # the same dimension, another number of factors
        for a, b in [(sp.QN(3, N), sh.TensorProductShape((sh.Simplex(2), one))),
                     (sp.TensorProductSpace((sp.PN(2, N), sp.PN(1, N))), sh.Hypercube(3))]:
            _expect(v, "products of different numbers of factors: ValueError", ValueError,
                    lambda: f(a, b))

        class Other(sp.FunctionSpace):
            spatial_dim = space_dim = 1
        for shape in (one, sh.Hypercube(2)):
            _expect(v, "unknown spaces: NotImplementedError", NotImplementedError,
                    lambda: f(Other(), shape))
        v.cover("end")
    return h


for _n, (_m, _f) in DISPATCH.items():
    CHECK.vc(f"dispatch, pairs that do not match: {_n}", functions=[f"modepy.{_m}.{_f}"])(
        _mismatch(_n))


def _match(name, k):
    mod, fn = DISPATCH[name]

    def h(v, W):
        sp, sh = W.modules["modepy.spaces"], W.modules["modepy.shapes"]
        m = W.modules["modepy." + mod]
        N = v.int("N", lo=0)
        ds = [v.int(f"d{i}", lo=0) for i in range(k)]
        space = object.__new__(sp.TensorProductSpace)
        space.bases = tuple(sp.PN(d, v.int(f"o{i}", lo=0)) for i, d in enumerate(ds))
        shape = object.__new__(sh.TensorProductShape)
        object.__setattr__(shape, "bases", tuple(sh.Simplex(d) for d in ds))
        object.__setattr__(shape, "dim", sum(ds))
        real = getattr(m, fn).dispatch(sp.TensorProductSpace)
        calls = []

        class Part:
            """what the dispatcher returns for a factor"""

        def one(a, b):
            calls.append((a, b, Part()))
            return calls[-1][2]
        W.patch(f"modepy.{mod}.{fn}", one)
        seen = []
        if mod == "nodes":
            W.patch("modepy.nodes.tensor_product_nodes", lambda xs: seen.append(list(xs)) or xs)
        r = real(space, shape)
        if mod == "nodes":
            parts = seen[0] if len(seen) == 1 else []
            v.prove("the product of the factors' nodes", T.TRUE if r is not None and len(
                seen) == 1 and list(r) == parts else T.FALSE)
        else:
            v.prove("a product basis", T.TRUE if type(r) is m.TensorProductBasis else T.FALSE)
            parts = list(r.bases)
            for i in range(k):
                v.prove_eq(f"dimension of factor {i}", r._dims_per_basis[i], ds[i])
        v.prove("one part per factor", T.TRUE if len(parts) == k else T.FALSE)
        for i in range(k):
            hit = [c for c in calls if c[2] is parts[i]]
            v.prove(f"part {i} belongs to factor {i} of the space and of the shape",
                    T.TRUE if hit and hit[0][0] is space.bases[i]
                    and hit[0][1] is shape.bases[i] else T.FALSE)
        v.cover("end")
        del N
    return h


for _n, (_m, _f) in DISPATCH.items():
    if _m == "quadrature":
        continue        # C12
    for _k in (0, 1, 2, 3, 4):
        CHECK.vc(f"dispatch, products of {_k} factors: {_n}", functions=[f"modepy.{_m}.{_f}"],
                 uses=[f"modepy.{_m}.{_f}", "modepy.nodes.tensor_product_nodes"])(_match(_n, _k))

# }}}


# {{{ battery

@CHECK.battery("the marker", functions=[QI + "__gt__", QI + "__lt__", QI + "__eq__"])
def _(B):
    from modepy.quadrature import inf, isinf
    _Inf = type(inf)
    ns = [0, 1, -1, 2**31, -2**70, 10**40, 1.5, -1e300, np.int64(3), np.float64(2.5),
          np.int32(-7), np.uint8(200), True]
    ns += [B.rng.randint(-10**6, 10**6) for _ in range(30)]
    for n in ns:
        B.ok("inf > n", (inf > n) is True and (inf >= n) is True, n=n)
        B.ok("not inf < n", (inf < n) is False and (inf <= n) is False, n=n)
        B.ok("n < inf", bool(n < inf) is True and bool(n <= inf) is True, n=n)
        B.ok("not n > inf", bool(n > inf) is False and bool(n >= inf) is False, n=n)
        B.ok("different", not (inf == n) and not (n == inf) and inf != n and n != inf, n=n)
        B.ok("min and max", min(n, inf) is n and min(inf, n) is n and max(n, inf) is inf
             and max(inf, n) is inf, n=n)
        B.ok("isinf", isinf(inf) and not isinf(n), n=n)
        if not isinstance(n, bool):
            B.ok("sum", (inf + n) is inf, n=n)
    for m in (_Inf(), inf, pickle.loads(pickle.dumps(inf)), copy.deepcopy(inf)):
        B.ok("all markers are equal", inf == m and inf >= m and inf <= m and not inf > m
             and not inf < m and not inf != m and isinf(m))


def _shapes():
    from modepy.shapes import Hypercube, Simplex, TensorProductShape as TP
    one = lambda: Simplex(1)    # noqa: E731
    mk = {f"S{d}": (lambda d=d: Simplex(d)) for d in (0, 2, 3, 4, 5)}
    mk |= {f"H{d}": (lambda d=d: Hypercube(d)) for d in (0, 1, 2, 3, 4)}
    mk |= {"TP": lambda: TP(()), "TP11": lambda: TP((one(), one())),
           "TP111": lambda: TP((one(), one(), one()))}
    for d in (0, 2, 3):
        mk |= {f"TP{d}1": lambda d=d: TP((Simplex(d), one())),
               f"TP1{d}": lambda d=d: TP((one(), Simplex(d))),
               f"TP1{d}1": lambda d=d: TP((one(), Simplex(d), one()))}
    return mk


def _copies(x):
    yield "copy", copy.copy(x)
    yield "deepcopy", copy.deepcopy(x)
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        if p >= 2:
            yield f"pickle {p}", pickle.loads(pickle.dumps(x, p))


@CHECK.battery("shapes: equality, hashes, copies, flattening",
               functions=[SH + "Simplex", SH + "Hypercube", SH + "TensorProductShape"])
def _(B):
    from modepy.shapes import Hypercube, Simplex, TensorProductShape
    mk = _shapes()
    for a, fa in mk.items():
        for b, fb in mk.items():
            x, y = fa(), fb()
            B.ok("equal exactly if built alike", (x == y) is (a == b)
                 and (x != y) is (a != b), a=a, b=b)
            if a == b:
                B.ok("equal shapes have equal hashes", hash(x) == hash(y), a=a)
        x = fa()
        for what, (nm, c) in [(n, (n, c)) for n, c in _list(B, "copies", lambda: list(
                _copies(x)), a=a)]:
            B.ok(f"{nm} is equal", type(c) is type(x) and c == x and hash(c) == hash(x)
                 and c.dim == x.dim and getattr(c, "bases", None) == getattr(x, "bases", None)
                 and (c.nvertices, c.nfaces) == (x.nvertices, x.nfaces), a=a, how=nm)
        B.ok("usable as a key", {x: 1}[fa()] == 1, a=a)
    one = Simplex(1)
    for k in (2, 3, 4):
        for at, d in product(range(k), (0, 2, 3)):
            fs = [Simplex(d) if i == at else one for i in range(k)]
            for t in nestings(fs):
                ok, s = B.call("nested product", lambda: build(TensorProductShape, t),
                               tree=repr(t))
                if ok:
                    B.ok("flattened", s == TensorProductShape(tuple(fs)) and s.dim == d + k - 1
                         and s.bases == tuple(fs), tree=repr(t))
    B.ok("cubes flatten", TensorProductShape((Hypercube(2), Simplex(2))).bases == (
        one, one, Simplex(2)) and TensorProductShape((Hypercube(2), one)).bases == (one,) * 3)
    B.ok("Hypercube(1) is Simplex(1)", Hypercube(1) == Simplex(1)
         and type(Hypercube(1)) is Simplex)
    for d in range(6):
        h = Hypercube(d)
        B.ok("hypercube", h.dim == d and h.nvertices == 2**d and (d == 1 or h.bases == (one,) * d),
             d=d)
    for bad in [(Simplex(2), Simplex(2)), (Simplex(2), one, Simplex(3)),
                (Simplex(0), Simplex(0))]:
        B.raises("two factors that are not segments", NotImplementedError,
                 lambda: TensorProductShape(bad), factors=repr(bad))


def _list(B, what, fn, **inp):
    ok, r = B.call(what, fn, **inp)
    return r if ok else []


def _dims(s):
    return (type(s), s.spatial_dim, s.space_dim, getattr(s, "order", None)
            if s.spatial_dim else None,
            tuple(_dims(b) for b in getattr(s, "bases", ())))


@CHECK.battery("spaces: copies, flattening, counts, the space for a shape",
               functions=[SP + "PN", SP + "QN", SP + "TensorProductSpace",
                          SP + "space_for_shape"])
def _(B):
    from math import comb
    import modepy as mp
    from modepy import PN, QN, TensorProductSpace, space_for_shape
    zoo = [PN(d, o) for d in range(6) for o in (0, 1, 2, 5)]
    zoo += [QN(d, o) for d in range(6) for o in (0, 1, 3)]
    zoo += [TensorProductSpace(()), TensorProductSpace((PN(1, 2), PN(2, 2))),
            TensorProductSpace((PN(2, 1), PN(1, 3))), TensorProductSpace((QN(2, 2), PN(3, 2))),
            TensorProductSpace((PN(1, 1), TensorProductSpace((PN(1, 2), PN(2, 3))), QN(3, 1)))]
    for s in zoo:
        for nm, c in _list(B, "copies", lambda: list(_copies(s)), space=_dims(s)):
            B.ok(f"{nm} has the same type, dimensions, orders and components",
                 _dims(c) == _dims(s), space=_dims(s), how=nm)
    for d, o in product(range(6), range(7)):
        p = PN(d, o)
        B.equal("PN", (p.spatial_dim, p.order, p.space_dim), (d, o, comb(d + o, d)), d=d, o=o)
        q = QN(d, o)
        B.equal("QN", (q.spatial_dim, q.space_dim), (d, (o + 1)**d), d=d, o=o)
        if d:
            B.equal("order of QN", q.order, o, d=d, o=o)
        B.ok("type of QN", type(q) is (PN if d == 1 else QN), d=d, o=o)
    for k in (2, 3, 4):
        fs = [PN(B.rng.randint(0, 3), B.rng.randint(0, 3)) for _ in range(k)]
        fs[0] = QN(1, 2)
        for t in nestings(fs):
            ok, s = B.call("nested product", lambda: build(TensorProductSpace, t), tree=repr(t))
            if ok:
                B.ok("flattened", len(s.bases) == k and all(
                    x is y for x, y in zip(s.bases, fs)), tree=repr(t))
                B.equal("counts", (s.spatial_dim, s.space_dim), (
                    sum(f.spatial_dim for f in fs),
                    int(np.prod([f.space_dim for f in fs]))), tree=repr(t))
                os_ = {f.order for f in fs}
                B.equal("order", getattr(s, "order", None), os_.pop() if len(os_) == 1 else None,
                        tree=repr(t))
    for name, f in _shapes().items():
        shape = f()
        for o in (0, 1, 3):
            ok, s = B.call("space for shape", lambda: space_for_shape(shape, o), shape=name, o=o)
            if not ok:
                continue
            B.equal("dimension", s.spatial_dim, shape.dim, shape=name, o=o)
            if shape.dim:
                B.equal("order", s.order, o, shape=name, o=o)
            if isinstance(shape, mp.TensorProductShape):
                B.equal("factors", [(b.spatial_dim, b.order) for b in s.bases],
                        [(b.dim, o) for b in shape.bases], shape=name, o=o)
                k = len(shape.bases)
                os_ = tuple(B.rng.randint(0, 4) for _ in range(k))
                ok, s = B.call("space for shape", lambda: space_for_shape(shape, os_),
                               shape=name, orders=os_)
                if ok:
                    B.equal("factors", [(b.spatial_dim, b.order) for b in s.bases],
                            [(b.dim, q) for b, q in zip(shape.bases, os_)], shape=name,
                            orders=os_)
                B.raises("one order per factor", ValueError, lambda: space_for_shape(
                    shape, (*os_, 1)), shape=name, orders=os_)
                if k:
                    B.raises("one order per factor", ValueError, lambda: space_for_shape(
                        shape, os_[:-1]), shape=name, orders=os_)


@CHECK.battery("every pair of space and shape is served consistently or rejected",
               functions=[f"modepy.{m}.{f}" for m, f in DISPATCH.values()])
def _(B):
    import modepy as mp
    from modepy import PN, QN, TensorProductSpace as TS
    warnings.simplefilter("ignore")
    o = 2
    spaces = [PN(d, o) for d in range(5)] + [QN(d, o) for d in (0, 2, 3)]
    spaces += [TS(()), TS((PN(1, o), PN(1, o))), TS((PN(2, o), PN(1, o))),
               TS((PN(1, o), PN(2, o))), TS((PN(3, o), PN(1, o))), TS((PN(1, 1), PN(1, 2))),
               TS((QN(2, o), PN(2, o))), TS((PN(0, o), PN(1, o))), TS((PN(2, 3), PN(1, 1)))]
    fs = {k: getattr(mp, f) for k, (m, f) in DISPATCH.items()}

    def sdims(s):
        return [b.spatial_dim for b in s.bases] if isinstance(s, TS) else s.spatial_dim
    for space in spaces:
        for name, mk in _shapes().items():
            shape = mk()
            sd = [b.dim for b in shape.bases] if isinstance(
                shape, mp.TensorProductShape) else shape.dim
            fits = sdims(space) == sd
            # documented gaps
            big = (space.spatial_dim > 3 and not isinstance(space, TS)) or (
                isinstance(space, TS) and any(b.spatial_dim > 3 for b in space.bases))
            inp = {"space": _dims(space), "shape": name}
            for k, f in fs.items():
                if not fits:
                    B.raises(f"{k}: pairs that do not fit are rejected",
                             (NotImplementedError, ValueError), lambda: f(space, shape), **inp)
                    continue
                if k == "orthonormal basis" and big:
                    B.raises("no orthonormal basis above dimension 3", NotImplementedError,
                             lambda: f(space, shape).functions, **inp)
                    continue
                ok, r = B.call(k, lambda: f(space, shape), **inp)
                if not ok:
                    continue
                n = space.space_dim
                if "basis" in k:
                    B.equal("number of functions", (len(r.functions), len(r.mode_ids),
                                                    len(r.gradients) if space.spatial_dim
                                                    and not big and 0 not in np.atleast_1d(sd)
                                                    else n), (n, n, n), kind=k, **inp)
                elif "nodes" in k:
                    B.equal("unisolvent number of nodes", r.shape, (shape.dim, n), kind=k, **inp)
                else:
                    B.equal("rule on the shape", (r.dim, len(r.weights)), (
                        shape.dim, r.nodes.shape[-1]), kind=k, **inp)
            if fits and not big:
                V = mp.vandermonde(mp.basis_for_space(space, shape).functions,
                                   mp.edge_clustered_nodes_for_space(space, shape))
                B.ok("nodes and basis belong together", np.linalg.cond(V) < 1e6, **inp)

# }}}
