"""C11: tabulated quadrature rules."""
from itertools import product
from math import factorial

import numpy as np

from pyvc import terms as T
from pyvc.sym import lift, wrap, new_array, snapshot, F8
from .base import Check

CHECK = Check(
    "C11", level="proof",
    trusted=["numpy.linalg.solve/det on 2x2 and 3x3 matrices by contract"],
    assumptions=["table accuracy: every orthonormal polynomial up to the advertised degree is "
                 "integrated to 2e-13 (the tables have 15 or more digits); rounding of the "
                 "constructor's own arithmetic is inside this tolerance",
                 "the finitely many (order, dimension) pairs that have a table are evaluated "
                 "exhaustively on the real code; all other integers are decided by the "
                 "obligations on the constructors"])

Q = "modepy.quadrature."
XG = Q + "xiao_gimbutas.XiaoGimbutasSimplexQuadrature"
VR = Q + "vioreanu_rokhlin.VioreanuRokhlinSimplexQuadrature"
WV = Q + "witherden_vincent.WitherdenVincentQuadrature"
JS = Q + "jaskowiec_sukumar.JaskowiecSukumarQuadrature"
#: rule -> dimension -> (module of the table, name)
TABLES = {
    XG: {2: ("xg_quad_data", "triangle_table"), 3: ("xg_quad_data", "tetrahedron_table")},
    VR: {2: ("vr_quad_data_tri", "triangle_data"), 3: ("vr_quad_data_tet", "tetrahedron_data")},
    WV: {2: ("witherden_vincent_quad_data", "quad_data"),
         3: ("witherden_vincent_quad_data", "hex_data")},
    JS: {3: ("jaskowiec_sukumar_tet_data", "tet_data")},
}


class Table:
    """an arbitrary table: for every order either an entry or none"""

    def __init__(self, v, has, entry, log):
        self.v, self.has, self.entry, self.log = v, has, entry, log

    def __getitem__(self, order):
        self.log.append(order)
        if not self.has:
            raise KeyError(order)
        return self.entry

    def __contains__(self, order):
        self.log.append(order)
        return self.has

    def get(self, order, default=None):
        self.log.append(order)
        return self.entry if self.has else default


def _e2u(d, p):
    """the affine map of the equilateral onto the unit simplex (independent of modepy)"""
    s3, s6 = T.sqrt(T.num(3)), T.sqrt(T.num(6))
    q = lambda a, b: T.div(T.num(a), T.num(b))      # noqa: E731
    if d == 2:
        x, y = p
        return [T.add(x, T.neg(T.div(y, s3)), q(-1, 3)),
                T.add(T.mul(T.num(2), T.div(y, s3)), q(-1, 3))], T.div(T.num(2), s3)
    x, y, z = p
    return [T.add(x, T.neg(T.div(y, s3)), T.neg(T.div(z, s6)), q(-1, 2)),
            T.add(T.mul(T.num(2), T.div(y, s3)), T.neg(T.div(z, s6)), q(-1, 2)),
            T.add(T.mul(T.num(3), T.div(z, s6)), q(-1, 2))], \
        T.div(T.num(6), T.mul(s3, s6))


def _cls(W, rule):
    mod, name = rule.rsplit(".", 1)
    return getattr(W.modules[mod], name)


def _rule(rule, d):
    def h(v, W):
        cls = _cls(W, rule)
        mod, name = TABLES[rule][d]
        n = v.int("npts", lo=1, sample=lambda r: r.randint(1, 3))
        order, deg = v.int("order"), v.int("deg", lo=0)
        tr = rule == XG
        pts = v.array("p", (n, d) if tr else (d, n))
        wts = v.array("w", (n,))
        rp, rw = snapshot(pts), snapshot(wts)
        entry = {"points": pts, "weights": wts, "quad_degree": deg}
        log = []
        setattr(W.modules[Q + mod], name, Table(v, True, entry, log))
        if rule == JS:
            v.assumptions.add("quad_degree entries are integers")
            cls_mod = W.modules[rule.rsplit(".", 1)[0]]
            cls_mod.isinstance = lambda x, t: True
        if rule == VR:
            u = T.fresh("i", "I")
            tot = T.binder("sum", u, T.num(0), lift(n), rw((u,)))
            v.assume(wrap(T.lt(T.num(0), tot)))
        q = cls(order, d)
        v.prove("the table was asked", T.TRUE if log else T.FALSE)
        for o in log:
            v.prove_eq("asked for this order", o, order)
        pt = lambda k, i: rp((i, T.num(k)) if tr else (T.num(k), i))   # noqa: E731

        def node(k, i):
            k, i = lift(k), lift(i)
            if rule == WV:
                return rp((k, i))
            p = [pt(j, i) for j in range(d)]
            if rule == JS:
                xs = [T.sub(T.mul(T.num(2), t), T.ONE) for t in p]
            else:
                xs = _e2u(d, p)[0]
            r = xs[-1]
            for j in range(d - 2, -1, -1):
                r = T.ite(T.eq(k, T.num(j)), xs[j], r)
            return r
        v.prove_array("nodes", q.nodes, (d, n), lambda k, i: wrap(node(k, i)))
        fac = {XG: _e2u(d, [T.num(0)] * d)[1], WV: T.ONE,
               JS: T.div(T.num(4), T.num(3))}.get(rule)
        if rule == VR:
            fac = T.div(T.num(2) if d == 2 else T.div(T.num(4), T.num(3)), tot)
        v.prove_array("weights", q.weights, (n,), lambda i: wrap(T.mul(fac, rw((lift(i),)))))
        v.prove_eq("exactness", q.exact_to, order if rule == XG else deg)
        v.prove_array("table's points unchanged", pts, pts.shape,
                      lambda a, b: wrap(rp((lift(a), lift(b)))))
        v.prove_array("table's weights unchanged", wts, (n,),
                      lambda i: wrap(rw((lift(i),))))
        v.cover("end")
    return h


def _one_of(v, xs):
    for x in xs[:-1]:
        if v.choose(f"{x}"):
            return x
    return xs[-1]


def _unavailable(rule):
    def h(v, W):
        cls = _cls(W, rule)
        qm = W.modules["modepy.quadrature"]
        for mod, name in TABLES[rule].values():
            setattr(W.modules[Q + mod], name, Table(v, False, None, []))
        order, d = v.int("order"), _one_of(v, list(TABLES[rule]))
        try:
            cls(order, d)
        except qm.QuadratureRuleUnavailable:
            v.ok("QuadratureRuleUnavailable without a table")
        else:
            v.fail("QuadratureRuleUnavailable without a table")
        v.cover("end")
    return h


def _bad_dim(rule):
    def h(v, W):
        cls = _cls(W, rule)
        qm = W.modules["modepy.quadrature"]
        order, d = v.int("order"), v.int("dims")
        for k in TABLES[rule]:
            v.assume(wrap(T.not_(T.eq(lift(d), T.num(k)))))
        try:
            cls(order, d)
        except qm.QuadratureRuleUnavailable:
            v.ok("QuadratureRuleUnavailable in other dimensions")
        else:
            v.fail("QuadratureRuleUnavailable in other dimensions")
        v.cover("end")
    return h


for _r in TABLES:
    _s = _r.rsplit(".", 1)[1]
    for _d in TABLES[_r]:
        CHECK.vc(f"{_s} {_d}d", functions=[_r + ".__init__", "modepy.tools.AffineMap.__call__",
                                           "modepy.tools.AffineMap.jacobian"])(_rule(_r, _d))
    CHECK.vc(f"{_s}: orders without a table", functions=[_r + ".__init__"])(_unavailable(_r))
    CHECK.vc(f"{_s}: dimensions without tables", functions=[_r + ".__init__"])(_bad_dim(_r))


# {{{ every table, on the real code

def _tables(rule, d):
    import importlib
    mod, name = TABLES[rule][d]
    return sorted(getattr(importlib.import_module(Q + mod), name))


#: what the library documents (the tables may grow)
DOCUMENTED = {(XG, 2): range(1, 51), (XG, 3): range(1, 16), (VR, 2): range(0, 21),
              (VR, 3): range(0, 11), (WV, 2): range(1, 22, 2), (WV, 3): range(1, 12, 2),
              (JS, 3): range(0, 20)}


def legendre(n, x):
    p = [np.ones_like(x), x]
    for k in range(1, n):
        p.append(((2*k + 1) * x * p[k] - k * p[k - 1]) / (k + 1))
    return [np.sqrt(k + 0.5) * p[k] for k in range(n + 1)]


def _jac(a, n, x, y):
    """homogenised orthonormal Jacobi polynomials of weight (1-x)^a, argument x/y"""
    c = np.sqrt((a + 1) / 2**(a + 1.0))
    p = [np.full_like(x, c)]
    prev, bold = np.zeros_like(x), 0.0
    for m in range(1, n + 1):
        k = m - 1
        s = 2*k + a
        an = -a / (a + 2) if k == 0 else -a*a / (s * (s + 2))
        s = 2*m + a
        bn = 2 / s * np.sqrt((a + 1) / (a + 3)) if m == 1 else \
            2 / s * np.sqrt(m * m * (m + a)**2 / ((s - 1) * (s + 1)))
        p.append(((x - an * y) * p[-1] - bold * y * y * prev) / bn)
        prev, bold = p[-2], bn
    return p


def onb(simplex, d, n, x):
    """orthonormal polynomials of total degree <= n; the first one is constant"""
    if not simplex:
        P = [legendre(n, x[k]) for k in range(d)]
        for k in product(range(n + 1), repeat=d):
            if sum(k) <= n:
                yield k, np.prod([P[j][k[j]] for j in range(d)], axis=0)
        return
    if d == 2:
        r, s = x
        A = _jac(0, n, 2*(1 + r) - (1 - s), 1 - s)
        for i in range(n + 1):
            Bq = _jac(2*i + 1, n - i, s, np.ones_like(s))
            for j in range(n + 1 - i):
                yield (i, j), np.sqrt(2) * A[i] * Bq[j]
        return
    r, s, t = x
    w, u = -(s + t), 1 - t
    A = _jac(0, n, 2*(1 + r) - w, w)
    for i in range(n + 1):
        Bq = _jac(2*i + 1, n - i, 2*(1 + s) - u, u)
        for j in range(n + 1 - i):
            C = _jac(2*i + 2*j + 2, n - i - j, t, np.ones_like(t))
            for k in range(n + 1 - i - j):
                yield (i, j, k), 2*np.sqrt(2) * 2.0**i * A[i] * Bq[j] * C[k]


def _battery(rule, d):
    def h(B):
        import importlib
        import modepy as mp
        mod, cname = rule.rsplit(".", 1)
        cls = getattr(importlib.import_module(mod), cname)
        orders = sorted(set(_tables(rule, d)) | set(DOCUMENTED[rule, d]))
        simplex = rule != WV
        vol = 2.0**d / (factorial(d) if simplex else 1)
        for o in orders:
            okc, q = B.call("constructed", lambda: cls(o, d), order=o, dims=d)
            if not okc:
                continue
            n = q.exact_to
            x, w = q.nodes, q.weights
            t = dict(rule=cname, order=o, dims=d)
            if not B.ok("shapes", x.ndim == 2 and x.shape == (d, len(w)) and w.ndim == 1
                        and q.dim == d, **t):
                continue
            B.ok("integer exactness, at least the order",
                 isinstance(n, (int, np.integer)) and n >= o, **t)
            if simplex:
                lam = np.vstack([(1 + x) / 2, 1 - ((1 + x) / 2).sum(0)])
                B.ok("nodes in the element", np.all(lam >= -1e-13), **t)
            else:
                B.ok("nodes in the element", np.all(np.abs(x) <= 1 + 1e-13), **t)
            B.ok("positive weights", np.all(w > 0), **t)
            B.ok("distinct nodes", len({tuple(np.round(c, 9)) for c in x.T}) == len(w), **t)
            for k, p in onb(simplex, d, n, x):
                B.close("integral of an orthonormal polynomial", (w * p).sum(),
                        np.sqrt(vol) if sum(k) == 0 else 0.0, 0, 2e-13, mode=k, **t)
            f = lambda y: np.cos(y[0]) + y[-1]**2         # noqa: E731
            B.close("applied", q(f), (w * f(x)).sum(), 1e-13, 1e-13, **t)
        have = set(_tables(rule, d))
        for o in list(range(-3, 70)) + [10**6, 1.5]:
            if o not in have:
                B.raises("no table", mp.QuadratureRuleUnavailable, lambda: cls(o, d),
                         rule=cname, order=o, dims=d)
        for bad in (-1, 0, 1, 2, 3, 4, 5):
            if bad not in TABLES[rule]:
                for o in (1, 2, 3, 5):
                    B.raises("no tables in this dimension", mp.QuadratureRuleUnavailable,
                             lambda: cls(o, bad), rule=cname, order=o, dims=bad)
    return h


for _r in TABLES:
    for _d in TABLES[_r]:
        CHECK.battery(f"every {_r.rsplit('.', 1)[1]} table, {_d}d",
                      functions=[_r + ".__init__"])(_battery(_r, _d))

# }}}
