"""C14: transformed and transplanted one-dimensional rules."""
import sys
from fractions import Fraction

import mpmath
import numpy as np

from pyvc import evalt, terms as T
from pyvc.sym import SArr, SNum, SSeq, asarr, lift, wrap, new_array, snapshot, F8
from .base import Check

CHECK = Check(
    "C14", level="proof",
    trusted=["differentiation rules of +, *, powers, asin, atanh and of the Jacobi elliptic "
             "function sn (sn' = cn dn), and sn(K(m), m) = 1",
             "a function whose derivative is positive increases",
             "scipy.special.ellipj/ellipk compute the Jacobi elliptic functions and the complete "
             "integral"],
    assumptions=["scipy.special.ellipj loses accuracy for parameters within 1e-10 of 1, so the "
                 "strip map is evaluated for rho >= 1.15",
                 "the strip map's parameter solver is decided by concrete evaluation (it only "
                 "selects m; the map is a change of variables for every m in (0, 1))",
                 "floating point is treated as real arithmetic"],
    bounded=["modepy.quadrature.transplanted._strip_map_parameter_m: 40 values of rho"])

Q = "modepy.quadrature."
TR = Q + "Transformed1DQuadrature.__init__"
TP = Q + "transplanted."


# {{{ affine

def _affine(two):
    def h(v, W):
        qm = W.modules["modepy.quadrature"]
        n = v.int("n", lo=0, sample=lambda r: r.randint(0, 3))
        x = v.array("x", (1, n) if two else (n,))
        w = v.array("w", (n,))
        rx, rw = snapshot(x), snapshot(w)
        a, b = v.real("a"), v.real("b")
        e = v.int("e", lo=0)
        base = qm.Quadrature(x, w, e)
        A, B = lift(a), lift(b)
        try:
            q = qm.Transformed1DQuadrature(base, a, b)
        except ValueError:
            v.prove("rejected only if the interval is empty", wrap(T.le(B, A)))
            v.cover("rejected")
            return
        v.prove("accepted only if the interval is not empty", wrap(T.lt(A, B)))

        def pt(*i):
            return T.add(A, T.mul(T.div(T.sub(B, A), T.num(2)),
                                  T.add(rx(tuple(lift(z) for z in i)), T.ONE)))
        v.prove_array("nodes", q.nodes, x.shape, lambda *i: wrap(pt(*i)))
        jac = T.div(T.sub(B, A), T.num(2))
        v.prove_array("weights", q.weights, (n,),
                      lambda i: wrap(T.mul(jac, rw((lift(i),)))))
        v.prove_eq("exactness", q.exact_to, e)
        v.prove_eq("left", q.left, a)
        v.prove_eq("right", q.right, b)

        def f(y):
            r = snapshot(y)
            return new_array((n,), lambda i: T.app("f", r((T.num(0), *i) if two else i)), F8)
        u = T.fresh("i", "I")
        ix = (T.num(0), u) if two else (u,)
        v.prove_eq("change of variables", q(f), wrap(T.binder(
            "sum", u, T.num(0), lift(n), T.mul(rw((u,)), T.app("f", pt(*ix)), jac))))
        v.prove_array("rule unmodified: nodes", base.nodes, x.shape,
                      lambda *i: wrap(rx(tuple(lift(z) for z in i))))
        v.prove_array("rule unmodified: weights", base.weights, (n,),
                      lambda i: wrap(rw((lift(i),))))
        v.cover("end")
    return h


for _two in (False, True):
    CHECK.vc(f"affine, nodes {'(1, n)' if _two else '(n,)'}", functions=[TR, Q +
                                                                         "Quadrature.__call__"])(
        _affine(_two))


@CHECK.vc("affine, exactness unknown", functions=[TR])
def _(v, W):
    qm = W.modules["modepy.quadrature"]
    n = v.int("n", lo=0)
    q = qm.Transformed1DQuadrature(qm.Quadrature(v.array("x", (n,)), v.array("w", (n,))), 0, 1)
    try:
        q.exact_to
    except AttributeError:
        v.ok("unknown")
    else:
        v.fail("unknown")
    v.cover("end")

# }}}


# {{{ calculus

def ddiff(t, u):
    if u not in t.fv:
        return T.num(0)
    if t is u:
        return T.ONE
    if t.op == "add":
        return T.add(*[ddiff(x, u) for x in t.args])
    if t.op == "mul":
        return T.add(*[T.mul(*t.args[:k], ddiff(x, u), *t.args[k + 1:])
                       for k, x in enumerate(t.args) if u in x.fv])
    if t.op == "pow" and u not in t.args[1].fv:
        b, e = t.args
        return T.mul(e, T.pow_(b, T.sub(e, T.ONE)), ddiff(b, u))
    if t.op == "sum" and u not in t.args[1].fv | t.args[2].fv:
        k = T.fresh("k", "I")
        return T.binder("sum", k, t.args[1], t.args[2],
                        ddiff(T.subst(t.args[3], {t.args[0]: k}), u))
    if t.op == "app":
        nm, *a = t.args
        if nm == "asin":
            return T.div(ddiff(a[0], u), T.sqrt(T.sub(T.ONE, T.mul(a[0], a[0]))))
        if nm == "atanh":
            return T.div(ddiff(a[0], u), T.sub(T.ONE, T.mul(a[0], a[0])))
        if nm == "SN" and u not in a[1].fv:
            return T.mul(T.app("CN", *a), T.app("DN", *a), ddiff(a[0], u))
    raise NotImplementedError(f"derivative of {t.op} {t.args[0] if t.op == 'app' else ''}")


def _at(arr, i):
    return snapshot(asarr(arr))((lift(i),))


def _input(v, sub=False):
    """an array of points of (-1, 1)"""
    n = v.int("n", lo=1, sample=lambda r: r.randint(1, 3))
    s = v.array("s", (n,))
    rd = snapshot(s)
    i = v.int("i", lo=0, sample=lambda r: r.randint(0, 3))
    v.assume(i < n)
    u = rd((lift(i),))
    assert u.op == "app"
    v.axiom(u.args[0], lambda *k: [T.lt(T.num(-1), T.app(u.args[0], *k)),
                                   T.lt(T.app(u.args[0], *k), T.ONE)])
    return n, s, rd, i, u


def check_map(v, call, positive=None):
    """value g_i depends on s_i only, derivative exact, fixes -1, 0, 1, odd, increasing"""
    n, s, rd, i, u = _input(v)
    g, gp = call(s)
    gi, gpi = g[i], gp[i]
    v.prove("shapes", T.TRUE if g.ndim == 1 and gp.ndim == 1 else T.FALSE)
    v.prove_eq("extent of the nodes", wrap(lift(g.shape[0])), n)
    v.prove_eq("extent of the jacobian", wrap(lift(gp.shape[0])), n)
    z = T.fresh("z", "R")
    G = T.subst(lift(gi), {u: z})
    v.prove("pointwise", T.TRUE if not any(
        t.op == "app" and t.args[0] == u.args[0] for t in T.subterms(G)) else T.FALSE)
    v.prove_eq("the weight factor is the derivative of the map",
               gpi, wrap(T.subst(ddiff(G, z), {z: u})))
    if positive is None:
        v.prove("increasing", wrap(T.lt(T.num(0), lift(gpi))))
    v.prove_array("nodes unmodified", s, (n,), lambda k: wrap(rd((lift(k),))))
    return G, z, gpi


def fixed(v, call, pts=(-1, 0, 1)):
    x = new_array((len(pts),), lambda k: _sel(k[0], pts), F8)
    g, _ = call(x)
    for k, p in enumerate(pts):
        v.prove_eq(f"fixes {p}", g[k], p)


def _sel(k, pts):
    r = T.num(pts[-1])
    for j in range(len(pts) - 2, -1, -1):
        r = T.ite(T.eq(k, T.num(j)), T.num(pts[j]), r)
    return r if k.op != "num" else T.num(pts[int(k.args[0])])


def odd(v, call):
    n = v.int("no", lo=1, sample=lambda r: r.randint(1, 3))
    s = v.array("so", (n,))
    rd = snapshot(s)
    g, gp = call(s)
    h, hp = call(new_array((n,), lambda k: T.neg(rd(k)), F8))
    g, gp = snapshot(asarr(g)), snapshot(asarr(gp))
    v.prove_array("odd", h, (n,), lambda k: wrap(T.neg(g((lift(k),)))))
    v.prove_array("even derivative", hp, (n,), lambda k: wrap(gp((lift(k),))))

# }}}


@CHECK.vc("identity map", functions=[TP + "map_identity"])
def _(v, W):
    f = W.modules[TP[:-1]].map_identity
    check_map(v, f)
    fixed(v, f)
    odd(v, f)
    n, s, rd, i, u = _input(v)
    g, _ = f(s)
    v.prove_array("identity", g, (n,), lambda k: wrap(rd((lift(k),))))
    g[i] = 7
    v.prove_array("the result is a copy", s, (n,), lambda k: wrap(rd((lift(k),))))
    v.cover("end")


# {{{ Kosloff-Tal-Ezer

KTE = TP + "map_kosloff_tal_ezer"


@CHECK.vc("Kosloff-Tal-Ezer map", functions=[KTE])
def _(v, W):
    f = W.modules[TP[:-1]].map_kosloff_tal_ezer
    al = v.real("alpha", sample=lambda r: mpmath.mpf(r.randint(1, 49)) / 50)
    A = lift(al)
    try:
        f(v.array("t", (2,)), alpha=al)
    except ValueError:
        v.prove("rejected only outside (0, 1)", wrap(T.or_(T.le(A, T.num(0)), T.le(T.ONE, A))))
        v.cover("rejected")
        return
    v.prove("accepted only inside (0, 1)", wrap(T.and_(T.lt(T.num(0), A), T.lt(A, T.ONE))))

    def call(s):
        return f(s, alpha=al)
    G, z, _ = check_map(v, call)
    v.prove_eq("the stated map", wrap(G), wrap(T.div(T.app("asin", T.mul(A, z)),
                                                     T.app("asin", A))))
    fixed(v, call)
    odd(v, call)
    v.cover("end")


@CHECK.vc("Kosloff-Tal-Ezer map: parameter from rho", functions=[KTE])
def _(v, W):
    f = W.modules[TP[:-1]].map_kosloff_tal_ezer
    rho = v.real("rho", sample=lambda r: mpmath.mpf(r.randint(51, 200)) / 50)
    n = v.int("n", lo=0, sample=lambda r: 2)
    s = v.array("s", (n,))
    R = lift(rho)
    try:
        g, gp = f(s, rho=rho)
    except ValueError:
        v.prove("rejected only up to 1", wrap(T.le(R, T.ONE)))
        v.cover("rejected")
        return
    v.prove("accepted only above 1", wrap(T.lt(T.ONE, R)))
    al = wrap(T.div(T.num(2), T.add(R, T.div(T.ONE, R))))
    h, hp = f(s, alpha=al)
    h, hp = snapshot(asarr(h)), snapshot(asarr(hp))
    v.prove_array("alpha = 2/(rho + 1/rho)", g, (n,), lambda k: wrap(h((lift(k),))))
    v.prove_array("alpha = 2/(rho + 1/rho), derivative", gp, (n,), lambda k: wrap(hp((lift(k),))))
    v.cover("end")

# }}}


# {{{ sausage

SAU = TP + "map_sausage"
ARC = TP + "_arcsin_taylor_coefficients"


def AC(k):
    return T.app("AC", lift(k))


@evalt.interp("AC")
def _ac(k):
    k = int(k)
    return mpmath.binomial(2*k, k) / mpmath.mpf(4)**k / (2*k + 1)


def ac_def(v):
    """Taylor coefficient of s^(2k+1) in arcsin(s)"""
    def fn(k):
        if v.entails(T.eq(k, T.num(0))):
            return T.ONE
        if v.entails(T.le(T.ONE, k)):
            m = T.sub(k, T.ONE)
            o = T.add(T.mul(T.num(2), m), T.ONE)
            return T.div(T.mul(AC(m), o, o),
                         T.mul(T.num(2), k, T.add(o, T.num(2))))
        return None
    return (0, fn)


@CHECK.vc("Taylor coefficients of arcsin", functions=[ARC])
def _(v, W):
    f = getattr(W.modules[TP[:-1]], "_arcsin_taylor_coefficients")
    v.defs["AC"] = ac_def(v)
    v.hint_fns["_arcsin_taylor_coefficients"] = [lambda j: wrap(AC(j))]
    d = v.int("degree", sample=lambda r: 2*r.randint(0, 4) + 1)
    D = lift(d)
    bad = T.or_(T.lt(D, T.ONE), T.eq(T.imod(D, T.num(2)), T.num(0)))
    try:
        r = f(d)
    except ValueError:
        v.prove("rejected only if even or not positive", wrap(bad))
        v.cover("rejected")
        return
    v.prove("accepted only if odd and positive", wrap(T.not_(bad)))
    from pyvc.runtime import b_len
    K = T.idiv(T.add(D, T.ONE), T.num(2))
    v.prove_eq("number of terms", b_len(r), wrap(K))
    i = v.int("i", lo=0, sample=lambda r: r.randint(0, 3))
    v.assume(wrap(T.lt(lift(i), K)))
    if isinstance(r, tuple):
        for j, c in enumerate(r):
            v.prove_eq("coefficient", c, wrap(AC(j)))
    else:
        v.prove_eq("coefficient", r[i], wrap(AC(i)))
    v.cover("end")


@CHECK.vc("Taylor coefficients of arcsin are positive (induction)")
def _(v, W):
    v.defs["AC"] = ac_def(v)
    k = v.int("k", lo=1)
    v.prove("base", wrap(T.lt(T.num(0), T.ONE)))
    m = T.sub(lift(k), T.ONE)
    v.assume(wrap(T.lt(T.num(0), AC(m))))
    d = ac_def(v)[1](lift(k))
    v.prove("step", wrap(T.lt(T.num(0), d)))
    v.cover("end")


def _sausage_stub(v, W):
    K = v.int("nterms", lo=1, sample=lambda r: r.randint(1, 4))
    v.axiom("AC", lambda k: [T.or_(T.lt(k, T.num(0)), T.lt(T.num(0), AC(k)))])

    def coeffs(degree):
        v.prove_eq("the requested degree", degree, wrap(T.sub(T.mul(T.num(2), lift(K)), T.ONE)))
        return SSeq(lift(K), lambda i: wrap(AC(i)), tuple)
    W.patch(ARC, coeffs)
    return K, wrap(T.sub(T.mul(T.num(2), lift(K)), T.ONE))


@CHECK.vc("sausage map, any odd degree", functions=[SAU], uses=[ARC])
def _(v, W):
    f = W.modules[TP[:-1]].map_sausage
    K, deg = _sausage_stub(v, W)

    def call(s):
        return f(s, deg)
    G, z, gpi = check_map(v, call)
    k = T.fresh("k", "I")
    o = T.add(T.mul(T.num(2), k), T.ONE)
    tot = T.binder("sum", k, T.num(0), lift(K), AC(k))
    v.prove_eq("normalised Taylor polynomial", wrap(G), wrap(T.div(
        T.binder("sum", k, T.num(0), lift(K), T.mul(AC(k), T.pow_(z, o))), tot)))
    v.cover("end")


def _sausage(deg):
    def h(v, W):
        f = W.modules[TP[:-1]].map_sausage

        def call(s):
            return f(s, deg)
        check_map(v, call)
        fixed(v, call)
        odd(v, call)
        v.cover("end")
    return h


for _d in range(1, 32, 2):
    CHECK.vc(f"sausage map of degree {_d}", functions=[SAU, ARC])(_sausage(_d))

# }}}


# {{{ strip

STRIP = TP + "map_strip"


class Special:
    @staticmethod
    def ellipk(m):
        return wrap(T.app("ellipK", lift(m)))

    @staticmethod
    def ellipj(u, m):
        r = snapshot(asarr(u))
        n = asarr(u)._shape
        return tuple(new_array(n, lambda i, f=f: T.app(f, r(i), lift(m)), F8)
                     for f in ("SN", "CN", "DN", "AM"))


def _strip_setup(v, W):
    W.overrides["scipy.special"] = Special
    m, rho = v.real("m", sample=lambda r: mpmath.mpf(r.randint(1, 49)) / 50), v.real("rho")
    v.assume(m > 0)
    v.assume(m < 1)

    def param(r):
        v.prove_eq("the requested rho", r, rho)
        return m
    W.patch(TP + "_strip_map_parameter_m", param)
    return m, rho


@CHECK.vc("strip map", functions=[STRIP], uses=[TP + "_strip_map_parameter_m"])
def _(v, W):
    f = W.modules[TP[:-1]].map_strip
    m, rho = _strip_setup(v, W)
    G, z, gpi = check_map(v, lambda s: f(s, rho=rho), positive=False)
    M = lift(m)
    m4 = T.sqrt(T.sqrt(M))
    om = T.div(T.mul(T.num(2), T.app("ellipK", M), T.app("asin", z)), T.app("pi"))
    v.prove_eq("the stated map", wrap(G), wrap(T.div(
        T.app("atanh", T.mul(m4, T.app("SN", om, M))), T.app("atanh", m4))))
    v.cover("end")


@CHECK.vc("strip map needs interior nodes", functions=[STRIP])
def _(v, W):
    f = W.modules[TP[:-1]].map_strip
    m, rho = _strip_setup(v, W)
    for k in range(3):
        s = v.array(f"s{k}", (3,))
        u = lift(s[k])
        side = v.choose(f"side{k}")
        v.assume(wrap(T.le(T.ONE, u) if side else T.le(u, T.num(-1))))
        try:
            f(s, rho=rho)
        except ValueError:
            v.ok("ValueError")
        else:
            v.fail("ValueError")
    v.cover("end")

# }}}


# {{{ transplanting

TQ = TP + "transplanted_1d_quadrature"


def _transplant(two):
    def h(v, W):
        qm, tm = W.modules["modepy.quadrature"], W.modules[TP[:-1]]
        n = v.int("n", lo=0, sample=lambda r: r.randint(0, 3))
        x = v.array("x", (1, n) if two else (n,))
        w = v.array("w", (n,))
        rx, rw = snapshot(x), snapshot(w)
        e = v.int("e", lo=0)
        base = qm.Quadrature(x, w, e)

        def mp(s):
            v.prove_array("the map receives the nodes", s, (n,), lambda i: wrap(
                rx((T.num(0), lift(i)) if two else (lift(i),))))
            r = snapshot(s)
            return new_array((n,), lambda i: T.app("g", r(i)), F8), \
                new_array((n,), lambda i: T.app("gp", r(i)), F8)

        def nd(*i):
            return rx(tuple(lift(z) for z in i))
        q = tm.transplanted_1d_quadrature(base, mp)
        v.prove_array("nodes", q.nodes, x.shape, lambda *i: wrap(T.app("g", nd(*i))))
        v.prove_array("weights", q.weights, (n,), lambda i: wrap(T.mul(
            rw((lift(i),)), T.app("gp", nd(0, i) if two else nd(i)))))
        try:
            q.exact_to
        except AttributeError:
            v.ok("exactness is lost")
        else:
            v.fail("exactness is lost")
        q = tm.transplanted_1d_quadrature(base, tm.map_identity)
        v.prove_array("identity: nodes", q.nodes, x.shape, lambda *i: wrap(nd(*i)))
        v.prove_array("identity: weights", q.weights, (n,), lambda i: wrap(rw((lift(i),))))
        v.prove_eq("identity: exactness", q.exact_to, e)
        q = tm.transplanted_1d_quadrature(qm.Quadrature(x, w), tm.map_identity)
        try:
            q.exact_to
        except AttributeError:
            v.ok("exactness was not known")
        else:
            v.fail("exactness was not known")
        v.prove_array("rule unmodified: nodes", base.nodes, x.shape, lambda *i: wrap(nd(*i)))
        v.prove_array("rule unmodified: weights", base.weights, (n,),
                      lambda i: wrap(rw((lift(i),))))
        v.cover("end")
    return h


for _two in (False, True):
    CHECK.vc(f"transplanted rule, nodes {'(1, n)' if _two else '(n,)'}",
             functions=[TQ, TP + "map_identity"])(_transplant(_two))


@CHECK.vc("transplanting needs one dimension", functions=[TQ])
def _(v, W):
    qm, tm = W.modules["modepy.quadrature"], W.modules[TP[:-1]]
    n, d = v.int("n", lo=0), v.int("d", lo=0)
    v.assume(d != 1)
    try:
        tm.transplanted_1d_quadrature(qm.Quadrature(v.array("x", (d, n)), v.array("w", (n,))),
                                      tm.map_identity)
    except ValueError:
        v.ok("ValueError")
    else:
        v.fail("ValueError")
    v.cover("end")


@CHECK.vc("transplanted Legendre-Gauss", functions=[TP + "transplanted_legendre_gauss_quadrature"])
def _(v, W):
    qm, tm = W.modules["modepy.quadrature"], W.modules[TP[:-1]]
    jg = W.modules["modepy.quadrature.jacobi_gauss"]
    N, n = v.int("N", lo=0), v.int("n", lo=1, sample=lambda r: r.randint(1, 3))
    x, w = v.array("x", (1, n)), v.array("w", (n,))
    log = []

    def stub(order, backend=None, force_dim_axis=False):
        log.append((order, backend, force_dim_axis))
        return qm.Quadrature(x if force_dim_axis else x.reshape(-1), w, 3)
    jg.LegendreGaussQuadrature = stub
    rx, rw = snapshot(x), snapshot(w)

    def mp(s):
        r = snapshot(s)
        return new_array((n,), lambda i: T.app("g", r(i)), F8), \
            new_array((n,), lambda i: T.app("gp", r(i)), F8)
    for be in (None, "builtin"):
        for fda in (False, True):
            q = tm.transplanted_legendre_gauss_quadrature(N, mp, backend=be, force_dim_axis=fda)
            v.prove_eq("order", log[-1][0], N)
            v.prove("backend", T.TRUE if log[-1][1] == be else T.FALSE)
            v.prove_array("nodes", q.nodes, (1, n) if fda else (n,), lambda *i: wrap(
                T.app("g", rx((T.num(0), lift(i[-1]))))))
            v.prove_array("weights", q.weights, (n,), lambda i: wrap(T.mul(
                rw((lift(i),)), T.app("gp", rx((T.num(0), lift(i)))))))
    v.cover("end")

# }}}


# {{{ battery

def _rules():
    import modepy as mp
    r = np.random.RandomState(3)
    return {"lg3": mp.LegendreGaussQuadrature(3), "lg4d": mp.LegendreGaussQuadrature(
        4, force_dim_axis=True), "lg0": mp.LegendreGaussQuadrature(0),
        "gll2": mp.LegendreGaussLobattoQuadrature(2), "cc5": mp.ClenshawCurtisQuadrature(5),
        "fejer3": mp.FejerQuadrature(3), "jg": mp.JacobiGaussQuadrature(0.5, -0.25, 3),
        "rnd": mp.Quadrature(r.uniform(-1, 1, 4), r.uniform(-1, 2, 4)),
        "rndd": mp.Quadrature(r.uniform(-1, 1, (1, 4)), r.uniform(-1, 2, 4), 2)}


@CHECK.battery("affine", functions=[TR])
def _(B):
    from modepy.quadrature import Transformed1DQuadrature
    for name, q in _rules().items():
        x0, w0 = q.nodes.copy(), q.weights.copy()
        for a, b in [(-1, 1), (0, 1), (2, 5), (-3, -2.5), (0.1, 0.1 + 1e-8), (-1e6, 3e6), (1, 2),
                     (-7, 11)]:
            inp = dict(rule=name, a=a, b=b)
            okc, t = B.call("constructed", lambda: Transformed1DQuadrature(q, a, b), **inp)
            if not okc:
                continue
            B.close("nodes", t.nodes, a + (b - a) * (x0 + 1) / 2, 1e-14, 1e-14 * (abs(a) + abs(b)),
                    **inp)
            B.close("weights", t.weights, w0 * (b - a) / 2, 1e-13, 0, **inp)
            B.close("length", t(lambda y: 1 + 0*y.reshape(-1)), w0.sum() * (b - a) / 2, 1e-13, 1e-13,
                    **inp)
            f = lambda y: np.cos(y.reshape(-1) / (b - a))      # noqa: E731
            B.close("change of variables", t(f), (b - a) / 2 * q(
                lambda y: f(a + (b - a) * (y + 1) / 2)), 1e-12, 1e-12, **inp)
            B.equal("exactness", getattr(t, "exact_to", None), getattr(q, "exact_to", None), **inp)
            B.ok("rule unmodified", np.array_equal(q.nodes, x0) and np.array_equal(q.weights, w0),
                 **inp)
        for a, b in [(1, 1), (2, 1), (0, 0), (1, -1), (0.0, -0.0)]:
            B.raises("empty", ValueError, lambda: Transformed1DQuadrature(q, a, b), rule=name,
                     a=a, b=b)


def _maps(thorough):
    from functools import partial
    from modepy.quadrature import transplanted as t
    out = [("identity", t.map_identity, lambda s: s)]

    def sau(d):
        c = [mpmath.binomial(2*k, k) / mpmath.mpf(4)**k / (2*k + 1) for k in range((d + 1) // 2)]
        return lambda s: sum(ck * s**(2*k + 1) for k, ck in enumerate(c)) / sum(c)
    for d in range(1, 42 if thorough else 24, 2):
        out.append((f"sausage {d}", partial(t.map_sausage, degree=d), sau(d)))

    def kte(a):
        a = mpmath.mpf(a)
        return lambda s: mpmath.asin(a*s) / mpmath.asin(a)
    for a in (1e-8, 0.01, 0.3, 0.5, 0.9, 0.99, 1 - 1e-9):
        out.append((f"kte alpha {a}", partial(t.map_kosloff_tal_ezer, alpha=a), kte(a)))
    for r in (1.001, 1.1, 1.4, 2, 3, 50, 1e4):
        R = mpmath.mpf(r)
        out.append((f"kte rho {r}", partial(t.map_kosloff_tal_ezer, rho=r), kte(2/(R + 1/R))))
    out.append(("kte default", t.map_kosloff_tal_ezer, kte(2/(mpmath.mpf(1.4) + 1/mpmath.mpf(1.4)))))

    def strip(m):
        m = mpmath.mpf(m)
        K, m4 = mpmath.ellipk(m), mpmath.root(m, 4)

        def g(s):
            return mpmath.atanh(m4 * mpmath.ellipfun("sn", 2*K*mpmath.asin(s)/mpmath.pi, m=m)) \
                / mpmath.atanh(m4)
        return g
    for r in (1.15, 1.2, 1.4, 1.7, 2, 3, 5, 10, 40):
        out.append((f"strip {r}", partial(t.map_strip, rho=r),
                    strip(mpmath.mfrom(q=mpmath.mpf(r)**-4))))
    out.append(("strip default", t.map_strip, strip(mpmath.mfrom(q=mpmath.mpf(1.4)**-4))))
    return out


@CHECK.battery("maps", functions=[SAU, KTE, STRIP, ARC, TP + "map_identity"], timeout=600)
def _(B):
    mpmath.mp.dps = 40
    pts = [0.0, 1e-9, 0.01, 0.2, 0.37, 0.5, 0.75, 0.9, 0.97, 0.999]
    try:
        for name, f, g in _maps(B.thorough):
            s = np.array(sorted([-p for p in pts if p] + pts))
            s0 = s.copy()
            okc, r = B.call("evaluates", lambda: f(s), map=name)
            if not okc:
                continue
            x, j = r
            B.ok("shapes", x.shape == s.shape and j.shape == s.shape, map=name)
            B.ok("argument unmodified", np.array_equal(s, s0), map=name)
            B.ok("result is new", not np.shares_memory(x, s) and not np.shares_memory(j, s),
                 map=name)
            B.close("odd", x, -x[::-1], 1e-12, 1e-15, map=name)
            B.ok("increasing", np.all(np.diff(x) > 0), map=name)
            B.ok("positive derivative", np.all(j > 0), map=name)
            loose = 1e-6 if name.startswith("strip") else 1e-11
            for k, p in enumerate(s):
                P = mpmath.mpf(float(p))
                B.close("value", x[k], float(g(P)), loose, 1e-15, map=name, s=float(p))
                h = mpmath.mpf(10)**-12
                d = (g(P + h) - g(P - h)) / (2*h)
                B.close("derivative", j[k], float(mpmath.re(d)), loose, 1e-14, map=name,
                        s=float(p))
            if name.startswith("strip"):
                for bad in ([1.0], [0.0, -1.0], [2.0, 0.3]):
                    B.raises("interior nodes", ValueError, lambda: f(np.array(bad)), map=name,
                             s=bad)
                e = np.array([-1 + 1e-9, 1 - 1e-9])
                B.close("end points", f(e)[0], [-1, 1], 0, 1e-3, map=name)
            else:
                e = np.array([-1.0, 0.0, 1.0])
                B.close("fixed points", f(e)[0], e, 1e-14, 0, map=name)
            for shape in [(0,), (1,), (4,)]:
                t = B.nprng.uniform(-0.9, 0.9, shape)
                B.close("pointwise", f(t)[0], np.array([f(np.array([y]))[0][0] for y in t]),
                        1e-13, 1e-15, map=name, shape=shape)
    finally:
        mpmath.mp.dps = 15


@CHECK.battery("parameters", functions=[SAU, KTE, STRIP, TP + "_strip_map_parameter_m"])
def _(B):
    from modepy.quadrature import transplanted as t
    s = np.linspace(-0.9, 0.9, 5)
    for d in (0, 2, -1, -3, 4, 10, -2):
        B.raises("degree", ValueError, lambda: t.map_sausage(s, d), degree=d)
    for a in (0.0, 1.0, -0.5, 1.5, float("nan"), float("inf"), -float("inf"), 0, 1, 2):
        B.raises("alpha", ValueError, lambda: t.map_kosloff_tal_ezer(s, alpha=a), alpha=a)
    for r in (1.0, 0.5, 0.0, -2.0, 1):
        B.raises("rho", ValueError, lambda: t.map_kosloff_tal_ezer(s, rho=r), rho=r)
        B.raises("rho", ValueError, lambda: t.map_strip(s, rho=r), rho=r)
    from scipy.special import ellipk
    for r in np.exp(np.linspace(np.log(1.09), np.log(200), 40)):
        m = B.private(t, "_strip_map_parameter_m", float(r))
        if m is not None:
            B.ok("in (0, 1)", 0 < m < 1, rho=float(r))
            if 1e-6 < m < 1 - 1e-6:
                B.close("defining equation", ellipk(1 - m) / ellipk(m), 4*np.log(r)/np.pi, 1e-5, 0,
                        rho=float(r))


@CHECK.battery("transplanted rules", functions=[TQ])
def _(B):
    import modepy as mp
    from modepy.quadrature import transplanted as t
    for rn, q in _rules().items():
        x0, w0 = q.nodes.copy(), q.weights.copy()
        for mn, f, _ in _maps(False):
            if mn.startswith("strip") and np.any(np.abs(x0) >= 1):
                B.raises("interior nodes", ValueError, lambda: t.transplanted_1d_quadrature(q, f),
                         rule=rn, map=mn)
                continue
            okc, r = B.call("rule", lambda: t.transplanted_1d_quadrature(q, f), rule=rn, map=mn)
            if not okc:
                continue
            g, j = f(x0.reshape(-1))
            B.close("nodes", r.nodes, g.reshape(x0.shape), 1e-14, 1e-15, rule=rn, map=mn)
            B.close("weights", r.weights, w0 * j, 1e-14, 1e-15, rule=rn, map=mn)
            B.equal("exactness", getattr(r, "exact_to", None),
                    getattr(q, "exact_to", None) if mn == "identity" else None, rule=rn,
                    map=mn)
            B.ok("rule unmodified", np.array_equal(q.nodes, x0) and np.array_equal(q.weights, w0),
                 rule=rn, map=mn)
            B.ok("fresh nodes", not np.shares_memory(r.nodes, q.nodes), rule=rn, map=mn)
    for mn, f, _ in _maps(False):
        if "1e-09" in mn:
            continue
        q = t.transplanted_legendre_gauss_quadrature(120, f)
        B.close("integral of exp", q(np.exp), np.exp(1) - np.exp(-1), 1e-6 if "99" not in mn
                and "1.001" not in mn else 1e-2, 0, map=mn)
    for q in (mp.XiaoGimbutasSimplexQuadrature(2, 2), mp.quadrature.ZeroDimensionalQuadrature(),
              mp.GrundmannMoellerSimplexQuadrature(1, 3)):
        B.raises("not one-dimensional", ValueError, lambda: t.transplanted_1d_quadrature(
            q, t.map_identity), rule=type(q).__name__)

# }}}
