"""C23: symbolic expressions of basis functions denote the numeric functions."""
from itertools import product

import numpy as np

from pyvc import terms as T
from pyvc.sym import SNum, SBool, lift, wrap, new_array, snapshot, F8, OBJ, elemnum
from . import spec as S
from .base import Check
from .c01 import _params
from .c02 import TOL, order_, simplex_points, _pick
from .c03 import VARS, bases_zoo, dmono

CHECK = Check(
    "C23", level="proof",
    trusted=["pymbolic: arithmetic on expressions builds nodes that denote the operation, "
             "CommonSubexpression denotes its child, If(Comparison(a, op, b), x, y) denotes x "
             "where a op b holds and y elsewhere, abs() of an expression the absolute value; "
             "make_sym_vector's entries denote the coordinates (battery-checked with pymbolic's "
             "own evaluator)"],
    assumptions=["floating point is treated as real arithmetic",
                 "points within 1e-9 of a collapsed vertex/edge, other than those on it, are "
                 "sampled by the battery only",
                 "callees jacobi and grad_jacobi are used through their contracts, proved here "
                 "for expressions and in C01 for numbers"],
    bounded=["tensor-product functions: factor-dimension lists of length <= 3 with entries <= 3 "
             "(factor functions arbitrary)"])

M = "modepy.modes."
OPS = {"==": T.eq, "<": T.lt, "<=": T.le, ">": lambda a, b: T.lt(b, a),
       ">=": lambda a, b: T.le(b, a), "!=": lambda a, b: T.not_(T.eq(a, b))}


class _ExprMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SNum) and x.t.sort == "R" and x.t.op != "num"


class ExpressionNode(metaclass=_ExprMeta):
    """every symbolic real number stands for the expression that denotes it"""


class Pymbolic:
    """pymbolic.primitives by denotation"""

    ExpressionNode = ExpressionNode
    Expression = ExpressionNode

    def __init__(self, v):
        self.v = v
        self.primitives = self
        self.coords = []
        from pymbolic.primitives import Comparison as C

        class Comparison:
            name_to_operator = C.name_to_operator

            def __new__(cls, a, op, b):
                return wrap(OPS[op](T.to_real(lift(a)), T.to_real(lift(b))))
        self.Comparison = Comparison

    @staticmethod
    def CommonSubexpression(expr, prefix=None, scope=None):  # noqa: N802
        return expr

    @staticmethod
    def If(cond, then, else_):  # noqa: N802
        c = lift(cond)
        return wrap(T.ite(c, T.to_real(lift(then)), T.to_real(lift(else_))))

    def make_sym_vector(self, name, n):
        self.coords = [self.v.real(f"{name}{k}") for k in range(n)]
        return new_array((n,), lambda i: _pick(self.coords, i[0]), OBJ)


def setup(v, W):
    p = Pymbolic(v)
    W.overrides["pymbolic.primitives"] = p
    W.overrides["pymbolic"] = p
    v.expressions = True
    return p


# {{{ helpers

@CHECK.vc("helpers of the symbolic evaluation", functions=[M + "_cse", M + "_where"])
def _(v, W):
    modes = W.modules["modepy.modes"]
    setup(v, W)
    x, y, a, b = (v.real(n) for n in "xyab")
    v.prove_eq("a common subexpression denotes its expression", modes._cse(x + y, "p"), x + y)
    v.prove("a number stays", T.TRUE if modes._cse(2.5, "p") == 2.5 else T.FALSE)
    arr = np.array([1., 2.])
    v.prove("an array stays", T.TRUE if modes._cse(arr, "p") is arr else T.FALSE)
    for op, rel in [("ge", lambda p, q: T.le(q, p)), ("gt", lambda p, q: T.lt(q, p)),
                    ("le", T.le), ("lt", T.lt), ("eq", T.eq),
                    ("ne", lambda p, q: T.not_(T.eq(p, q)))]:
        for p, q in ((x, y), (x, 1), (0.5, y)):
            r = modes._where(p, op, q, a, b)
            c = rel(T.to_real(lift(p)), T.to_real(lift(q)))
            v.prove_eq(f"guarded value, {op}", r, wrap(T.ite(c, lift(a), lift(b))))
    m = v.int("m", lo=0, sample=lambda r: r.randint(0, 3))
    xs = v.array("xs", (m,))
    ys = v.array("ys", (m,))
    rx, ry = snapshot(xs), snapshot(ys)
    v.prove_array("elementwise on arrays", modes._where(xs, "ge", 1, ys, -1), (m,),
                  lambda i: wrap(T.ite(T.le(T.num(1), rx((lift(i),))), ry((lift(i),)),
                                       T.num(-1))))
    v.cover("end")


@CHECK.vc("symbolicize_function", functions=[M + "symbolicize_function",
                                             M + "_unwrap_scalar_obj_array"])
def _(v, W):
    modes = W.modules["modepy.modes"]
    p = setup(v, W)
    np_ = W.np
    for d in (0, 1, 2, 3):
        def f(x, d=d):
            v.prove_eq("called with one coordinate per axis", x.shape[0], d)
            rd = snapshot(x)
            return wrap(T.app("f", *[rd((T.num(k),)) for k in range(d)]))

        def want(name="f"):
            return wrap(T.app(name, *[lift(c) for c in p.coords]))
        v.prove_eq(f"value, {d} coordinates", modes.symbolicize_function(f, d), want())
        r = modes.symbolicize_function(lambda x, f=f: np_.asarray(f(x)), d)
        if d:
            v.prove(f"scalar object arrays are unwrapped, {d} coordinates",
                    T.TRUE if isinstance(r, SNum) else T.FALSE)
        v.prove_eq(f"value of a scalar array, {d} coordinates",
                   r if isinstance(r, SNum) else elemnum(r), want())
        r = modes.symbolicize_function(lambda x, f=f: (f(x), np_.asarray(2 * f(x))), d)
        v.prove("components", T.TRUE if isinstance(r, tuple) and len(r) == 2 else T.FALSE)
        v.prove_eq("component 0", r[0], want())
        v.prove_eq("component 1", r[1] if isinstance(r[1], SNum) else elemnum(r[1]),
                   2 * want())
    v.cover("end")

# }}}


# {{{ Jacobi polynomials

def _jacobi(mode):
    def h(v, W):
        modes = W.modules["modepy.modes"]
        setup(v, W)
        a, b = _params(v, mode)
        n = v.int("n", lo=0, sample=lambda r: r.randint(0, 6))
        A, B, n_ = lift(a), lift(b), lift(n)
        v.defs["SP"] = S.sp_def(v)
        x = v.real("x", lo=-1, hi=1)
        v.hint_fns["jacobi"] = [lambda j: wrap(S.SP(A, B, lift(j), lift(x))),
                                lambda j: wrap(S.rec_b(A, B, lift(j)))]
        r = modes.jacobi(a, b, n, x)
        v.prove_eq("the expression denotes the orthonormal polynomial", r,
                   wrap(S.SP(A, B, n_, lift(x))))
        v.cover("end")
    return h


for _mode in ("general", "sum-1"):
    CHECK.vc(f"jacobi of an expression, {_mode}", functions=[M + "jacobi", M + "_cse"])(
        _jacobi(_mode))


@CHECK.vc("grad_jacobi of an expression", functions=[M + "grad_jacobi"], uses=[M + "jacobi"])
def _(v, W):
    modes = W.modules["modepy.modes"]
    setup(v, W)
    W.patch(M + "jacobi", S.jacobi_contract)
    a, b = v.real("a", lo=-1), v.real("b", lo=-1)
    n = v.int("n", lo=0, sample=lambda r: r.randint(0, 6))
    x = v.real("x", lo=-1, hi=1)
    A, B, n_, X = lift(a), lift(b), lift(n), lift(x)
    want = T.ite(T.eq(n_, S.ZERO), S.ZERO,
                 T.mul(T.sqrt(T.mul(n_, T.add(n_, A, B, S.ONE))),
                       S.SP(T.add(A, S.ONE), T.add(B, S.ONE), T.sub(n_, S.ONE), X)))
    v.prove_eq("the expression denotes the derivative", modes.grad_jacobi(a, b, n, x),
               wrap(want))
    v.cover("end")

# }}}


# {{{ simplex modes: the expression, built once, evaluated at generic and collapsed points

def located(v, d, k, coords):
    """{coordinate of the expression: value}, with the assumptions on a point of kind k"""
    c = [lift(x) for x in coords]
    if k == "generic":
        if d == 2:
            v.assume(1 - coords[1] >= TOL)
        if d == 3:
            v.assume(-(coords[1] + coords[2]) >= TOL)
            v.assume(1 - coords[2] >= TOL)
        return {}
    if k == "vertex":
        return dict(zip(c, [S.N_(-1)] * (d - 1) + [S.ONE]))
    v.assume(1 - coords[2] >= TOL)
    return {c[0]: S.N_(-1), c[1]: T.neg(c[2])}


def _cases(v, d, k, o):
    """(order, polynomial near the point or None where it vanishes to second order, lowest
    power of the vanishing factor)"""
    O = [lift(x) for x in o]
    V = VARS[:d]
    if d == 1:
        return o, S.SP(S.ZERO, S.ZERO, O[0], V[0])
    if k == "generic":
        return o, (S.pkdo2 if d == 2 else S.pkdo3)(*O, *V)
    if d == 2 or k == "edge":
        f = S.pkdo2_vertex if d == 2 else S.pkdo3_edge
        for i in (0, 1):
            if v.choose(f"i={i}"):
                return (i, *o[1:]), f(i, *O[1:], *V)
        v.assume(o[0] >= 2)
        return o, None
    for a, b in ((0, 0), (1, 0), (0, 1)):
        if v.choose(f"i={a},j={b}"):
            return (a, b, o[2]), S.pkdo3_vertex(a, b, O[2], *V)
    v.assume(o[0] + o[1] >= 2)
    return o, None


def _mode(d, k):
    def h(v, W):
        modes = W.modules["modepy.modes"]
        p = setup(v, W)
        W.patch(M + "jacobi", S.jacobi_contract)
        W.patch(M + "grad_jacobi", S.grad_jacobi_contract)
        v.defs.update(S.small_defs(v))
        o, poly = _cases(v, d, k, order_(v, d))
        V = VARS[:d]
        fn = {1: "_pkdo_1d", 2: "pkdo_2d", 3: "pkdo_3d"}[d]
        gn = {1: "_grad_pkdo_1d", 2: "grad_pkdo_2d", 3: "grad_pkdo_3d"}[d]
        f, g = getattr(modes, fn), getattr(modes, gn)

        def at(t, sub):
            return wrap(T.subst(lift(t), sub))
        r = modes.symbolicize_function(lambda x: f(o, x), d)
        sub = located(v, d, k, p.coords)
        X = [T.subst(lift(c), sub) for c in p.coords]
        want = S.ZERO if poly is None else T.subst(poly, dict(zip(V, X)))
        v.prove_eq(f"{fn}: the expression evaluates to the mode ({k})", at(r, sub), wrap(want))
        r = modes.symbolicize_function(lambda x: g(o, x), d)
        sub = located(v, d, k, p.coords)
        X = [T.subst(lift(c), sub) for c in p.coords]
        v.prove("one component per axis", T.TRUE if len(r) == d else T.FALSE)
        for ax in range(d):
            want = S.ZERO if poly is None else T.subst(S.diff(poly, V[ax]), dict(zip(V, X)))
            v.prove_eq(f"{gn}: component {ax} of the expression evaluates to the partial "
                       f"derivative ({k})", at(r[ax], sub), wrap(want))
        v.cover("end")
    return h


for _d, _k in ((1, "generic"), (2, "generic"), (2, "vertex"), (3, "generic"), (3, "edge"),
               (3, "vertex")):
    CHECK.vc(f"modes of the {_d}-simplex, {_k} points", functions=[
        M + "symbolicize_function", M + "_where", M + "_cse",
        M + {1: "_pkdo_1d", 2: "pkdo_2d", 3: "pkdo_3d"}[_d],
        M + {1: "_grad_pkdo_1d", 2: "grad_pkdo_2d", 3: "grad_pkdo_3d"}[_d]]
        + ([M + "_rstoab"] if _d == 2 else []) + ([M + "_rsttoabc"] if _d == 3 else []),
        uses=[M + "jacobi", M + "grad_jacobi"], timeout=200)(_mode(_d, _k))


def _mono(d):
    def h(v, W):
        modes = W.modules["modepy.modes"]
        p = setup(v, W)
        o = order_(v, d, "ijkl")
        O = [lift(x) for x in o]

        def el(r):
            return r if isinstance(r, SNum) else wrap(elemnum(r))
        r = modes.symbolicize_function(lambda x: modes.monomial(o, x), d)
        v.prove_eq("the expression evaluates to the monomial", el(r), wrap(T.mul(*[
            T.pow_(lift(c), e) for c, e in zip(p.coords, O)])))
        g = modes.symbolicize_function(lambda x: modes.grad_monomial(o, x), d)
        gc = p.coords
        v.prove("one component per axis", T.TRUE if len(g) == d else T.FALSE)
        for ax in range(d):
            v.prove_eq(f"gradient component {ax}", el(g[ax]),
                       wrap(dmono(O, [lift(c) for c in gc], ax)))
            r = modes.symbolicize_function(lambda x, ax=ax: modes.diff_monomial(o, ax, x), d)
            v.prove_eq(f"derivative {ax}", el(r), wrap(dmono(
                O, [lift(c) for c in p.coords], ax)))
        v.cover("end")
    return h


for _d in (1, 2, 3, 4):
    CHECK.vc(f"monomials, {_d} variables", functions=[
        M + "monomial", M + "grad_monomial", M + "diff_monomial", M + "_diff_monomial_1d",
        M + "symbolicize_function"])(_mono(_d))

# }}}


# {{{ tensor products

def _tp(dims):
    def h(v, W):
        modes = W.modules["modepy.modes"]
        p = setup(v, W)
        n = sum(dims)
        off = [sum(dims[:k]) for k in range(len(dims) + 1)]

        def F(k):
            def f(y):
                v.prove_eq(f"factor {k} gets its own coordinates", y.shape[0], dims[k])
                ry = snapshot(y)
                return wrap(T.app(f"F{k}", *[ry((S.N_(c),)) for c in range(dims[k])]))
            return f

        def G(k):
            def g(y):
                ry = snapshot(y)
                return tuple(wrap(T.app(f"G{k}", S.N_(j), *[
                    ry((S.N_(c),)) for c in range(dims[k])])) for j in range(dims[k]))
            return g
        bf = modes._TensorProductBasisFunction(
            tuple(range(len(dims))), tuple(F(k) for k in range(len(dims))),
            dims_per_function=dims)
        r = modes.symbolicize_function(bf, n)

        def fac(k, name, *j):
            return T.app(f"{name}{k}", *j, *[lift(c) for c in p.coords[off[k]:off[k + 1]]])
        v.prove_eq("product of the factors", r, wrap(T.mul(S.ONE, *[
            fac(k, "F") for k in range(len(dims))])))
        gb = modes._TensorProductGradientBasisFunction(
            tuple(range(len(dims))),
            tuple(tuple(G(k) if k == e else F(k) for k in range(len(dims)))
                  for e in range(len(dims))), dims_per_function=dims)
        g = modes.symbolicize_function(gb, n)
        v.prove("one component per axis", T.TRUE if len(g) == n else T.FALSE)
        for e in range(len(dims)):
            for j in range(dims[e]):
                v.prove_eq("derivative of the factor times the others", g[off[e] + j],
                           wrap(T.mul(S.ONE, *[
                               fac(k, "G", S.N_(j)) if k == e else fac(k, "F")
                               for k in range(len(dims))])))
        v.cover("end")
    return h


for _dims in [ds for _n in (1, 2, 3) for ds in product((1, 2, 3), repeat=_n)]:
    CHECK.vc(f"tensor products {_dims}", functions=[
        M + "_TensorProductBasisFunction.__call__",
        M + "_TensorProductGradientBasisFunction.__call__",
        M + "symbolicize_function"])(_tp(_dims))

# }}}


# {{{ battery: pymbolic's own evaluator

def _scalar_eval(expr, x):
    from pymbolic.mapper.evaluator import EvaluationMapper
    return EvaluationMapper({"r": x, "abs": abs})(expr)


def _points(name, d, rng):
    """points of the closed element, with the collapsed and nearly collapsed ones"""
    if "PN" in name and d in (1, 2, 3):
        return np.array(simplex_points(d, rng, 4))
    pts = []
    # products with simplices: vertices of the bounding cube that belong to every factor are
    # not known here; any point will do, the functions are polynomials
    for p in product((-1., 1., 0.25), repeat=d):
        pts.append(p)
    return np.array(pts[:40] + list(rng.uniform(-1, 1, (6, d)))).T


@CHECK.battery("every basis function and gradient", functions=[M + "symbolicize_function"],
               timeout=600)
def _(B):
    import modepy as mp
    rng = B.nprng

    def compare(what, expr, want, pts, **kw):
        # symbolic values may be plain numbers for constant functions
        got = np.array([_scalar_eval(expr, pts[:, k]) for k in range(pts.shape[1])], dtype=float)
        sc = max(1.0, np.abs(want).max(initial=0))
        B.close(what, got, np.broadcast_to(want, got.shape), 1e-9, 1e-9 * sc, **kw)

    zoo = list(bases_zoo(B.thorough))
    on, mo = mp.orthonormal_basis_for_space, mp.monomial_basis_for_space
    for mk in (on, mo):
        zoo.append((f"{mk.__name__} PN(2,7)", 2, mk(mp.PN(2, 7), mp.Simplex(2))))
        zoo.append((f"{mk.__name__} PN(1,9)", 1, mk(mp.PN(1, 9), mp.Simplex(1))))
        if B.thorough:
            zoo.append((f"{mk.__name__} PN(3,6)", 3, mk(mp.PN(3, 6), mp.Simplex(3))))
    for name, d, b in zoo:
        pts = _points(name, d, rng)
        if not B.thorough and pts.shape[1] > 30:
            keep = rng.permutation(pts.shape[1])[:30]
            keep = np.union1d(keep, np.arange(min(d + 2, pts.shape[1])))
            pts = pts[:, keep]
        fs, gs = b.functions, b.gradients
        qs = range(len(fs))
        if len(fs) > 20 and not B.thorough:
            qs = sorted(set([0, 1, 2, len(fs) - 1]) | set(rng.permutation(len(fs))[:14]))
        for q in qs:
            q = int(q)
            with np.errstate(all="ignore"):
                val, grad = fs[q](pts), gs[q](pts)
            ok, e = B.call("symbolicised function", lambda: mp.symbolicize_function(fs[q], d),
                           basis=name, q=q)
            if ok:
                compare("value of the expression", e, val, pts, basis=name, q=q)
            ok, e = B.call("symbolicised gradient", lambda: mp.symbolicize_function(gs[q], d),
                           basis=name, q=q)
            if ok:
                B.equal("components", len(e), d, basis=name, q=q)
                for ax in range(d):
                    compare("value of the gradient's expression", e[ax], grad[ax], pts,
                            basis=name, q=q, axis=ax)
        for ax in range(d):
            ds = b.derivatives(ax)
            for q in (0, len(fs) // 2, len(fs) - 1):
                ok, e = B.call("symbolicised derivative", lambda: mp.symbolicize_function(
                    ds[q], d), basis=name, q=q, axis=ax)
                if ok:
                    compare("value of the derivative's expression",
                            e[0] if isinstance(e, tuple) else e, ds[q](pts), pts,
                            basis=name, q=q, axis=ax)
    # another name for the coordinates
    f = on(mp.PN(2, 3), mp.Simplex(2)).functions[6]
    from pymbolic.mapper.evaluator import EvaluationMapper
    x = np.array([-.3, .1])
    B.close("named coordinates", EvaluationMapper({"xi": x, "abs": abs})(
        mp.symbolicize_function(f, 2, "xi")), f(x.reshape(2, 1))[0], 1e-12, 1e-12)
    # Jacobi polynomials directly
    from pymbolic import var
    for a, b2, n in [(0, 0, 0), (0, 0, 1), (.5, -.5, 4), (1, 0, 3), (-.5, -.5, 6), (2, 3, 5)]:
        for fn in (mp.jacobi, mp.grad_jacobi, ):
            e = fn(a, b2, n, var("y"))
            for x in (-1., -.4, .77, 1.):
                B.close("polynomial of an expression", EvaluationMapper({"y": x})(e),
                        fn(a, b2, n, x), 1e-11, 1e-11, alpha=a, beta=b2, n=n, x=x)

# }}}
