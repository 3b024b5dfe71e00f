"""C19: adaptive Gauss-Kronrod integration."""
import math

import numpy as np

from pyvc import evalt, norm, terms as T
from pyvc.sym import PList, SNum, SSeq, Unsupported, lift, wrap
from .base import Check
from .c14 import ddiff

CHECK = Check(
    "C19", level="proof",
    trusted=["heapq by contract (an unordered collection: the order of refinement does not "
             "matter for the property)", "substitution rule of integration",
             "a collection of equally oriented intervals with sum F(b) - F(a) = F(end) - "
             "F(start) for every F covers every point between them exactly once"],
    assumptions=["breakpoints are monotone, infinite ones come first or last",
                 "floating point is treated as real arithmetic (NaN and infinite estimates: any "
                 "number may be one)", "integrands are functions of the point"],
    bounded=["breakpoint lists with infinite ends: up to four breakpoints (the finite case: "
             "any number)"])

KR = "modepy.quadrature.kronrod."
MOD = "modepy.quadrature.kronrod"


def _f(x):
    return wrap(T.app("f", lift(x)))


def same(v, a, b):
    return v._eq_split(a, b, 0)[0] or v._eq_split(*v._pc_subst(a, b), 0)[0]


# {{{ one segment

def _evalrule(odd):
    def h(v, W):
        kr = W.modules[MOD]
        v.nonfinite = []
        p = v.int("p", lo=0 if odd else 1, sample=lambda r: r.randint(1, 3))
        n = 2 * p + 1 if odd else 2 * p
        # the tabulated half of the rule: n negative nodes and the centre; every second one is a
        # Gauss node
        x, w = v.array("x", (n + 1,)), v.array("w", (n + 1,))
        gw = v.array("g", (p + 1 if odd else p,))
        a, b = v.real("a"), v.real("b")
        A, B = lift(a), lift(b)
        s = T.div(T.sub(B, A), T.num(2))
        X = lambda i: T.app("x", i)     # noqa: E731
        Wt = lambda i: T.app("w", i)    # noqa: E731
        at = lambda y: T.app("f", T.add(A, T.mul(s, T.add(T.ONE, y))))    # noqa: E731
        pair = lambda i: T.add(at(X(i)), at(T.neg(X(i))))                 # noqa: E731
        i = T.fresh("i", "I")
        P, nn = lift(p), lift(n)
        two = T.num(2)
        e, o = T.mul(two, i), T.add(T.mul(two, i), T.ONE)
        kron = T.add(T.binder("sum", i, T.num(0), P, T.add(
            T.mul(Wt(e), pair(e)), T.mul(Wt(o), pair(o)))), T.mul(Wt(nn), at(T.num(0))))
        gauss = T.binder("sum", i, T.num(0), P, T.mul(T.app("g", i), pair(o)))
        if odd:
            kron = T.add(kron, T.mul(Wt(T.mul(two, P)), pair(T.mul(two, P))))
            gauss = T.add(gauss, T.mul(T.app("g", P), at(T.num(0))))
        d = T.mul(s, T.sub(kron, gauss))
        err = lift(abs(wrap(d)))

        def bad():
            """one of the numbers tested is the estimate (or the difference) and not finite"""
            return T.or_(*[T.app(k, t, sort="B") for t in v.nonfinite for k in ("isnan", "isinf")
                           if any(same(v, t, e) for e in (err, d))])
        try:
            r = kr._evalrule(_f, a, b, x, w, gw)
        except ValueError:
            v.prove("fails only if the estimate is not finite", bad())
            v.cover("failure")
            return
        v.prove("returns only if the estimate is finite", T.and_(T.not_(bad()), T.FALSE if bad() is T.FALSE else T.TRUE))
        v.prove_eq("left end", r.a, a)
        v.prove_eq("right end", r.b, b)
        v.prove_eq("rule on the interval", r.approx_integral, wrap(T.mul(s, kron)))
        v.prove_eq("error estimate: difference to the Gauss rule", r.error_est, wrap(err))
        v.cover("end")
    return h


CHECK.vc("one segment, odd order", functions=[KR + "_evalrule"])(_evalrule(True))
CHECK.vc("one segment, even order", functions=[KR + "_evalrule"])(_evalrule(False))

# }}}


# {{{ refinement

class Refine:
    """the segments on the heap are results of the rule, have one orientation, and any additive
    interval function sums up to its value on the whole interval; the running totals are those
    of the heap"""

    def __init__(self, v, kr, s, m, n, sign):
        self.v, self.kr, self.s, self.m, self.n, self.sign = v, kr, s, m, n, sign
        self.head = None

    def sums(self, st, fn):
        q = T.fresh("q", "I")
        return T.binder("sum", q, T.num(0), st.n, fn(st.get(q)))

    def additive(self, st):
        return self.sums(st, lambda g: T.sub(T.app("F", lift(g.b)), T.app("F", lift(g.a))))

    def totals(self, st):
        n2 = T.add(T.mul(T.num(2), lift(self.n)), T.ONE)
        return {"integral": self.sums(st, lambda g: lift(g.approx_integral)),
                "error": self.sums(st, lambda g: lift(g.error_est)),
                "evaluations": T.mul(n2, T.sub(T.mul(T.num(2), st.n), lift(self.m)))}

    def conditions(self, loop, env, when):
        v = self.v
        lists = list({id(o): o for o in env.values() if isinstance(o, PList)}.values())
        if len(lists) != 1:
            raise Unsupported("the heap is not recognised")
        st = lists[0].state()
        if when == "entry":
            tot = self.totals(st)
            self.roles = {}
            for k in loop.names:
                x = env.get(k)
                if isinstance(x, (SNum, int, float)):
                    for r, t in tot.items():
                        if r not in self.roles.values() and same(v, lift(x), t):
                            self.roles[k] = r
                            break
            N = T.fresh("N", "I")
            v.samplers[N] = lambda r: r.randint(1, 3)
            tag = N.args[0]

            def seg(q):
                a, b = T.app(f"{tag}A", q), T.app(f"{tag}B", q)
                return self.kr.Segment(wrap(a), wrap(b), wrap(T.app("RULE", a, b)),
                                       wrap(T.app("ERR", a, b)))
            self.head = SSeq(N, lambda q: seg(lift(q)), list)
            self.headtot = self.totals(self.head)
            sg = T.num(self.sign)
            oriented = lambda q: [T.or_(T.lt(q, T.ZERO), T.le(N, q), T.le(    # noqa: E731
                T.mul(sg, T.app(f"{tag}A", q)), T.mul(sg, T.app(f"{tag}B", q))))]
            v.axiom(f"{tag}A", oriented)
            v.axiom(f"{tag}B", oriented)
            end = self.s.get(lift(self.m))
            yield "segments cover the interval once", T.eq(self.additive(st), T.sub(
                T.app("F", lift(end)), T.app("F", lift(self.s.get(T.num(0))))))
        elif when == "end":
            yield "segments still cover the interval once", T.eq(
                self.additive(st), self.additive(self.head))
            tot = self.totals(st)
            for k, r in self.roles.items():
                yield f"running total ({r})", T.eq(lift(env[k]), tot[r])
        yield "a segment", T.le(T.ONE, st.n)
        if when != "head":
            q = T.fresh("q", "I")
            v.samplers[q] = lambda r: 0
            g = st.get(q)
            out = T.or_(T.lt(q, T.ZERO), T.le(st.n, q))
            a, b = lift(g.a), lift(g.b)
            yield "orientation", T.or_(out, T.le(T.mul(T.num(self.sign), a),
                                                 T.mul(T.num(self.sign), b)))
            yield "every segment integrated by the rule", T.or_(out, T.and_(
                T.eq(lift(g.approx_integral), T.app("RULE", a, b)),
                T.eq(lift(g.error_est), T.app("ERR", a, b))))

    def havoc(self, loop, name, entry):
        r = self.roles.get(name)
        return wrap(self.headtot[r]) if r else None

    def havoc_list(self, loop, name, plist):
        return self.head


def _refine(sign):
    def h(v, W):
        kr = W.modules[MOD]
        m = v.int("m", lo=1, sample=lambda r: r.randint(1, 3))
        n = v.int("n", lo=1, sample=lambda r: r.randint(1, 3))
        sg = T.num(sign)
        v.axiom("s", lambda i: [T.or_(T.lt(i, T.ZERO), T.le(lift(m), i), T.le(
            T.mul(sg, T.app("s", i)), T.mul(sg, T.app("s", T.add(i, T.ONE)))))])
        s = SSeq(T.add(lift(m), T.ONE), lambda i: wrap(T.app("s", lift(i))), list)
        tabs = tuple(v.array(k, (n + 1,)) for k in "xwg")
        W.patch(KR + "kronrod", lambda k: (v.prove_eq("the rule asked for", k, n), tabs)[1])

        def rule(f, a, b, x, w, gw):
            v.prove("integrand and rule", T.TRUE if f is _f and (x, w, gw) == tabs or all(
                p is q for p, q in zip((f, x, w, gw), (_f, *tabs))) else T.FALSE)
            return kr.Segment(a, b, wrap(T.app("RULE", lift(a), lift(b))),
                              wrap(T.app("ERR", lift(a), lift(b))))
        W.patch(KR + "_evalrule", rule)
        inv = v.while_inv["_do_quadgk"] = Refine(v, kr, s, m, n, sign)
        at, rt = v.real("abstol"), v.real("reltol")
        mx = v.int("maxevals")
        val, err = kr._do_quadgk(_f, s, n, at, rt, mx)
        if inv.head is None:
            raise Unsupported("no refinement loop")
        tot = inv.headtot
        v.prove_eq("integral: the sum over the segments", val, wrap(tot["integral"]))
        v.prove_eq("error estimate: the sum over the segments", err, wrap(tot["error"]))
        E, Iv = tot["error"], lift(abs(wrap(tot["integral"])))
        v.prove("tolerance met or evaluations used up", T.or_(
            T.le(E, lift(at)), T.le(E, T.mul(lift(rt), Iv)),
            T.le(lift(mx), tot["evaluations"])))
        v.cover("end")
    return h


CHECK.vc("refinement, increasing breakpoints", functions=[KR + "_do_quadgk"],
         uses=[KR + "_evalrule", KR + "kronrod"])(_refine(1))
CHECK.vc("refinement, decreasing breakpoints", functions=[KR + "_do_quadgk"],
         uses=[KR + "_evalrule", KR + "kronrod"])(_refine(-1))

# }}}


# {{{ infinite intervals

def _infinite(kind, k):
    """kind: the (infinite) ends, None for a finite one; k: number of breakpoints"""
    first = {}

    def h(v, W):
        kr = W.modules[MOD]
        fin = [v.real(f"s{j}") for j in range(k)]
        s = [fin[j] for j in range(k)]
        lo, hi = kind
        if lo is not None:
            s[0] = lo
        if hi is not None:
            s[-1] = hi
        up = (lo == -math.inf) or (hi == math.inf)
        for x, y in zip(s, s[1:]):
            if not isinstance(x, float) and not isinstance(y, float):
                v.assume(x <= y if up else y <= x)
        orig = first.setdefault(id(kr), kr._do_quadgk)
        seen = []

        def inner(g, sm, n, abstol, reltol, maxevals):
            seen.append((g, list(sm)))
            v.prove_eq("order", n, ord_)
            v.prove_eq("absolute tolerance", abstol, at)
            v.prove_eq("relative tolerance", reltol, rt)
            v.prove_eq("evaluations", maxevals, mx)
            return wrap(T.app("VAL")), wrap(T.app("EST"))
        ord_, mx = v.int("n", lo=1), v.int("maxevals")
        at, rt = v.real("abstol"), v.real("reltol")
        args = []

        def f(x):
            args.append(lift(x))
            return _f(x)
        W.patch(KR + "_do_quadgk", inner)
        val, est = orig(f, s, ord_, at, rt, mx)
        v.prove_eq("value", val, wrap(T.app("VAL")))
        v.prove_eq("estimate", est, wrap(T.app("EST")))
        if len(seen) != 1:
            v.fail("one transformed integral")
            return
        g, sm = seen[0]
        v.prove("as many breakpoints", T.TRUE if len(sm) == len(s) else T.FALSE)
        t = v.real("t")
        tt = lift(t)
        both = lo is not None and hi is not None
        v.assume(T.lt(T.num(-1 if both else 0), tt))
        v.assume(T.lt(tt, T.ONE))
        gt = lift(g(t))
        if len(args) != 1:
            raise Unsupported("the integrand is not evaluated once")
        X = args[0]
        J = T.mul(T.app("f", X), ddiff(X, tt))
        if norm.equal(gt, J):
            sigma, order = 1, sm
            v.prove_eq("change of variables", wrap(gt), wrap(J))
        else:
            sigma, order = -1, sm[::-1]
            v.prove_eq("change of variables, reversed", wrap(gt), wrap(T.neg(J)))
        for x, y in zip(s, order):
            if isinstance(x, float):
                # the map has a pole there: its reciprocal vanishes, with the right sign
                y = lift(y)
                r = norm.canon(T.div(T.ONE, X))
                v.prove_eq("infinite end", wrap(T.subst(r, {tt: y})), 0)
                if y.op != "num":
                    raise Unsupported("image of an infinite end")
                z = y.args[0]
                near = float(z) * (1 - 1e-9)
                val = evalt.evaluate(X, {tt: near, **{u: 0.3 for u in X.fv if u is not tt}})
                v.prove("its sign", T.TRUE if val * x > 0 else T.FALSE)
                v.prove("end of the domain", T.TRUE if abs(z) == 1 and (both or z == 1)
                        else T.FALSE)
            else:
                v.prove_eq("finite breakpoint", wrap(T.subst(X, {tt: lift(y)})), x)
                v.prove("within the domain", wrap(T.and_(
                    T.lt(T.num(-1), lift(y)) if both else T.le(T.ZERO, lift(y)),
                    T.lt(lift(y), T.ONE))))
        v.cover("end")
    return h


_I = math.inf
_T = [KR + "_do_quadgk", KR + "_transform_both_inf", KR + "_transform_semi_inf_neg",
      KR + "_transform_semi_inf_pos"]
for _k in (2, 3, 4):
    for _lo, _hi in [(-_I, _I), (_I, -_I), (-_I, None), (None, -_I), (_I, None), (None, _I)]:
        CHECK.vc(f"from {_lo} to {_hi}, {_k} breakpoints", functions=_T)(
            _infinite((_lo, _hi), _k))


@CHECK.vc("interface", functions=[KR + "quadgk"], uses=[KR + "_do_quadgk"])
def _(v, W):
    kr = W.modules[MOD]
    n, mx = v.int("n", lo=1), v.int("maxevals")
    at, rt = v.real("abstol"), v.real("reltol")
    pts = [v.real(f"p{k}") for k in range(4)]
    seen = []

    def inner(f, s, n, abstol, reltol, maxevals):
        seen.append((f, list(s), n, abstol, reltol, maxevals))
        return wrap(T.app("VAL")), wrap(T.app("EST"))
    W.patch(KR + "_do_quadgk", inner)
    for k in (0, 1):
        try:
            kr.quadgk(_f, *pts[:k])
        except ValueError:
            v.ok("too few breakpoints rejected")
        else:
            v.fail("too few breakpoints rejected")
    for k in (2, 3, 4):
        seen.clear()
        val, est = kr.quadgk(_f, *pts[:k], order=n, abstol=at, reltol=rt, maxevals=mx)
        v.prove_eq("value", val, wrap(T.app("VAL")))
        v.prove_eq("estimate", est, wrap(T.app("EST")))
        if len(seen) != 1:
            v.fail("one integration")
            return
        f, s, *rest = seen[0]
        v.prove("the integrand", T.TRUE if f is _f else T.FALSE)
        v.prove("the breakpoints", T.TRUE if len(s) == k else T.FALSE)
        for x, y in zip(s, pts):
            v.prove_eq("breakpoint", x, y)
        for x, y in zip(rest, (n, at, rt, mx)):
            v.prove_eq("parameter", x, y)
    v.cover("end")

# }}}


# {{{ battery

def _integrands():
    yield "polynomial", lambda x: 3 * x**2 - x + 1, lambda x: x**3 - x**2 / 2 + x
    yield "exponential", lambda x: np.exp(-x), lambda x: -math.exp(-x)
    yield "peak", lambda x: 1 / (1e-2 + (x - 0.3)**2), lambda x: 10 * math.atan(10 * (x - 0.3))
    yield "kink", lambda x: abs(x - 0.25), lambda x: (x - 0.25) * abs(x - 0.25) / 2
    yield "root", lambda x: np.sqrt(abs(x)), lambda x: math.copysign(abs(x)**1.5 / 1.5, x)
    yield "oscillating", lambda x: np.cos(9 * x), lambda x: math.sin(9 * x) / 9


@CHECK.battery("finite intervals", functions=[KR + "quadgk", KR + "_do_quadgk", KR + "_evalrule"],
               timeout=300)
def _(B):
    from modepy.quadrature import kronrod as kr
    for nm, f, F in _integrands():
        for pts in [(0, 1), (1, 0), (-1, 2), (2, -1), (-1, 0.25, 2), (2, 0.25, 0.1, -1), (0.5, 0.5),
                    (-1.0, -0.5, 0.0, 0.3, 1.0), (0, 0, 1), (3, 7)]:
            for order in (1, 2, 3, 4, 7, 10):
                for kw in (dict(), dict(abstol=1e-3, reltol=0), dict(reltol=1e-3),
                           dict(maxevals=100), dict(maxevals=0)):
                    if order < 3 and not kw:
                        continue
                    calls = []

                    def g(x):
                        calls.append(x)
                        return f(x)
                    inp = dict(integrand=nm, points=pts, order=order, **kw)
                    okc, r = B.call("quadgk", lambda: kr.quadgk(g, *pts, order=order, **kw), **inp)
                    if not okc:
                        continue
                    val, err = r
                    B.ok("points inside", all(min(pts) <= x <= max(pts) for x in calls), **inp)
                    mx = kw.get("maxevals", 10**7)
                    met = err <= kw.get("abstol", 0) * 1.001 or \
                        err <= kw.get("reltol", 1.49e-8) * 1.001 * abs(val)
                    B.ok("tolerance or evaluations", met or len(calls) >= mx, **inp)
                    B.ok("evaluations bounded", len(calls) <= max(
                        mx + 4 * order + 2, (2 * order + 1) * (len(pts) - 1)), **inp)
                    true = F(pts[-1]) - F(pts[0])
                    if order >= 7 and not kw:
                        B.close("value", val, true, rtol=1e-6, atol=1e-9, **inp)
                    okc, r2 = B.call("reversed", lambda: kr.quadgk(f, *pts[::-1], order=order,
                                                                   **kw), **inp)
                    if okc:
                        # roundoff in the estimates can change the order of refinement
                        B.close("orientation", r2[0], -val, rtol=1e-6, atol=1e-9 + 3 * (
                            err if "maxevals" in kw else 0), **inp)
                    seg = _segments(kr, f, pts, order, kw)
                    if seg is None:
                        continue
                    leaves, got = seg
                    B.close("sum of the segments", sum(s.approx_integral for s in leaves), got[0],
                            rtol=1e-9, atol=1e-12, **inp)
                    B.close("error: sum of the segments", sum(s.error_est for s in leaves), got[1],
                            rtol=1e-6, atol=1e-14, **inp)
                    up = pts[-1] >= pts[0]
                    leaves.sort(key=lambda s: (s.a, s.b) if up else (-s.a, -s.b))
                    B.ok("segments partition the interval", leaves[0].a == pts[0] and
                         leaves[-1].b == pts[-1] and all(
                             x.b == y.a for x, y in zip(leaves, leaves[1:])), **inp)


def _segments(kr, f, pts, order, kw):
    """the segments left at the end, from a log of the rule's applications"""
    if not hasattr(kr, "_evalrule"):
        return None
    orig, log = kr._evalrule, []

    def rec(*a, **k):
        s = orig(*a, **k)
        log.append(s)
        return s
    kr._evalrule = rec
    try:
        got = kr.quadgk(f, *pts, order=order, **kw)
    except Exception:     # noqa: BLE001
        return None
    finally:
        kr._evalrule = orig
    if len(log) < len(pts) - 1 or not all(hasattr(s, "approx_integral") for s in log):
        return None
    leaves = log[:len(pts) - 1]
    rest = log[len(pts) - 1:]
    for x, y in zip(rest[::2], rest[1::2]):
        for k, p in enumerate(leaves):
            if p.a == x.a and p.b == y.b and x.b == y.a:
                leaves[k:k + 1] = [x, y]
                break
    return leaves, got


@CHECK.battery("infinite intervals", functions=_T, timeout=300)
def _(B):
    from modepy.quadrature import kronrod as kr
    g, G = lambda x: np.exp(-x * x), lambda x: math.sqrt(math.pi) / 2 * math.erf(x)   # noqa: E731
    c = lambda x: 1 / (1 + (x - 1)**2)      # noqa: E731
    C = lambda x: math.atan(x - 1)          # noqa: E731
    I = math.inf      # noqa: E741
    for nm, f, F in (("gaussian", g, G), ("lorentzian", c, C)):
        for pts in [(-I, I), (I, -I), (0, I), (I, 0), (-I, 0), (0, -I), (-I, 2.5), (2.5, -I),
                    (-1.5, I), (I, -1.5), (-I, -0.5, 0.25, I), (I, 1, -1, -I), (0, 0.5, 2, I),
                    (I, 3, 1), (-I, -2, 0, 1), (1, 0, -2, -I), (0, 0, I), (np.float64(1), np.inf),
                    (np.int64(0), I), (np.float32(-0.5), np.float32(1), I), (-I, *np.arange(2)),
                    (-np.inf, 3)]:
            for order in (5, 7, 8):
                inp = dict(integrand=nm, points=[float(p) for p in pts], order=order)
                okc, r = B.call("quadgk", lambda: kr.quadgk(f, *pts, order=order), **inp)
                if okc:
                    B.close("value", r[0], F(pts[-1]) - F(pts[0]), rtol=1e-6, atol=1e-7, **inp)
                    B.ok("tolerance", r[1] <= 1.5e-8 * abs(r[0]), **inp)


@CHECK.battery("breakpoints of infinite intervals", functions=_T, timeout=100)
def _(B):
    from modepy.quadrature import kronrod as kr
    I = math.inf      # noqa: E741
    # without refinement the rule is applied once per segment: as many evaluations in each
    for pts in [(-I, 0.5, I), (-I, -3, 0.25, 40, I), (0, 2, 9, I), (-I, -7, 1), (I, 2.5, -I),
                (I, 5, 1, 0), (1, -2, -30, -I)]:
        for order in (1, 4, 7):
            seen = []

            def f(x):
                seen.extend(np.ravel(x).tolist())
                return np.exp(-x * x)
            inp = dict(points=list(pts), order=order)
            okc, _ = B.call("quadgk", lambda: kr.quadgk(f, *pts, order=order, maxevals=0), **inp)
            if okc:
                counts = [sum(min(a, b) < x < max(a, b) for x in seen)
                          for a, b in zip(pts, pts[1:])]
                B.equal("evaluations between the breakpoints", counts,
                        [2 * order + 1] * (len(pts) - 1), **inp)


@CHECK.battery("failures", functions=[KR + "quadgk", KR + "_evalrule"], timeout=100)
def _(B):
    from modepy.quadrature import kronrod as kr
    B.raises("no breakpoints", ValueError, lambda: kr.quadgk(np.sin))
    B.raises("one breakpoint", ValueError, lambda: kr.quadgk(np.sin, 0.0))
    for bad in (math.nan, math.inf, -math.inf):
        for order in (1, 2, 4, 7):
            for pts in ((0, 1), (1, 0), (0, math.inf), (-math.inf, math.inf)):
                B.raises("not finite", ValueError, lambda: kr.quadgk(
                    lambda x: np.float64(bad), *pts, order=order), value=str(bad), order=order,
                    points=[str(p) for p in pts])
                B.raises("not finite somewhere", ValueError, lambda: kr.quadgk(
                    lambda x: np.float64(bad if x > 0.5 else x), *pts, order=order),
                    value=str(bad), order=order, points=[str(p) for p in pts])


@CHECK.battery("one segment", functions=[KR + "_evalrule"], timeout=100)
def _(B):
    from modepy.quadrature import kronrod as kr
    for n in (1, 2, 3, 4, 5, 7, 8, 10, 15):
        q = kr.make_kronrod_quadrature(n)
        for a, b in ((-1, 1), (0, 1), (2.0, -1.0), (0.5, 0.75)):
            for deg in range(3 * n + 2):
                f = lambda x: (x - 0.3)**deg     # noqa: E731
                inp = dict(n=n, a=a, b=b, degree=deg)
                x, w, gw = kr.kronrod(n)
                s = B.private(kr, "_evalrule", f, a, b, x, w, gw)
                if not hasattr(s, "approx_integral") or not hasattr(s, "error_est"):
                    continue
                F = lambda x: (x - 0.3)**(deg + 1) / (deg + 1)     # noqa: E731
                sc = max(1, *(abs(F(t)) for t in (a, b)))
                B.close("exact", s.approx_integral, F(b) - F(a), rtol=1e-9, atol=1e-11 * sc, **inp)
                y = lambda t: f(a + (b - a) / 2 * (1 + t))     # noqa: E731
                B.close("error estimate", s.error_est, abs(
                    q(y) - q.gauss_quadrature(y)) * abs(b - a) / 2, rtol=1e-6, atol=1e-11 * sc,
                    **inp)

# }}}
