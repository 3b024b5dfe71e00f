"""C01: Jacobi polynomials."""
from fractions import Fraction

import mpmath
import numpy as np

from pyvc import terms as T
from pyvc.sym import SNum, lift, wrap, new_array, snapshot, F8
from . import spec as S
from .base import Check, THOROUGH

CHECK = Check(
    "C01", level="proof",
    trusted=["Favard/DLMF 18.9: the three-term recurrence of the contract is that of the "
             "family orthonormal for (1-x)^a(1+x)^b; the weight's integral is a Beta value",
             "product rule: the derivative of the recurrence is the recurrence of derivatives"],
    assumptions=["floating point is treated as real arithmetic (the battery bounds the error)",
                 "0 < |alpha+beta+1| < 1e-12 is excluded from the proof (the code's own "
                 "tolerance makes the result approximate there); the battery samples it"])


def _params(v, mode):
    a = v.real("a", lo=-1, sample=lambda r: mpmath.mpf(r.randint(-49, 250)) / 50)
    if mode == "sum-1":
        b = -1 - a
        v.assume(b > -1)
        v.assume(b < 1)
        v.samplers[lift(a)] = lambda r: -mpmath.mpf(r.randint(1, 49)) / 50
    else:
        b = v.real("b", lo=-1, sample=lambda r: mpmath.mpf(r.randint(-49, 250)) / 50)
        v.assume(abs(a + b + 1) >= Fraction(1, 10**12))
    return a, b


def _jacobi(mode, arr):
    def h(v, W):
        import modepy as mp
        modes = W.modules["modepy.modes"]
        a, b = _params(v, mode)
        n = v.int("n", lo=0, sample=lambda r: r.randint(0, 6))
        A, B, n_ = lift(a), lift(b), lift(n)
        v.defs["SP"] = S.sp_def(v)
        if arr:
            m = v.int("m", lo=0, sample=lambda r: r.randint(0, 3))
            x = v.array("x", (m,))
            rd = snapshot(x)
            hint = lambda j: new_array(x._shape, lambda i: S.SP(A, B, lift(j), rd(i)), F8)  # noqa: E731
        else:
            x = v.real("x", lo=-1, hi=1)
            hint = lambda j: wrap(S.SP(A, B, lift(j), lift(x)))   # noqa: E731
        v.hint_fns["jacobi"] = [hint, lambda j: wrap(S.rec_b(A, B, lift(j)))]
        r = modes.jacobi(a, b, n, x)
        if arr:
            v.prove_array("jacobi is the orthonormal polynomial", r, x.shape,
                          lambda i: wrap(S.SP(A, B, n_, rd((lift(i),)))))
        else:
            v.prove_eq("jacobi is the orthonormal polynomial", r,
                       wrap(S.SP(A, B, n_, lift(x))))
        v.cover("end")
        v.conform("jacobi", r, lambda E: mp.jacobi(E(a), E(b), E(n), E(x)))
    return h


for _mode in ("general", "sum-1"):
    for _arr in (False, True):
        CHECK.vc(f"jacobi {_mode} {'array' if _arr else 'scalar'}",
                 functions=["modepy.modes.jacobi"])(_jacobi(_mode, _arr))


@CHECK.vc("grad_jacobi", functions=["modepy.modes.grad_jacobi"], uses=["modepy.modes.jacobi"])
def _(v, W):
    import modepy as mp
    modes = W.modules["modepy.modes"]
    W.patch("modepy.modes.jacobi", S.jacobi_contract)
    a = v.real("a", lo=-1)
    b = v.real("b", lo=-1)
    n = v.int("n", lo=0, sample=lambda r: r.randint(0, 6))
    x = v.real("x", lo=-1, hi=1)
    r = modes.grad_jacobi(a, b, n, x)
    A, B, n_, X = lift(a), lift(b), lift(n), lift(x)
    # the derivative, by the derivative lemma below
    want = T.ite(T.eq(n_, S.ZERO), S.ZERO,
                 T.mul(T.sqrt(T.mul(n_, T.add(n_, A, B, S.ONE))),
                       S.SP(T.add(A, S.ONE), T.add(B, S.ONE), T.sub(n_, S.ONE), X)))
    v.prove_eq("grad_jacobi is the derivative", r, wrap(want))
    v.cover("end")
    v.conform("grad_jacobi", r, lambda E: mp.grad_jacobi(E(a), E(b), E(n), E(x)))


def hnorm(A, B, n):
    """classical squared norm of P_n^(A,B)"""
    return T.div(T.mul(T.pow_(S.TWO, T.add(A, B, S.ONE)), S.gam(T.add(n, A, S.ONE)),
                       S.gam(T.add(n, B, S.ONE))),
                 T.mul(T.add(T.mul(S.TWO, n), A, B, S.ONE), S.gam(T.add(n, A, B, S.ONE)),
                       S.gam(T.add(n, S.ONE))))


def scaled_spec(A, B, n, X):
    # at n = 0 the norm is the integral of the weight, written so that A+B+1 = 0 is fine
    h = T.ite(T.eq(n, S.ZERO), S.wint(A, B), hnorm(A, B, n))
    return T.mul(T.sqrt(h), S.SP(A, B, n, X))


def _scaled(mode):
    def h(v, W):
        import modepy as mp
        modes = W.modules["modepy.modes"]
        W.patch("modepy.modes.jacobi", S.jacobi_contract)
        a, b = _params(v, mode)
        n = v.int("n", lo=0, sample=lambda r: r.randint(0, 6))
        x = v.real("x", lo=-1, hi=1)
        if mode == "general":
            v.assume(abs(a + b + 1) >= Fraction(1, 10**4))
        A, B, n_, X = lift(a), lift(b), lift(n), lift(x)
        r = modes.scaled_jacobi(a, b, n, x)
        v.prove_eq("scaled_jacobi is the classically normalised polynomial", r,
                   wrap(scaled_spec(A, B, n_, X)))
        v.cover("end")
        v.conform("scaled_jacobi", r, lambda E: mp.scaled_jacobi(E(a), E(b), E(n), E(x)))
    return h


for _mode in ("general", "sum-1"):
    CHECK.vc(f"scaled_jacobi {_mode}", functions=["modepy.modes.scaled_jacobi"],
             uses=["modepy.modes.jacobi"])(_scaled(_mode))


def _unfold_at(v, n, val):
    """SP_n from the recurrence with SP_k replaced by val(k), n >= 1"""
    pos, fn = S.sp_def(v)
    return fn, pos


@CHECK.vc("lemma: endpoint values")
def _(v, W):
    """binom(n+a,n)/sqrt(h_n) satisfies the recurrence of SP at x=1, and the mirrored one at -1."""
    a = v.real("a", lo=-1)
    b = v.real("b", lo=-1)
    n = v.int("n", lo=0, sample=lambda r: r.randint(0, 6))
    A, B, n_ = lift(a), lift(b), lift(n)
    v.assume(a + b + 1 > 0 if v.choose("s") else a + b + 1 < 0)

    def bin_(k, c):
        return T.div(S.gam(T.add(k, c, S.ONE)), T.mul(S.gam(T.add(k, S.ONE)),
                                                      S.gam(T.add(c, S.ONE))))
    for name, x, val in (
            ("x=1", S.ONE, lambda k: T.div(bin_(k, A), T.sqrt(hnorm(A, B, k)))),
            ("x=-1", S.N_(-1), lambda k: T.div(T.mul(T.pow_(S.N_(-1), k), bin_(k, B)),
                                               T.sqrt(hnorm(A, B, k))))):
        cases = (("n=0", T.eq(n_, S.ZERO)), ("n=1", T.eq(n_, S.ONE)),
                 ("n=2", T.eq(n_, S.TWO)), ("n>=3", T.le(S.THREE, n_)))
        for cn, c in cases:
            m = len(v.pc)
            v.push(c)
            k = {"n=0": S.ZERO, "n=1": S.ONE, "n=2": S.TWO}.get(cn, n_)
            d = S.sp_def(v)[1](A, B, k, x)
            sub = {}
            for t in T.subterms(d):
                if t.op == "app" and t.args[0] == "SP":
                    sub[t] = val(t.args[3])
            from pyvc.core import _replace1
            v.prove_eq(f"value at {name}, {cn}", wrap(_replace1(d, sub)), wrap(val(k)))
            del v.pc[m:]
            v._setkey()
    v.cover("end")


def _conn(A, B, n):
    """coefficients of SP_n^(A,B) = c0 Q_n + c1 Q_{n-1} + c2 Q_{n-2},  Q = SP^(A+1,B+1)"""
    A1, B1 = T.add(A, S.ONE), T.add(B, S.ONE)
    s = T.add(T.mul(S.TWO, n), A, B)
    t = T.add(n, A, B)
    r = lambda k: T.sqrt(T.div(hnorm(A1, B1, k), hnorm(A, B, n)))   # noqa: E731
    c0 = T.mul(T.div(T.mul(T.add(t, S.ONE), T.add(t, S.TWO)),
                     T.mul(T.add(s, S.ONE), T.add(s, S.TWO))), r(n))
    c1 = T.mul(T.div(T.mul(T.sub(A, B), T.add(t, S.ONE)), T.mul(s, T.add(s, S.TWO))),
               r(T.sub(n, S.ONE)))
    c2 = T.mul(T.neg(T.div(T.mul(T.add(n, A), T.add(n, B)), T.mul(s, T.add(s, S.ONE)))),
               r(T.sub(n, S.TWO)))
    return c0, c1, c2


def _lin(v, name, lhs, rhs):
    """two linear combinations {index offset: coefficient} are equal"""
    for k in sorted(set(lhs) | set(rhs)):
        v.prove_eq(f"{name}: coefficient of Q(n{k:+d})", wrap(lhs.get(k, S.ZERO)),
                   wrap(rhs.get(k, S.ZERO)))


def _acc(d, k, c):
    d[k] = T.add(d[k], c) if k in d else c


def _times_x(A1, B1, n, lc):
    """x * sum_k lc[k] Q(n+k)"""
    out = {}
    for k, c in lc.items():
        i = T.add(n, S.N_(k))
        _acc(out, k + 1, T.mul(c, S.rec_b(A1, B1, T.add(i, S.ONE))))
        _acc(out, k, T.mul(c, S.rec_a(A1, B1, i)))
        _acc(out, k - 1, T.mul(c, S.rec_b(A1, B1, i)))
    return out


def _scale(lc, c):
    return {k: T.mul(c, x) for k, x in lc.items()}


def _plus(*ls):
    out = {}
    for lc in ls:
        for k, c in lc.items():
            _acc(out, k, c)
    return out


@CHECK.vc("lemma: connection step", timeout=200)
def _(v, W):
    """conn(n), conn(n-1) and the recurrences imply conn(n+1)   (n >= 3)"""
    a = v.real("a", lo=-1)
    b = v.real("b", lo=-1)
    n = 3 if v.choose("n=3") else v.int("n", lo=4)
    A, B, n_ = lift(a), lift(b), lift(n)
    A1, B1 = T.add(A, S.ONE), T.add(B, S.ONE)

    def conn(off):
        c = _conn(A, B, T.add(n_, S.N_(off)))
        return {off: c[0], off - 1: c[1], off - 2: c[2]}
    lhs = _scale(conn(1), S.rec_b(A, B, T.add(n_, S.ONE)))
    c = conn(0)
    rhs = _plus(_times_x(A1, B1, n_, c), _scale(c, T.neg(S.rec_a(A, B, n_))),
                _scale(conn(-1), T.neg(S.rec_b(A, B, n_))))
    _lin(v, "connection", lhs, rhs)
    v.cover("end")


@CHECK.vc("lemma: derivative step", timeout=200)
def _(v, W):
    """D_n = sqrt(n(n+a+b+1)) Q_{n-1} satisfies the differentiated recurrence  (n >= 3)"""
    a = v.real("a", lo=-1)
    b = v.real("b", lo=-1)
    n = 3 if v.choose("n=3") else v.int("n", lo=4)
    A, B, n_ = lift(a), lift(b), lift(n)
    A1, B1 = T.add(A, S.ONE), T.add(B, S.ONE)

    def D(off):
        k = T.add(n_, S.N_(off))
        return {off - 1: T.sqrt(T.mul(k, T.add(k, A, B, S.ONE)))}
    c = _conn(A, B, n_)
    lhs = _scale(D(1), S.rec_b(A, B, T.add(n_, S.ONE)))
    rhs = _plus(_times_x(A1, B1, n_, D(0)), _scale(D(0), T.neg(S.rec_a(A, B, n_))),
                {0: c[0], -1: c[1], -2: c[2]},
                _scale(D(-1), T.neg(S.rec_b(A, B, n_))))
    _lin(v, "derivative", lhs, rhs)
    v.cover("end")


@CHECK.vc("lemma: connection and derivative, base cases", timeout=200)
def _(v, W):
    """n = 0..4 by direct expansion of the recurrences (a+b+1 != 0; a+b+1=0 by continuity)"""
    a = v.real("a", lo=-1)
    b = v.real("b", lo=-1)
    x = v.real("x", lo=-1, hi=1)
    A, B, X = lift(a), lift(b), lift(x)
    A1, B1 = T.add(A, S.ONE), T.add(B, S.ONE)
    v.assume(a + b + 1 > 0 if v.choose("s") else a + b + 1 < 0)

    def poly(al, be, N):
        """[(p_k, dp_k/dx)] by the recurrence and its derivative"""
        w = T.div(S.ONE, T.sqrt(S.wint(al, be)))
        out = [(w, S.ZERO)]
        for k in range(1, N + 1):
            p1, d1 = out[-1]
            p0, d0 = out[-2] if k > 1 else (S.ZERO, S.ZERO)
            al_ = S.rec_a(al, be, S.N_(k - 1))
            bk, bm = S.rec_b(al, be, S.N_(k)), (S.rec_b(al, be, S.N_(k - 1)) if k > 1
                                                else S.ZERO)
            out.append((T.div(T.sub(T.mul(T.sub(X, al_), p1), T.mul(bm, p0)), bk),
                        T.div(T.sub(T.add(T.mul(T.sub(X, al_), d1), p1), T.mul(bm, d0)), bk)))
        return out
    N = 4
    P, Q = poly(A, B, N), poly(A1, B1, N)
    for n in range(N + 1):
        want = S.ZERO if n == 0 else T.mul(
            T.sqrt(T.mul(S.N_(n), T.add(S.N_(n), A, B, S.ONE))), Q[n - 1][0])
        v.prove_eq(f"derivative of SP_{n}", wrap(P[n][1]), wrap(want))
    for n in (2, 3):
        c = _conn(A, B, S.N_(n))
        v.prove_eq(f"connection {n}", wrap(P[n][0]), wrap(T.add(
            T.mul(c[0], Q[n][0]), T.mul(c[1], Q[n - 1][0]), T.mul(c[2], Q[n - 2][0]))))
    v.cover("end")


# {{{ battery

def _ref(a, b, n, x, dps=30):
    with mpmath.workdps(dps):
        return float(S._sp_num(a, b, n, x))


PARAMS = [(0, 0), (1, 0), (0, 1), (2.5, 0.25), (-0.5, -0.5), (0.5, 0.5), (-0.5, 0.5),
          (-0.7, -0.3), (-0.25, -0.75), (-0.9, 0.4), (-0.99, -0.5), (7, 0), (0, 6), (11, 3),
          (1.5, -0.5), (5, 0), (3, 3), (-0.5, -0.499),
          # next to the removable singularity at alpha + beta = -1
          (-0.5, -0.50001), (-0.3, -0.7 + 1e-6), (-0.5, -0.5 + 1e-8), (-0.01, -0.99 + 1e-10),
          (-0.5 - 1e-12, -0.5)]


@CHECK.battery("jacobi values", functions=["modepy.modes.jacobi"])
def _(B):
    from modepy import jacobi
    xs = [-1.0, -0.97, -0.5, -1 / 3, 0.0, 0.25, 0.7, 0.999, 1.0]
    ns = list(range(0, 13)) + [17, 26, 41]
    for a, b in PARAMS:
        for n in ns:
            want = np.array([_ref(a, b, n, x) for x in xs])
            sc = np.max(np.abs(want))
            got = jacobi(a, b, n, np.array(xs))
            B.close("jacobi(array)", got, want, rtol=1e-8, atol=1e-9 * sc, a=a, b=b, n=n)
        for n in (0, 1, 2, 5):
            for x in (-1.0, 0.3, 1.0):
                B.close("jacobi(scalar)", jacobi(a, b, n, x), _ref(a, b, n, x), rtol=1e-8,
                        a=a, b=b, n=n, x=x)
        for shape in ((0,), (1,), (2, 3)):
            x = B.nprng.uniform(-1, 1, shape)
            x0 = x.copy()
            for n in (0, 1, 4):
                got = jacobi(a, b, n, x)
                want = np.array([_ref(a, b, n, t) for t in x.ravel()]).reshape(shape)
                B.close("jacobi(shape)", got, want, rtol=1e-8, a=a, b=b, n=n, shape=shape)
                B.ok("jacobi leaves x", np.array_equal(x, x0), a=a, b=b, n=n, shape=shape)


# parameters at which the product of the gamma functions in the normalisation exceeds the
# largest double although the normalisation itself does not (gamma(x) does for x > 171.6,
# which the function reports: out of its domain)
LARGE = [(151, 0), (0, 152), (160, 0), (169, 0), (-0.5, 150), (150.5, -0.75), (85, 85), (100, 69),
         (40.5, 125), (120, 7.25), (60, 60)]


@CHECK.battery("large parameters", functions=["modepy.modes.jacobi", "modepy.modes.grad_jacobi"])
def _(B):
    from modepy import grad_jacobi, jacobi
    xs = [-1.0, -0.97, -0.5, -1 / 3, 0.0, 0.25, 0.7, 0.999, 1.0]
    for a, b in LARGE:
        for n in (0, 1, 2, 3, 5, 9, 20, 40):
            # away from the end points the values are smaller by many orders of magnitude:
            # each point has its own scale
            want = np.array([_ref(a, b, n, x, 80) for x in xs])
            got = jacobi(a, b, n, np.array(xs))
            scale = np.maximum(np.abs(want), 1e-6 * np.array(
                [abs(_ref(a, b, n, x * (1 - 1e-3), 80)) for x in xs]))
            for x, g, w, sc in zip(xs, got, want, scale, strict=True):
                B.close("jacobi(large parameters)", g, w, rtol=1e-6, atol=1e-6 * sc, a=a, b=b,
                        n=n, x=x)
        for n in (1, 2, 4):
            for x in (-0.5, 0.25, 1.0):
                with mpmath.workdps(80):
                    w = float(mpmath.diff(lambda t: S._sp_num(a, b, n, t), mpmath.mpf(x)))
                if a + 1 + b + 1 + 1 < 171:
                    B.close("grad_jacobi(large parameters)", grad_jacobi(a, b, n, np.array([x])),
                            [w], rtol=1e-6, a=a, b=b, n=n, x=x)


@CHECK.battery("orthonormality", functions=["modepy.modes.jacobi"])
def _(B):
    from modepy import jacobi
    from scipy.special import roots_jacobi
    for a, b in PARAMS:
        x, w = roots_jacobi(24, a, b)
        V = np.array([jacobi(a, b, n, x) for n in range(20)])
        B.close("gram", V @ np.diag(w) @ V.T, np.eye(20), atol=1e-8, a=a, b=b)
        for n in range(20):
            y = np.array([3.0, 4.0])
            B.ok("positive leading coefficient", (jacobi(a, b, n, y) > 0).all(), a=a, b=b, n=n)


@CHECK.battery("gradients", functions=["modepy.modes.grad_jacobi"])
def _(B):
    from modepy import grad_jacobi
    from modepy.modes import jacobi
    xs = np.array([-1.0, -0.8, -0.1, 0.0, 0.45, 0.93, 1.0])
    for a, b in PARAMS:
        for n in list(range(0, 11)) + [16, 23]:
            with mpmath.workdps(30):
                want = np.array([float(mpmath.diff(lambda t: S._sp_num(a, b, n, t), x))
                                 if n else 0.0 for x in xs])
            sc = max(1, np.max(np.abs(want)))
            B.close("grad_jacobi", grad_jacobi(a, b, n, xs), want, rtol=1e-7, atol=1e-9 * sc,
                    a=a, b=b, n=n)
        for n in (0, 1, 3):
            g = grad_jacobi(a, b, n, np.zeros(0))
            B.ok("empty", np.shape(g) == (0,), a=a, b=b, n=n)


@CHECK.battery("scaled", functions=["modepy.modes.scaled_jacobi"])
def _(B):
    from modepy.modes import scaled_jacobi
    for a, b in PARAMS:
        top = [n for n in (60, 90, 110, 130, 150, 160) if n + max(a, b, a + b) + 1 < 171]
        for n in [*range(0, 12), 20, 30, *top]:
            with mpmath.workdps(30 if n < 40 else 160):
                e1 = float(mpmath.binomial(n + mpmath.mpf(a), n))
                e2 = float((-1) ** n * mpmath.binomial(n + mpmath.mpf(b), n))
                xs = [-1.0, -0.6, 0.0, 0.35, 1.0]
                hn = S.mpmath_hnorm(a, b, n)
                want = [float(S._sp_num(a, b, n, x) * hn) for x in xs]
            B.close("endpoints", scaled_jacobi(a, b, n, np.array([1.0, -1.0])), [e1, e2],
                    rtol=1e-7, atol=1e-9, a=a, b=b, n=n)
            B.close("values", scaled_jacobi(a, b, n, np.array(xs)), want, rtol=1e-7,
                    atol=1e-8 * max(np.abs(want)), a=a, b=b, n=n)
            B.close("scalar", scaled_jacobi(a, b, n, 0.35), want[3], rtol=1e-7,
                    atol=1e-8 * max(np.abs(want)), a=a, b=b, n=n)

# }}}
