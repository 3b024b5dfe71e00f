"""C20: modal decay estimation."""
import math
import warnings
from itertools import product

import numpy as np

from pyvc import evalt, norm, terms as T
from pyvc.sym import SSeq, F8, Unsupported, is_scalar, lift, wrap, new_array, snapshot
from .base import Check
from .c04 import GNITSAM, GNITB, stub_gnitsam, the_mode, fresh_sizes
from .c05 import _len, abstract_basis, dig, stub_gnitb

CHECK = Check(
    "C20", level="proof",
    trusted=["numpy.linalg.pinv(A) b is the least-squares solution for a matrix of full column "
             "rank; numpy.linalg.inv the inverse",
             "pytools' tuple generators by contract (see C04)",
             "log, exp uninterpreted; log(0) is not finite"],
    assumptions=["floating point is treated as real arithmetic (rows of zeros, for which "
                 "everything is nan, are left out)"],
    bounded=["dimensions 0 to 4 and up to four tensor factors are enumerated; numbers of modes "
             "and elements, orders, numbers of ignored modes are arbitrary"])

MD = "modepy.modal_decay."


# {{{ preparation of the coefficients

@evalt.interp("SK")
def _(i, k, m):
    if m < 2:
        raise evalt.Undefined("fewer than two modes")
    return max(evalt._hashval("c", (i, j), "R") for j in range(min(m - k, m - 2), m))


@CHECK.vc("skyline", functions=[MD + "skyline_pessimize"])
def _(v, W):
    md = W.modules["modepy.modal_decay"]
    E = v.int("E", lo=0, sample=lambda r: r.randint(0, 3))
    M = v.int("M", lo=2, sample=lambda r: r.randint(2, 5))
    c = v.array("c", (E, M))
    rd = snapshot(c)
    m = lift(M)
    mx = lambda a, b: T.ite(T.lt(a, b), b, a)   # noqa: E731

    # SK(i, k, M): the largest of the last k values of row i (of the last two if k < 2)
    def sk(i, k, _m):
        if norm.equal(k, T.ZERO):
            return mx(rd((i, T.sub(m, T.ONE))), rd((i, T.sub(m, T.num(2)))))
        if v.entails(T.lt(T.ZERO, k)):
            return mx(T.app("SK", i, T.sub(k, T.ONE), m), rd((i, T.sub(m, k))))
        return None
    v.defs["SK"] = (1, sk)

    def row():
        if not v.loopstack:
            raise Unsupported("no enclosing loop")
        return v.loopstack[0].K
    v.hint_fns["skyline_pessimize"] = [
        lambda k: wrap(T.app("SK", row(), lift(k), m)),
        # all rows at once
        lambda k: new_array((E,), lambda i: T.app("SK", i[0], lift(k), m), F8)]
    r = md.skyline_pessimize(c)
    v.prove_array("largest value at this or a later mode", r, (E, M),
                  lambda i, j: wrap(T.app("SK", lift(i), T.sub(m, lift(j)), m)))
    v.prove_array("coefficients unmodified", c, (E, M),
                  lambda i, j: wrap(rd((lift(i), lift(j)))))
    v.cover("end")


@CHECK.vc("mode numbers", functions=[MD + "make_mode_number_vector"])
def _(v, W):
    md = W.modules["modepy.modal_decay"]
    n = v.int("n", lo=0, sample=lambda r: r.randint(2, 5))
    g = v.int("g", lo=0, sample=lambda r: r.randint(0, 2))
    v.assume(g <= n)
    for d in (1, 2, 3, 4):
        tuples = SSeq(lift(n), lambda q: tuple(
            wrap(T.app(f"mode{k}", lift(q), sort="I")) for k in range(d)), tuple)
        r = md.make_mode_number_vector(tuples, g)
        v.prove_array(f"total degrees of the modes after the ignored ones, {d} axes", r,
                      (n - g,), lambda i: wrap(_total(T.add(lift(i), lift(g)), d)))
    v.cover("end")


def _total(q, d):
    r = T.ZERO
    for t in the_mode(q, d):
        r = T.add(r, t)
    return r


@CHECK.vc("baseline", functions=[MD + "create_decay_baseline"])
def _(v, W):
    md = W.modules["modepy.modal_decay"]
    k = v.int("k", lo=0, sample=lambda r: r.randint(0, 4))
    n = v.int("n", lo=0)
    m = v.array("m", (k,), sort="I")
    rd = snapshot(m)
    v.axiom("m", lambda i: [T.le(T.ZERO, T.app("m", i, sort="I"))])
    r = md.create_decay_baseline(m, n)
    val = lambda i: T.ite(T.eq(rd((i,)), T.ZERO), T.ONE,      # noqa: E731
                          T.pow_(T.to_real(rd((i,))), T.neg(lift(n))))
    u = T.fresh("u", "I")
    nrm = T.sqrt(T.binder("sum", u, T.ZERO, lift(k), T.mul(val(u), val(u))))
    v.prove_array("decay of the order, unit norm", r, (k,),
                  lambda i: wrap(T.div(val(lift(i)), nrm)))
    v.prove_array("mode numbers unmodified", m, (k,), lambda i: wrap(rd((lift(i),))))
    v.cover("end")


def _fit_matrix(ignored):
    def h(v, W):
        md = W.modules["modepy.modal_decay"]
        got = []

        def pinv(a):
            got.append(a)
            return "the pseudo-inverse"
        W.la.pinv = pinv
        k = v.int("k", lo=1, sample=lambda r: r.randint(1, 4))
        g = v.int("g", lo=1) if ignored else 0
        m = v.array("m", (k,), sort="I")
        w = v.array("w", (k,))
        if not ignored:
            v.assume(m[0] == 0)
            v.nonfinite = []
            v.assume(w[0] != 0)
            # log(0) and its non-zero multiples are not finite
            v.axiom("isinf", lambda t: [
                T.or_(T.not_(T.eq(x.args[1], T.ZERO)), T.eq(T.app("w", T.ZERO), T.ZERO),
                      T.app("isinf", t, sort="B"))
                for x in T.subterms(t) if x.op == "app" and x.args[0] == "log"])
        r = md.get_decay_fit_matrix(m, g, w)
        v.prove("the pseudo-inverse is returned", T.TRUE if r == "the pseudo-inverse"
                and len(got) == 1 else T.FALSE)

        def want(i, j):
            i, j = lift(i), lift(j)
            lg = T.mul(T.app("w", i), T.app("log", T.to_real(T.app("m", i, sort="I"))))
            if not ignored:
                lg = T.ite(T.eq(i, T.ZERO), T.ZERO, lg)
            return wrap(T.ite(T.eq(j, T.ZERO), T.app("w", i), lg))
        v.prove_array("columns: the weights, the weighted logarithms of the degrees", got[0],
                      (k, 2), want)
        v.cover("end")
    return h


for _g in (True, False):
    CHECK.vc(f"fit matrix, {'some' if _g else 'no'} modes ignored", functions=[
        MD + "get_decay_fit_matrix"])(_fit_matrix(_g))

# }}}


# {{{ the fit

def _fit(d):
    def h(v, W):
        md = W.modules["modepy.modal_decay"]
        E = v.int("E", lo=0, sample=lambda r: r.randint(0, 2))
        M = v.int("M", lo=2, sample=lambda r: r.randint(2, 4))
        N = v.int("N", lo=0)
        g = v.int("g", lo=0, sample=lambda r: r.randint(0, 2))
        v.assume(g <= M)
        k = M - g
        W.pytools[GNITSAM] = stub_gnitsam(v, N, d, M)
        c = v.array("c", (E, M))
        rd = snapshot(c)
        deg = lambda i: _total(T.add(lift(i), lift(g)), d)    # noqa: E731

        def numbers(tuples, ignored):
            v.prove_eq("ignored modes", ignored, g)
            v.prove_eq("one number per mode", wrap(lift(_len(tuples))), M)
            q = v.int("q", lo=0)
            v.assume(q < M)
            for a, t in enumerate(tuples[q]):
                v.prove_eq(f"entry {a} of the tuple", t, wrap(the_mode(q, d)[a]))
            return new_array((k,), lambda i: deg(i[0]), np.dtype("int32"))

        def matrix(m, ignored, w):
            v.prove_eq("ignored modes", ignored, g)
            v.prove_array("the modes' degrees", m, (k,), lambda i: wrap(deg(i)))
            v.prove_array("no weighting", w, (k,), lambda i: 1)
            return new_array((2, k), lambda i: T.app("P", *i), F8)

        def skyline(a):
            v.prove_array("squared coefficients", a, (E, M), lambda i, j: wrap(
                T.mul(rd((lift(i), lift(j))), rd((lift(i), lift(j))))))
            return new_array((E, M), lambda i: T.app("S", *i), F8)

        def baseline(m, n):
            v.prove_array("the modes' degrees", m, (k,), lambda i: wrap(deg(i)))
            v.prove_eq("decay of the order", n, N)
            return new_array((k,), lambda i: T.app("B", *i), F8)
        for nm, f in [("make_mode_number_vector", numbers), ("get_decay_fit_matrix", matrix),
                      ("skyline_pessimize", skyline), ("create_decay_baseline", baseline)]:
            W.patch(MD + nm, f)
        ex, co = md.fit_modal_decay(c, d, N, g)

        def logs(e, i):
            u = T.fresh("u", "I")
            size = T.binder("sum", u, T.ZERO, lift(M), T.app("S", e, u))
            b = T.mul(T.app("B", i), size)
            return T.div(T.app("log", T.add(T.app("S", e, T.add(i, lift(g))), T.mul(b, b))),
                         T.num(2))

        def ls(e, row):
            u = T.fresh("u", "I")
            return T.binder("sum", u, T.ZERO, lift(k), T.mul(T.app("P", T.num(row), u),
                                                             logs(e, u)))
        v.prove_array("exponent: slope of the least-squares fit of the logarithms", ex, (E,),
                      lambda e: wrap(ls(lift(e), 1)))
        v.prove_array("constant: exponential of its offset", co, (E,),
                      lambda e: wrap(T.app("exp", ls(lift(e), 0))))
        v.prove_array("coefficients unmodified", c, (E, M),
                      lambda i, j: wrap(rd((lift(i), lift(j)))))
        v.cover("end")
    return h


for _d in (1, 2, 3, 4):
    CHECK.vc(f"fit, {_d}d", functions=[MD + "fit_modal_decay"], uses=[
        MD + "make_mode_number_vector", MD + "get_decay_fit_matrix", MD + "skyline_pessimize",
        MD + "create_decay_baseline", "pytools." + GNITSAM])(_fit(_d))


@CHECK.vc("residual", functions=[MD + "estimate_relative_expansion_residual"],
          uses=[MD + "fit_modal_decay"])
def _(v, W):
    md = W.modules["modepy.modal_decay"]
    E = v.int("E", lo=0, sample=lambda r: r.randint(0, 2))
    M = v.int("M", lo=2, sample=lambda r: r.randint(2, 4))
    N, d, g = v.int("N", lo=0), v.int("d", lo=1), v.int("g", lo=0)
    c = v.array("c", (E, M))
    rd = snapshot(c)

    def fit(cc, dims, n, ignored):
        v.prove_array("the coefficients", cc, (E, M), lambda i, j: wrap(
            rd((lift(i), lift(j)))))
        for what, a, b in [("dimension", dims, d), ("order", n, N), ("ignored", ignored, g)]:
            v.prove_eq(what, a, b)
        return (new_array((E,), lambda i: T.app("X", *i), F8),
                new_array((E,), lambda i: T.app("K", *i), F8))
    W.patch(MD + "fit_modal_decay", fit)
    r = md.estimate_relative_expansion_residual(c, d, N, g)

    def want(e):
        e = lift(e)
        u = T.fresh("u", "I")
        nrm = T.sqrt(T.binder("sum", u, T.ZERO, lift(M), T.mul(rd((e, u)), rd((e, u)))))
        p = T.add(T.mul(T.num(2), T.app("X", e)), T.ONE)
        tail = T.sqrt(T.div(T.neg(T.pow_(T.to_real(T.add(lift(N), T.ONE)), p)), p))
        q = T.div(T.mul(T.app("K", e), tail), nrm)
        return wrap(T.ite(T.lt(T.ONE, q), T.ZERO, q))
    v.prove_array("tail of the fitted curve relative to the norm", r, (E,), want)
    v.prove_array("coefficients unmodified", c, (E, M),
                  lambda i, j: wrap(rd((lift(i), lift(j)))))
    v.cover("end")

# }}}


# {{{ degrees, highest modes

def _degree_simplex(cls, d):
    def h(v, W):
        md, modes = W.modules["modepy.modal_decay"], W.modules["modepy.modes"]
        n, N = v.int("n", lo=1), v.int("N", lo=0)
        W.pytools[GNITSAM] = stub_gnitsam(v, N, d, n)
        b = getattr(modes, cls)(d, N)
        v.prove_array("total degree", md.degree_vector(b), (n,),
                      lambda q: wrap(_total(lift(q), d)))
        v.cover("end")
    return h


for _c in ("_SimplexONB", "_SimplexMonomialBasis"):
    for _d in (1, 2, 3):
        CHECK.vc(f"degrees, {_c} {_d}d", functions=[MD + "degree_vector_simplex"],
                 uses=["pytools." + GNITSAM])(_degree_simplex(_c, _d))


def _degree_tp(k):
    def h(v, W):
        md, modes = W.modules["modepy.modal_decay"], W.modules["modepy.modes"]
        ns, tot, q = fresh_sizes(v, k)
        W.pytools[GNITB] = stub_gnitb(v, ns)
        bases = [abstract_basis(v, modes, b, ns[b], lambda i: None) for b in range(k)]
        real = md.degree_vector.dispatch(modes.TensorProductBasis)

        def deg(b):
            for i, bb in enumerate(bases):
                if b is bb:
                    return new_array((ns[i],), lambda j: T.app(f"D{i}", *j, sort="I"),
                                     np.dtype("int64"))
            raise Unsupported("degree of an unknown basis")
        W.patch(MD + "degree_vector", deg)
        r = real(modes.TensorProductBasis(bases, dims_per_basis=(1,) * k))
        w = T.app("D0", dig(0, lift(q)), sort="I")
        for b in range(1, k):
            x = T.app(f"D{b}", dig(b, lift(q)), sort="I")
            w = T.ite(T.lt(w, x), x, w)
        v.prove_eq("one degree per mode", wrap(r._shape[0]), wrap(tot))
        v.prove_eq("largest of the factors' degrees", r[q], wrap(w))
        v.cover("end")
    return h


for _k in (1, 2, 3, 4):
    CHECK.vc(f"degrees, {_k} factors", functions=[
        MD + "degree_vector_tp", "modepy.modes.TensorProductBasis._mode_index_tuples"],
        uses=[MD + "degree_vector", "pytools." + GNITB])(_degree_tp(_k))


@CHECK.vc("coefficients of the highest modes",
          functions=[MD + "interp_error_coefficient_estimator_matrix"],
          uses=["modepy.matrices.vandermonde", MD + "degree_vector"])
def _(v, W):
    md, modes = W.modules["modepy.modal_decay"], W.modules["modepy.modes"]
    n = v.int("n", lo=1, sample=lambda r: r.randint(1, 4))
    d = v.int("d", lo=1)
    t = v.int("t", lo=0)
    basis = abstract_basis(v, modes, 0, n, lambda i: ("function", i))
    nodes = v.array("x", (d, n))

    def vdm(fs, x):
        v.prove_eq("as many functions as nodes", wrap(lift(_len(fs))), n)
        v.prove("the given nodes", T.TRUE if x is nodes else T.FALSE)
        return new_array((n, n), lambda i: T.app("V", *i), F8)
    W.patch("modepy.matrices.vandermonde", vdm)

    def degs():
        return new_array((n,), lambda j: T.app("D", *j, sort="I"), np.dtype("int64"))

    def deg(b):
        v.prove("the basis", T.TRUE if b is basis else T.FALSE)
        return degs()
    W.patch(MD + "degree_vector", deg)
    r = md.interp_error_coefficient_estimator_matrix(nodes, t, basis)
    np_, la = W.np, W.la
    D = degs()
    inv = la.inv(new_array((n, n), lambda i: T.app("V", *i), F8))
    want = inv[D > np_.max(D) - t]
    rd = snapshot(want)
    v.prove_array("rows of the inverse Vandermonde matrix for the modes of the highest degrees",
                  r, want.shape, lambda i, j: wrap(rd((lift(i), lift(j)))))
    v.cover("end")

# }}}


# {{{ battery

def _skyline(c):
    r = np.empty_like(c)
    for i in range(c.shape[0]):
        m = c.shape[1]
        for j in range(m):
            r[i, j] = max(c[i, min(j, m - 2):])
    return r


def _tuples(n, d):
    from itertools import product as P
    return sorted(t for t in P(range(n + 1), repeat=d) if sum(t) <= n)


def _reference(c, d, n, g):
    """the definition, row by row, with numpy's least squares"""
    deg = np.array([sum(t) for t in _tuples(n, d)][g:], float)
    res = []
    for row in c:
        s = _skyline(row[None]**2)[0]
        size = s.sum()
        with np.errstate(all="ignore"):
            b = np.where(deg == 0, 1.0, deg**(-float(n)))
        b = b / np.sqrt((b**2).sum()) * size
        y = np.log(s[g:] + b**2) / 2
        with np.errstate(all="ignore"):
            lg = np.where(deg == 0, 0.0, np.log(deg))
        A = np.stack([np.ones_like(lg), lg], axis=1)
        x = np.linalg.lstsq(A, y, rcond=None)[0]
        res.append((x[1], np.exp(x[0])))
    return np.array(res).reshape(-1, 2)


def _residual(c, d, n, g):
    res = _reference(c, d, n, g)
    p = 2 * res[:, 0] + 1
    with np.errstate(all="ignore"):
        r = res[:, 1] * np.sqrt(-(n + 1.0)**p / p) / np.sqrt((c**2).sum(axis=1))
        return np.where(r > 1, 0, r)


def _nan(x):
    """no estimate: the fitted curve is not square integrable"""
    return np.where(np.isnan(x), -1.0, x)


@CHECK.battery("skyline, baseline, mode numbers, fit, residual: the definition",
               functions=[MD + "skyline_pessimize", MD + "make_mode_number_vector",
                          MD + "fit_modal_decay", MD + "estimate_relative_expansion_residual",
                          MD + "create_decay_baseline", MD + "get_decay_fit_matrix"])
def _(B):
    import modepy.modal_decay as md
    warnings.simplefilter("ignore")
    rng = B.nprng
    for d, n, g in product((1, 2, 3), (1, 2, 3, 4, 7), (0, 1, 2, 3)):
        m = math.comb(n + d, d)
        if m - g < 2:
            continue
        tups = tuple(_tuples(n, d))
        deg = [sum(t) for t in tups][g:]
        B.equal("mode numbers", md.make_mode_number_vector(tups, g).tolist(), deg, d=d, n=n,
                ignored=g)
        # a fit needs two different degrees
        fit_ok = len({x if x else 1 for x in deg}) > 1 and (g == 0 or 0 not in deg)
        bl = md.create_decay_baseline(np.array(deg), n)
        want = np.array([1.0 if x == 0 else float(x)**-n for x in deg])
        B.close("baseline", bl, want / np.sqrt((want**2).sum()), 1e-12, 1e-300, d=d, n=n,
                ignored=g)
        for kind in ("random", "decaying", "rough", "sparse", "increasing"):
            E = B.rng.choice([1, 2, 5])
            c = rng.uniform(-1, 1, (E, m))
            if kind == "decaying":
                c = c * np.exp(-1.5 * np.array([sum(t) for t in tups]))
            elif kind == "rough":
                c = rng.choice([-1.0, 1.0], (E, m)) * rng.uniform(.5, 2, (E, m))
            elif kind == "sparse":
                c = c * (rng.uniform(size=(E, m)) < .3)
                c[:, B.rng.randrange(m)] = 1.0
            elif kind == "increasing":
                c = np.sort(np.abs(c), axis=1)
            c0 = c.copy()
            sky = md.skyline_pessimize(c)
            B.equal("skyline", sky.tolist(), _skyline(c).tolist(), c=c)
            if not fit_ok:
                continue
            ok, r = B.call("fit", lambda: md.fit_modal_decay(c, d, n, g), c=c, d=d, n=n,
                           ignored=g)
            if not ok:
                continue
            want = _reference(c, d, n, g)
            B.close("exponent", r[0], want[:, 0], 1e-7, 1e-9, c=c0, d=d, n=n, ignored=g)
            B.close("constant", r[1], want[:, 1], 1e-7, 1e-300, c=c0, d=d, n=n, ignored=g)
            with np.errstate(all="ignore"):
                rr = md.estimate_relative_expansion_residual(c, d, n, g)
                B.close("residual", _nan(rr), _nan(_residual(c, d, n, g)), 1e-6, 1e-12, c=c0,
                        d=d, n=n, ignored=g)
                # row independence
                if E > 1:
                    i = B.rng.randrange(E)
                    one = md.fit_modal_decay(c[i:i + 1], d, n, g)
                    B.close("rows are independent", [r[0][i], r[1][i]], [one[0][0], one[1][0]],
                            1e-10, 1e-300, c=c0, row=i, d=d, n=n, ignored=g)
                    perm = rng.permutation(E)
                    pr = md.estimate_relative_expansion_residual(c[perm], d, n, g)
                    B.close("rows may be permuted", _nan(pr), _nan(rr[perm]), 1e-9, 1e-300, c=c0, d=d, n=n,
                            ignored=g)
            B.equal("coefficients unmodified", c.tolist(), c0.tolist(), c=c0)
            if g == 1:
                dr = md.fit_modal_decay(c, d, n)
                B.close("one mode is ignored by default", dr[0], r[0], 1e-12, 0, c=c0)


@CHECK.battery("residual does not depend on the scale of a row",
               functions=[MD + "fit_modal_decay", MD + "estimate_relative_expansion_residual"])
def _(B):
    import modepy.modal_decay as md
    # one fixed input: the only one for which the known finding is evaluated
    c = np.random.default_rng(0).random((3, 15))
    with np.errstate(all="ignore"):
        a = md.estimate_relative_expansion_residual(c, 2, 4)
        b = md.estimate_relative_expansion_residual(1e-3 * c, 2, 4)
    B.close("residual is scale invariant", b, a, 1e-8, 1e-10,
            c="default_rng(0).random((3, 15))", dims=2, n=4, scale=1e-3)


@CHECK.battery("coefficients of the highest modes", functions=[
    MD + "interp_error_coefficient_estimator_matrix", MD + "degree_vector",
    MD + "simplex_interp_error_coefficient_estimator_matrix"])
def _(B):
    import modepy as mp
    import modepy.modal_decay as md
    from modepy.shapes import Hypercube, Simplex, TensorProductShape
    rng = B.nprng
    warnings.simplefilter("ignore")
    shapes = [Simplex(1), Simplex(2), Simplex(3), Hypercube(2), Hypercube(3),
              TensorProductShape((Simplex(2), Simplex(1))),
              TensorProductShape((Simplex(1), Simplex(2)))]
    for shape in shapes:
        for order in (1, 2, 3, 4) if shape.dim < 3 or B.thorough else (1, 2, 3):
            space = mp.space_for_shape(shape, order)
            mono = [False, True] if order <= 3 else [False]
            for mb in mono:
                basis = (mp.monomial_basis_for_space if mb else mp.orthonormal_basis_for_space)(
                    space, shape)
                ids = basis.mode_ids
                deg = []
                for i in ids:
                    i = i if isinstance(i, tuple) else (i,)
                    if isinstance(shape, Simplex):
                        deg.append(sum(i))
                    else:
                        deg.append(max(sum(j) if isinstance(j, tuple) else j for j in i))
                deg = np.array(deg)
                ok, dv = B.call("degree vector", lambda: md.degree_vector(basis), shape=shape,
                                order=order)
                if ok:
                    B.equal("degrees", np.asarray(dv).tolist(), deg.tolist(), shape=shape,
                            order=order, monomial=mb)
                nodes = mp.edge_clustered_nodes_for_space(space, shape)
                co = rng.uniform(-1, 1, len(ids))
                vals = mp.vandermonde(basis.functions, nodes) @ co
                for t in range(0, order + 2):
                    ok, C = B.call("matrix", lambda: md.interp_error_coefficient_estimator_matrix(
                        nodes, t, basis), shape=shape, order=order, tail=t)
                    if not ok:
                        continue
                    w = co[deg > deg.max() - t]
                    B.close("coefficients of the modes of the highest degrees", C @ vals, w,
                            1e-7, 1e-8, shape=shape, order=order, tail=t, monomial=mb)
                    B.equal("one row per such mode", C.shape, (len(w), len(ids)),
                            shape=shape, order=order, tail=t, monomial=mb)
                    if isinstance(shape, Simplex) and not mb:
                        ok, C2 = B.call("simplex matrix", lambda: (
                            md.simplex_interp_error_coefficient_estimator_matrix(
                                nodes, order, t)), shape=shape, order=order, tail=t)
                        if ok:
                            B.close("the simplex function gives the same matrix", C2, C, 1e-9,
                                    1e-10, shape=shape, order=order, tail=t)
    # products with unequal orders of the factors
    for o1, o2 in product((1, 2, 3), repeat=2):
        sp = mp.TensorProductSpace((mp.PN(1, o1), mp.PN(2, o2)))
        sh = TensorProductShape((Simplex(1), Simplex(2)))
        basis = mp.orthonormal_basis_for_space(sp, sh)
        deg = [max(i[0] if isinstance(i[0], int) else sum(i[0]), sum(i[1]))
               for i in basis.mode_ids]
        B.equal("degrees", md.degree_vector(basis).tolist(), deg, orders=(o1, o2))
    ok = False
    try:
        md.degree_vector(object())
    except TypeError:
        ok = True
    B.ok("TypeError for other objects", ok)

# }}}
