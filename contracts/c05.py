"""C05: tensor-product basis functions."""
from itertools import product

import numpy as np

from pyvc import terms as T
from pyvc.sym import SSeq, lift, wrap, new_array, snapshot, F8
from .base import Check

CHECK = Check(
    "C05", level="proof",
    trusted=["prefix sums of non-negative numbers are non-negative and bounded by the total",
             "factor functions are pure and act pointwise; factor gradients return a tuple "
             "with one array per axis of the factor"],
    assumptions=["gradients: the number of factors and the factor dimensions are enumerated "
                 "(every list with at most 4 factors, dimensions 0-3 and total <= 5); values: "
                 "any number of factors of any dimensions"])

FN = "modepy.modes._TensorProductBasisFunction.__call__"
GR = "modepy.modes._TensorProductGradientBasisFunction.__call__"


def _arr(shape, name, *a):
    return new_array(shape, lambda i: T.app(name, *[lift(z) for z in a], *i), F8)


def _value_any(nt):
    """any number of factors of any dimensions, nt trailing axes of points"""
    def h(v, W):
        modes = W.modules["modepy.modes"]
        k = v.int("k", lo=0, sample=lambda r: r.randint(0, 3))
        ms = [v.int(f"m{i}", lo=0, sample=lambda r: r.randint(0, 2)) for i in range(nt)]

        def dim(q):
            return T.app("dims", lift(q), sort="I")

        def off(q):
            u = T.fresh("u", "I")
            return T.binder("sum", u, T.num(0), lift(q), dim(u))
        total = wrap(off(k))
        v.assume(total >= 0)
        x = v.array("x", (total, *ms))
        rd = snapshot(x)

        def fun(q):
            q = lift(q)

            def f(y):
                v.prove_array("a factor receives exactly its coordinates", y,
                              (wrap(dim(q)), *ms),
                              lambda a, *i: wrap(rd((T.add(off(q), lift(a)),
                                                     *[lift(z) for z in i]))))
                if not ms:
                    return wrap(T.app("F", q))
                return _arr(ms, "F", q)
            return f

        # 0 <= q < k; prefix sums of non-negative numbers are monotone (trusted lemma)
        v.axiom("dims", lambda q: [] if q is lift(k) else [
            T.le(T.num(0), T.app("dims", q, sort="I")), T.le(T.num(0), off(q)),
            T.or_(T.lt(q, T.num(0)), T.le(lift(k), q),
                  T.le(T.add(off(q), dim(q)), lift(total)))])

        def d(q):
            return wrap(dim(q))
        f = object.__new__(modes._TensorProductBasisFunction)
        object.__setattr__(f, "multi_index", ())
        object.__setattr__(f, "functions", SSeq(lift(k), fun, tuple))
        object.__setattr__(f, "dims_per_function", SSeq(lift(k), d, tuple))
        r = f(x)

        def want(*i):
            u = T.fresh("u", "I")
            return wrap(T.binder("prod", u, T.num(0), lift(k),
                                 T.app("F", u, *[lift(z) for z in i])))
        if ms:
            v.prove_array("the product of the factors' values", r, ms, want)
        else:
            v.prove_eq("the product of the factors' values", r, want())
        v.prove_array("points unmodified", x, (total, *ms), lambda a, *i: wrap(
            rd((lift(a), *[lift(z) for z in i]))))
        v.cover("end")
    return h


for _nt in (0, 1, 2):
    CHECK.vc(f"value, any factors, points with {_nt} trailing axes", functions=[FN])(
        _value_any(_nt))


def _pt(v, ms, xs):
    """factor values as functions of the coordinates of one point (uninterpreted)"""


def _xs(rd, a, d, i):
    return [rd((T.num(a + j), *i)) for j in range(d)]


def check_slice(v, y, rd, o, d, ms):
    v.prove_array("a factor receives exactly its coordinates", y, (d, *ms),
                  lambda a, *i: wrap(rd((T.add(T.num(o), lift(a)), *[lift(z) for z in i]))))


def factor(v, rd, o, d, ms, name, *key):
    """factor function on coordinates o..o+d: value name(key, coordinates)"""
    def f(y):
        check_slice(v, y, rd, o, d, ms)

        def val(i):
            return T.app(name, *[lift(z) for z in key], *_xs(rd, o, d, i))
        return new_array(ms, val, F8) if ms else wrap(val(()))
    return f


def gfactor(v, rd, o, d, ms, name, *key):
    def f(y):
        check_slice(v, y, rd, o, d, ms)
        out = []
        for ax in range(d):
            def val(i, ax=ax):
                return T.app(name, T.num(ax), *[lift(z) for z in key], *_xs(rd, o, d, i))
            out.append(new_array(ms, val, F8) if ms else wrap(val(())))
        return tuple(out)
    return f


def dimlists(nf, total=5, mx=3):
    return [d for d in product(range(mx + 1), repeat=nf) if sum(d) <= total]


def offsets(ds):
    return [sum(ds[:i]) for i in range(len(ds))]


def _want(rd, ds, mid, i, der=None):
    """product of factor values at point i; der = (factor, local axis)"""
    r = T.ONE
    for b, (o, d) in enumerate(zip(offsets(ds), ds)):
        c = _xs(rd, o, d, i)
        if der is not None and der[0] == b:
            r = T.mul(r, T.app(f"dF{b}", T.num(der[1]), *[lift(z) for z in mid[b]], *c))
        else:
            r = T.mul(r, T.app(f"F{b}", *[lift(z) for z in mid[b]], *c))
    return wrap(r)


def _cmp(v, what, r, ms, want):
    if ms:
        v.prove_array(what, r, ms, lambda *i: want([lift(z) for z in i]))
    else:
        v.prove_eq(what, r, want([]))


def _grad(nf, nt):
    def h(v, W):
        modes = W.modules["modepy.modes"]
        ms = [v.int(f"m{i}", lo=0, sample=lambda r: r.randint(0, 2)) for i in range(nt)]
        for ds in dimlists(nf):
            n = sum(ds)
            x = v.array("x" + "".join(map(str, ds)), (n, *ms))
            rd = snapshot(x)
            mid = [()] * nf
            der = tuple(tuple(
                gfactor(v, rd, o, d, ms, f"dF{b}") if b == ib
                else factor(v, rd, o, d, ms, f"F{b}")
                for b, (o, d) in enumerate(zip(offsets(ds), ds))) for ib in range(nf))
            g = modes._TensorProductGradientBasisFunction((), der, dims_per_function=ds)
            r = g(x)
            v.prove(f"one component per axis {ds}", T.TRUE if isinstance(r, tuple)
                    and len(r) == n else T.FALSE)
            for ib, (o, d) in enumerate(zip(offsets(ds), ds)):
                for ax in range(d):
                    _cmp(v, f"component {o + ax} {ds}: only the owning factor differentiated",
                         r[o + ax], ms, lambda i: _want(rd, ds, mid, i, (ib, ax)))
            f = modes._TensorProductBasisFunction((), tuple(
                factor(v, rd, o, d, ms, f"F{b}")
                for b, (o, d) in enumerate(zip(offsets(ds), ds))), dims_per_function=ds)
            _cmp(v, f"value {ds}", f(x), ms, lambda i: _want(rd, ds, mid, i))
            v.prove_array(f"points unmodified {ds}", x, (n, *ms), lambda a, *i: wrap(
                rd((lift(a), *[lift(z) for z in i]))))
        v.cover("end")
    return h


for _nf in (0, 1, 2, 3, 4):
    for _nt in (0, 1, 2):
        CHECK.vc(f"gradient, {_nf} factors, points with {_nt} trailing axes", functions=[GR, FN],
                 timeout=300)(_grad(_nf, _nt))


# {{{ factor selection

def horner(digs, ns):
    """first digit fastest"""
    r = T.num(0)
    for i, n in reversed(list(zip(digs, ns))):
        r = T.add(T.mul(r, lift(n)), lift(i))
    return r


def stub_gnitb(v, ns):
    """contract of generate_nonnegative_integer_tuples_below for the list reversed(ns):
    all tuples, the last entry fastest"""
    k = len(ns)

    def gnitb(arg):
        v.prove("one bound per factor", T.TRUE if len(arg) == k else T.FALSE)
        for j in range(k):
            v.prove_eq(f"bound {j} is the number of functions of the factor {k - 1 - j}",
                       arg[j], ns[k - 1 - j])
        tot = T.ONE
        for n in ns:
            tot = T.mul(tot, lift(n))

        def get(q):
            q = lift(q)
            return tuple(wrap(dig(j, q)) for j in reversed(range(k)))
        return SSeq(tot, get, tuple)
    for j in range(k):
        v.axiom(f"dig{j}", lambda q, j=j: [
            T.le(T.num(0), dig(j, q)), T.lt(dig(j, q), lift(ns[j])),
            T.eq(q, horner([dig(i, q) for i in range(k)], ns))])
    return gnitb


def dig(j, q):
    """index of the function of factor j in mode q"""
    return T.app(f"dig{j}", lift(q), sort="I")


def abstract_basis(v, modes, b, n, fs, gs=None, ids=None, w=None):
    class AbstractBasis(modes.Basis):
        def orthonormality_weight(self):
            return w

        @property
        def mode_ids(self):
            return ids

        @property
        def functions(self):
            return SSeq(lift(n), fs, tuple)

        @property
        def gradients(self):
            return SSeq(lift(n), gs, tuple)
    return AbstractBasis()


def sel_setup(v, W, ds, nt):
    modes = W.modules["modepy.modes"]
    k = len(ds)
    ns = [v.int(f"n{b}", lo=1, sample=lambda r: r.randint(1, 3)) for b in range(k)]
    ms = [v.int(f"m{i}", lo=0, sample=lambda r: r.randint(0, 2)) for i in range(nt)]
    q = v.int("q", lo=0, sample=lambda r: 0)
    tot = T.ONE
    for n in ns:
        tot = T.mul(tot, lift(n))
    v.assume(q < wrap(tot))
    x = v.array("x", (sum(ds), *ms))
    rd = snapshot(x)
    W.pytools["generate_nonnegative_integer_tuples_below"] = stub_gnitb(v, ns)
    bases = []
    for b, (o, d) in enumerate(zip(offsets(ds), ds)):
        bases.append(abstract_basis(
            v, modes, b, ns[b],
            lambda i, b=b, o=o, d=d: factor(v, rd, o, d, ms, f"F{b}", i),
            lambda i, b=b, o=o, d=d: gfactor(v, rd, o, d, ms, f"dF{b}", i)))
    tp = modes.TensorProductBasis(bases, dims_per_basis=ds)
    mid = [(dig(b, q),) for b in range(k)]
    return modes, tp, ns, ms, q, tot, x, rd, mid


def _sel(ds, nt):
    def h(v, W):
        modes, tp, ns, ms, q, tot, x, rd, mid = sel_setup(v, W, ds, nt)
        fs = tp.functions
        v.prove_eq("number of functions", wrap(lift(_len(fs))), wrap(tot))
        _cmp(v, "function of mode q", fs[q](x), ms, lambda i: _want(rd, ds, mid, i))
        gs = tp.gradients
        v.prove_eq("number of gradients", wrap(lift(_len(gs))), wrap(tot))
        g = gs[q](x)
        v.prove("one gradient component per axis", T.TRUE if isinstance(g, tuple)
                and len(g) == sum(ds) else T.FALSE)
        for b, (o, d) in enumerate(zip(offsets(ds), ds)):
            for ax in range(d):
                _cmp(v, f"gradient component {o + ax} of mode q", g[o + ax], ms,
                     lambda i: _want(rd, ds, mid, i, (b, ax)))
                dv = tp.derivatives(o + ax)
                v.prove_eq("number of derivatives", wrap(lift(_len(dv))), wrap(tot))
                _cmp(v, f"derivative {o + ax} of mode q", dv[q](x), ms,
                     lambda i: _want(rd, ds, mid, i, (b, ax)))
        v.cover("end")
    return h


def _len(s):
    from pyvc.runtime import b_len
    return b_len(s)


SEL = ["modepy.modes.TensorProductBasis.functions", "modepy.modes.TensorProductBasis.gradients",
       "modepy.modes.TensorProductBasis.derivatives", "modepy.modes.Basis.derivatives",
       "modepy.modes.TensorProductBasis._mode_index_tuples",
       "modepy.modes.TensorProductBasis._dim_ranges", FN, GR]
for _ds in [(1,), (2,), (1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 1, 1), (2, 1, 1), (1, 2, 1),
            (1, 1, 2), (0, 1), (2, 0, 1), (1, 1, 1, 1)]:
    for _nt in ((0, 1, 2) if len(_ds) < 4 else (1,)):
        CHECK.vc(f"factor selection, dimensions {_ds}, {_nt} trailing axes", functions=SEL,
                 uses=["pytools.gnitb"], timeout=300)(_sel(_ds, _nt))


def _weight(k):
    def h(v, W):
        modes = W.modules["modepy.modes"]
        ws = [v.real(f"w{b}") for b in range(k)]
        tp = modes.TensorProductBasis([abstract_basis(v, modes, b, 1, None, w=ws[b])
                                       for b in range(k)])
        r = T.ONE
        for w in ws:
            r = T.mul(r, lift(w))
        v.prove_eq("product of the factors' weights", tp.orthonormality_weight(), wrap(r))
        v.cover("end")
    return h


for _k in range(5):
    CHECK.vc(f"orthonormality weight, {_k} factors",
             functions=["modepy.modes.TensorProductBasis.orthonormality_weight"])(_weight(_k))

# }}}


# {{{ battery

def direct_product(fs, dims, x):
    """reference: product of factor values, written independently"""
    r = None
    o = 0
    for f, d in zip(fs, dims):
        val = np.asarray(f(x[o:o + d]))
        r = val if r is None else np.multiply(r, val)
        o += d
    return r


def tp_zoo():
    """[(name, basis, factor bases, dims)] with unequal factors"""
    from modepy.modes import (
        TensorProductBasis, monomial_basis_for_space, orthonormal_basis_for_space,
    )
    from modepy.shapes import Simplex
    from modepy.spaces import PN
    out = []

    def mk(kind, d, o):
        f = {"o": orthonormal_basis_for_space, "m": monomial_basis_for_space}[kind]
        return f(PN(d, o), Simplex(d))
    for spec in [(("o", 1, 2),), (("o", 1, 2), ("o", 1, 2)), (("o", 1, 0), ("o", 1, 3)),
                 (("o", 1, 3), ("o", 1, 1)), (("o", 1, 1), ("m", 1, 3)),
                 (("m", 1, 2), ("o", 1, 1)), (("m", 2, 1), ("m", 1, 2)),
                 (("o", 2, 2), ("o", 1, 1)), (("o", 1, 1), ("o", 2, 2)),
                 (("o", 2, 1), ("o", 2, 2)), (("o", 3, 1), ("o", 1, 2)),
                 (("o", 1, 1), ("o", 1, 2), ("o", 1, 3)), (("o", 1, 2), ("o", 2, 1), ("m", 1, 1)),
                 (("o", 2, 1), ("o", 1, 1), ("o", 2, 1)), (("o", 1, 1),) * 4]:
        bases = [mk(*s) for s in spec]
        dims = tuple(s[1] for s in spec)
        out.append((str(spec), TensorProductBasis(bases, dims_per_basis=dims), bases, dims))
    a = TensorProductBasis([mk("o", 1, 1), mk("o", 1, 2)])
    b = mk("o", 2, 1)
    out.append(("nested left", TensorProductBasis([a, b], dims_per_basis=(2, 2)), [a, b], (2, 2)))
    out.append(("nested right", TensorProductBasis([b, a], dims_per_basis=(2, 2)), [b, a],
                (2, 2)))
    c = mk("m", 1, 3)
    out.append(("nested three", TensorProductBasis([c, a, c], dims_per_basis=(1, 2, 1)),
                [c, a, c], (1, 2, 1)))
    return out


@CHECK.battery("products", functions=[FN, GR, *SEL])
def _(B):
    for name, tp, bases, dims in tp_zoo():
        n = sum(dims)
        counts = [len(b.functions) for b in bases]
        mids = [m[::-1] for m in product(*[range(c) for c in counts[::-1]])]
        for attr in ("functions", "gradients", "mode_ids"):
            B.equal(f"number of {attr}", len(getattr(tp, attr)), len(mids), basis=name)
        try:
            w = np.prod([b.orthonormality_weight() for b in bases])
        except Exception as e:
            B.raises("no weight", type(e), tp.orthonormality_weight, basis=name)
        else:
            B.close("weight", tp.orthonormality_weight(), w, basis=name)
        for shape, dt in [((5,), float), ((0,), float), ((1,), float), ((2, 3), float),
                          ((0, 2), float), ((3, 1, 2), float), ((4,), np.float32),
                          ((3,), int), ((0,), int), ((2,), np.int32)]:
            x = B.nprng.uniform(-1, 0, (n, *shape))
            x = (np.round(x * 1.2) if np.dtype(dt).kind == "i" else x).astype(dt)
            if np.dtype(dt).kind == "i":
                x = np.maximum(x, -1).astype(dt)
            x0 = x.copy()
            fs, gs = tp.functions, tp.gradients
            tol = 1e-4 if dt is np.float32 else 1e-11
            for q, mid in enumerate(mids):
                inp = dict(basis=name, shape=shape, dtype=np.dtype(dt).name, mode=mid)
                parts = [b.functions[i] for b, i in zip(bases, mid)]
                ok, r = B.call("value", lambda: fs[q](x), **inp)
                if ok:
                    B.ok("floating point", isinstance(r, np.ndarray) and r.dtype.kind == "f",
                         **inp)
                    B.close("product of the factors", r, direct_product(parts, dims, x), tol, tol,
                            **inp)
                ok, g = B.call("gradient", lambda: gs[q](x), **inp)
                if ok and B.equal("one component per axis", len(g), n, **inp):
                    for ib, (o, d) in enumerate(zip(offsets(dims), dims)):
                        for ax in range(d):
                            p = list(parts)
                            gg = bases[ib].gradients[mid[ib]]
                            p[ib] = lambda y: gg(y)[ax]
                            B.close("component", g[o + ax], direct_product(p, dims, x), tol, tol,
                                    axis=o + ax, **inp)
                B.ok("points unmodified", np.array_equal(x, x0) and x.dtype == x0.dtype, **inp)
        x = B.nprng.uniform(-1, 0, (n, 4))
        for ax in range(n):
            dv = tp.derivatives(ax)
            B.equal("number of derivatives", len(dv), len(mids), basis=name, axis=ax)
            for q in range(len(mids)):
                B.close("derivative", dv[q](x), tp.gradients[q](x)[ax], basis=name, axis=ax,
                        mode=mids[q])


@CHECK.battery("bases of spaces", functions=SEL)
def _(B):
    from modepy.modes import (
        basis_for_space, monomial_basis_for_space, orthonormal_basis_for_space,
    )
    from modepy.shapes import Simplex, TensorProductShape
    from modepy.spaces import PN, QN, TensorProductSpace
    for ds, os_ in [((1, 1), (2, 3)), ((1, 1, 1), (1, 2, 0)), ((2, 1), (2, 1)), ((1, 2), (0, 2)),
                    ((1, 3), (2, 1)), ((1, 1, 2), (1, 2, 1)), ((1, 2, 1), (2, 1, 3))]:
        sp = TensorProductSpace(tuple(PN(d, o) for d, o in zip(ds, os_)))
        sh = TensorProductShape(tuple(Simplex(d) for d in ds))
        for nm, f in [("basis", basis_for_space), ("orth", orthonormal_basis_for_space),
                      ("mono", monomial_basis_for_space)]:
            tp = f(sp, sh)
            bases = [f(PN(d, o), Simplex(d)) for d, o in zip(ds, os_)]
            counts = [len(b.functions) for b in bases]
            mids = [m[::-1] for m in product(*[range(c) for c in counts[::-1]])]
            x = B.nprng.uniform(-1, 0, (sum(ds), 5))
            for q, mid in enumerate(mids):
                B.close("function", tp.functions[q](x), direct_product(
                    [b.functions[i] for b, i in zip(bases, mid)], ds, x), kind=nm, dims=ds,
                    orders=os_, mode=mid)

# }}}
