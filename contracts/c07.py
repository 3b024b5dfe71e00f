"""C07: generalised Vandermonde matrices."""
import numpy as np

from pyvc import terms as T
from pyvc.sym import SSeq, lift, wrap, new_array, snapshot, F8, elemnum
from .base import Check

CHECK = Check(
    "C07", level="proof",
    trusted=["numpy slicing assignment and allocation (engine model, conformance-checked)"],
    assumptions=["functions are pure, and return arrays with one value per node and a common "
                 "element type"])


def node_fns(v, nf, nodes, d, m, comps=None, name="F"):
    """An arbitrary sequence of nf functions; function j applied to the nodes."""
    rd = snapshot(nodes)

    def one(j):
        def f(x):
            v.prove_array("functions receive the nodes", x, (d, m),
                          lambda a, i: wrap(rd((lift(a), lift(i)))))
            rx = snapshot(x)

            def val(c):
                return new_array((m,), lambda idx: T.app(
                    name, *( [lift(c)] if comps is not None else []), lift(j),
                    *[rx((T.num(k), idx[0])) for k in range(d)]), F8)
            if comps is None:
                return val(0)
            return tuple(val(c) for c in range(comps))
        return f
    return SSeq(lift(nf), one)


def F_at(rd, d, j, i, c=None, name="F"):
    return T.app(name, *([] if c is None else [lift(c)]), lift(j),
                 *[rd((T.num(k), lift(i))) for k in range(d)])


def _vdm(d, n):
    def h(v, W):
        mat = W.modules["modepy.matrices"]
        m = v.int("m", lo=0, sample=lambda r: r.randint(0, 3))
        nf = v.int("nf", lo=0, sample=lambda r: r.randint(0, 4)) if n is None else n
        x = v.array("x", (d, m))
        rd = snapshot(x)
        fs = node_fns(v, nf, x, d, m) if n is None else \
            [node_fns(v, n, x, d, m).get(T.num(j)) for j in range(n)]
        V = mat.vandermonde(fs, x)
        v.prove_array("entry (i, j) is function j at node i", V, (m, nf),
                      lambda i, j: wrap(F_at(rd, d, j, i)))
        v.prove_array("nodes unchanged", x, (d, m), lambda a, i: wrap(rd((lift(a), lift(i)))))
        v.cover("end")
    return h


def _mvdm(d, k):
    def h(v, W):
        mat = W.modules["modepy.matrices"]
        m = v.int("m", lo=0, sample=lambda r: r.randint(0, 3))
        nf = v.int("nf", lo=1, sample=lambda r: r.randint(1, 4))
        x = v.array("x", (d, m))
        rd = snapshot(x)
        Vs = mat.multi_vandermonde(node_fns(v, nf, x, d, m, comps=k), x)
        v.prove("one matrix per component", T.TRUE if len(Vs) == k else T.FALSE)
        for c in range(k):
            v.prove_array(f"matrix {c} holds component {c} of every function at every node",
                          Vs[c], (m, nf), lambda i, j, c=c: wrap(F_at(rd, d, j, i, c)))
        v.prove_array("nodes unchanged", x, (d, m), lambda a, i: wrap(rd((lift(a), lift(i)))))
        v.cover("end")
    return h


for _d in (1, 2, 3):
    CHECK.vc(f"vandermonde {_d}d, any number of functions and nodes",
             functions=["modepy.matrices.vandermonde"])(_vdm(_d, None))
    for _k in sorted({1, _d, 2}):
        CHECK.vc(f"multi_vandermonde {_d}d, {_k} components, any number of functions and nodes",
                 functions=["modepy.matrices.multi_vandermonde"])(_mvdm(_d, _k))
for _n in (0, 1, 2):
    CHECK.vc(f"vandermonde, {_n} functions",
             functions=["modepy.matrices.vandermonde"])(_vdm(2, _n))


@CHECK.vc("multi_vandermonde rejects an empty sequence",
          functions=["modepy.matrices.multi_vandermonde"])
def _(v, W):
    mat = W.modules["modepy.matrices"]
    x = v.array("x", (2, v.int("m", lo=0)))
    try:
        mat.multi_vandermonde([], x)
    except ValueError:
        v.ok("ValueError")
    else:
        v.fail("ValueError")
    v.cover("end")


@CHECK.vc("vandermonde of tuple-valued functions is multi_vandermonde",
          functions=["modepy.matrices.vandermonde"], uses=["modepy.matrices.multi_vandermonde"])
def _(v, W):
    mat = W.modules["modepy.matrices"]
    m = v.int("m", lo=0, sample=lambda r: r.randint(0, 3))
    nf = v.int("nf", lo=1, sample=lambda r: r.randint(1, 4))
    x = v.array("x", (2, m))
    rd = snapshot(x)
    Vs = mat.vandermonde(node_fns(v, nf, x, 2, m, comps=2), x)
    v.prove("a tuple of matrices", T.TRUE if isinstance(Vs, tuple) and len(Vs) == 2
            else T.FALSE)
    for c in range(2):
        v.prove_array(f"matrix {c}", Vs[c], (m, nf),
                      lambda i, j, c=c: wrap(F_at(rd, 2, j, i, c)))
    v.cover("end")


# {{{ battery

@CHECK.battery("vandermonde", functions=["modepy.matrices.vandermonde",
                                         "modepy.matrices.multi_vandermonde"])
def _(B):
    import warnings

    from modepy.matrices import multi_vandermonde, vandermonde
    types = [np.float64, np.float32, np.complex128, np.int64]
    for d in (1, 2, 3, 5):
        for m in (0, 1, 2, 3, 7):
            for nf in (0, 1, 2, 3, 6, 40):
                for dt in types:
                    x = (B.nprng.uniform(-1, 1, (d, m)) * 9).astype(np.float64)
                    x0 = x.copy()
                    cs = [B.nprng.randint(-5, 6, d + 1) for _ in range(nf)]

                    def f(c, a=0):
                        return lambda y: ((c[:d] @ y * (a + 1) + c[d] + a) * (
                            1j if dt is np.complex128 else 1)).astype(dt)
                    want = np.array([f(c)(x) for c in cs]).reshape(nf, m).T
                    fs = tuple(f(c) for c in cs)
                    V = vandermonde(fs, x)
                    B.close("vandermonde", V, want, rtol=0, atol=0, d=d, m=m, nf=nf,
                            dt=dt.__name__)
                    if nf:
                        B.ok("element type", V.dtype == np.dtype(dt), d=d, m=m, nf=nf,
                             dt=dt.__name__)
                        for k in (1, 2, d):
                            Vs = multi_vandermonde([
                                (lambda y, c=c: tuple(f(c, a)(y) for a in range(k)))
                                for c in cs], x)
                            B.ok("number of matrices", len(Vs) == k, d=d, m=m, nf=nf, k=k)
                            for a in range(k):
                                want = np.array([f(c, a)(x) for c in cs]).reshape(nf, m).T
                                B.close("multi_vandermonde", Vs[a], want, rtol=0, atol=0, d=d,
                                        m=m, nf=nf, k=k, a=a, dt=dt.__name__)
                                B.ok("element type", Vs[a].dtype == np.dtype(dt), d=d, m=m,
                                     nf=nf, k=k, a=a, dt=dt.__name__)
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            V2 = vandermonde([
                                (lambda y, c=c: tuple(f(c, a)(y) for a in range(2)))
                                for c in cs], x)
                        B.ok("tuple-valued", isinstance(V2, tuple) and len(V2) == 2
                             and np.array_equal(V2[1], np.array(
                                 [f(c, 1)(x) for c in cs]).reshape(nf, m).T), d=d, m=m, nf=nf,
                             dt=dt.__name__)
                    B.ok("nodes unchanged", np.array_equal(x, x0), d=d, m=m, nf=nf,
                         dt=dt.__name__)
        # repeated functions and repeated nodes are tabulated as given
        g = lambda y: y[0] * 2.0   # noqa: E731
        x = np.zeros((d, 4)) + 0.5
        B.close("repeated", vandermonde((g, g, g), x), np.ones((4, 3)), d=d)
        B.raises("empty multi", ValueError, lambda: multi_vandermonde((), x), d=d)


@CHECK.battery("library bases", functions=["modepy.matrices.vandermonde",
                                           "modepy.matrices.multi_vandermonde"])
def _(B):
    import modepy as mp

    from .c03 import bases_zoo
    for name, d, b in bases_zoo():
        x = B.nprng.uniform(-1, -.5, (d, 5))
        for m in (0, 1, 5):
            y = x[:, :m]
            V = mp.vandermonde(b.functions, y)
            B.ok("shape", V.shape == (m, len(b.functions)), basis=name, m=m)
            for j, f in enumerate(b.functions):
                B.close("column", V[:, j], f(y), rtol=1e-13, basis=name, m=m, j=j)
            Vs = mp.multi_vandermonde(b.gradients, y)
            B.ok("count", len(Vs) == d, basis=name, m=m)
            for j, g in enumerate(b.gradients):
                gv = g(y)
                for a in range(d):
                    B.close("column of component", Vs[a][:, j], gv[a], rtol=1e-13, basis=name,
                            m=m, j=j, a=a)

# }}}
