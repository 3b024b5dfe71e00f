"""C13: tensor-product quadrature and the application of rules."""
from itertools import product

import numpy as np

from pyvc import terms as T
from pyvc.sym import SArr, lift, wrap, new_array, snapshot, F8
from .base import Check
from .c05 import horner, offsets

CHECK = Check(
    "C13", level="proof",
    trusted=["a finite sum over all index combinations equals the iterated sum (reindexing)"],
    assumptions=["the number of factors and the factor dimensions are enumerated (up to four "
                 "factors of dimensions 0-3); numbers of nodes, nodes, weights and integrands "
                 "are arbitrary"])

Q = "modepy.quadrature."
TPQ = Q + "TensorProductQuadrature.__init__"
TPN = "modepy.nodes.tensor_product_nodes"
CALL = Q + "Quadrature.__call__"


def _nodes(v, name, spec):
    """spec: 'v' for a vector of nodes, otherwise the number of axes"""
    n = v.int("n" + name, lo=1, sample=lambda r: r.randint(1, 3)) if spec else 1
    x = v.array("x" + name, (n,) if spec == "v" else (spec, n))
    return n, x, snapshot(x)


def _at(rd, spec, a, i):
    return rd((i,)) if spec == "v" else rd((T.num(a), i))


SPECS = [(), ("v",), (1,), (2,), (0,), ("v", "v"), (1, "v"), (1, 1), (2, 1), (1, 2), (2, 3), (0, 1),
         (1, 0), ("v", 2), ("v", "v", "v"), (1, 2, 1), (2, 1, 1), (1, 1, 2), (3, "v", 2),
         (1, 1, 1, 1), (2, 1, "v", 1)]


def _setup(v, specs):
    fs = [_nodes(v, str(b), s) for b, s in enumerate(specs)]
    ns = [f[0] for f in fs]
    digs = [v.int(f"i{b}", lo=0, sample=lambda r: 0) for b in range(len(specs))]
    for i, n in zip(digs, ns):
        v.assume(wrap(T.lt(lift(i), lift(n))))
    tot = T.ONE
    for n in ns:
        tot = T.mul(tot, lift(n))
    return fs, ns, digs, wrap(tot), wrap(horner([lift(i) for i in digs], ns))


def _check_nodes(v, x, fs, specs, digs, tot, flat):
    ds = [1 if s == "v" else s for s in specs]
    v.prove("two axes", T.TRUE if x.ndim == 2 else T.FALSE)
    v.prove_eq("one row per axis", wrap(x._shape[0]) if isinstance(x, SArr) else x.shape[0],
               sum(ds))
    v.prove_eq("one column per combination", wrap(x._shape[1]) if isinstance(x, SArr)
               else x.shape[1], tot)
    for b, o in enumerate(offsets(ds)):
        for a in range(ds[b]):
            v.prove_eq(f"coordinate {o + a} of a combination", x[o + a, flat],
                       wrap(_at(fs[b][2], specs[b], a, lift(digs[b]))))


def _tpn(specs):
    def h(v, W):
        nodes = W.modules["modepy.nodes"]
        fs, ns, digs, tot, flat = _setup(v, specs)
        x = nodes.tensor_product_nodes([f[1] for f in fs])
        _check_nodes(v, x, fs, specs, digs, tot, flat)
        for b, (n, y, rd) in enumerate(fs):
            v.prove_array(f"nodes {b} unchanged", y, y.shape,
                          lambda *i: wrap(rd(tuple(lift(z) for z in i))))
        v.cover("end")
    return h


def _tpn_int(d, spec):
    def h(v, W):
        nodes = W.modules["modepy.nodes"]
        n, y, rd = _nodes(v, "", spec)
        digs = [v.int(f"i{b}", lo=0, sample=lambda r: 0) for b in range(d)]
        for i in digs:
            v.assume(i < n)
        tot = T.ONE
        for _ in range(d):
            tot = T.mul(tot, lift(n))
        flat = wrap(horner([lift(i) for i in digs], [n] * d))
        x = nodes.tensor_product_nodes(d, y)
        _check_nodes(v, x, [(n, y, rd)] * d, (spec,) * d, digs, wrap(tot), flat)
        v.cover("end")
    return h


for _s in SPECS:
    CHECK.vc(f"tensor_product_nodes {_s}", functions=[TPN])(_tpn(_s))
for _d in range(5):
    for _s in ("v", 1):
        CHECK.vc(f"tensor_product_nodes({_d}, ...) {_s}", functions=[TPN])(_tpn_int(_d, _s))


@CHECK.vc("tensor_product_nodes: inconsistent arguments", functions=[TPN])
def _(v, W):
    nodes = W.modules["modepy.nodes"]
    n, y, _ = _nodes(v, "", "v")
    for what, a in [("no nodes given", (2,)), ("nodes given twice", ([y, y], y))]:
        try:
            nodes.tensor_product_nodes(*a)
        except ValueError:
            v.ok(what)
        else:
            v.fail(what)
    v.cover("end")


def _quads(v, W, specs, known):
    qm = W.modules["modepy.quadrature"]
    fs, ns, digs, tot, flat = _setup(v, specs)
    ws = [v.array(f"w{b}", (n,)) for b, n in enumerate(ns)]
    es = [v.int(f"e{b}", lo=0) if k else None for b, k in enumerate(known)]
    return qm, fs, ns, digs, tot, flat, ws, es, [
        qm.Quadrature(f[1], w, e) for f, w, e in zip(fs, ws, es)]


def _tpq(specs, gen=False):
    def h(v, W):
        k = len(specs)
        qm, fs, ns, digs, tot, flat, ws, es, qs = _quads(v, W, specs, [True] * k)
        rws = [snapshot(w) for w in ws]
        q = qm.TensorProductQuadrature(iter(list(qs)) if gen else list(qs))
        _check_nodes(v, q.nodes, fs, specs, digs, tot, flat)
        v.prove("weights: one axis", T.TRUE if q.weights.ndim == 1 else T.FALSE)
        v.prove_eq("one weight per node", q.weights.shape[0], tot)
        r = T.ONE
        for rd, i in zip(rws, digs):
            r = T.mul(r, rd((lift(i),)))
        v.prove_eq("product of the weights at the same position", q.weights[flat], wrap(r))
        v.prove("factors kept", T.TRUE if len(q.quadratures) == k and all(
            a is b for a, b in zip(q.quadratures, qs)) else T.FALSE)
        if k:
            e = q.exact_to
            for x in es:
                v.prove("exactness not above any factor's", wrap(T.le(lift(e), lift(x))))
            v.prove("exactness is one of the factors'", wrap(T.or_(
                *[T.eq(lift(e), lift(x)) for x in es])))
        else:
            v.prove("point evaluation is always exact",
                    T.TRUE if isinstance(q.exact_to, qm._Inf) else T.FALSE)
        for b, w in enumerate(ws):
            v.prove_array(f"weights {b} unchanged", w, (ns[b],),
                          lambda i: wrap(rws[b]((lift(i),))))
        v.cover("end")
    return h


def _unknown(known):
    def h(v, W):
        qm, *_, qs = _quads(v, W, (1,) * len(known), known)
        q = qm.TensorProductQuadrature(qs)
        try:
            q.exact_to
        except AttributeError:
            v.ok("exactness unknown when a factor's is")
        else:
            v.fail("exactness unknown when a factor's is")
        v.cover("end")
    return h


for _s in SPECS:
    CHECK.vc(f"TensorProductQuadrature {_s}", functions=[TPQ, TPN, Q + "Quadrature.__init__",
                                                         Q + "Quadrature.exact_to"])(_tpq(_s))
CHECK.vc("TensorProductQuadrature of a generator", functions=[TPQ])(_tpq((1, 1), gen=True))
for _k in [(False,), (True, False), (False, True), (False, False), (True, False, True)]:
    CHECK.vc(f"exactness known {_k}", functions=[TPQ, Q + "Quadrature.exact_to"])(_unknown(_k))


def _inf(pos):
    def h(v, W):
        qm = W.modules["modepy.quadrature"]
        e = v.int("e", lo=0)
        one = [qm.TensorProductQuadrature([]), qm.Quadrature(v.array("x", (1, 2)),
                                                             v.array("w", (2,)), e)]
        q = qm.TensorProductQuadrature(one[::pos])
        v.prove_eq("the finite exactness is the smallest", q.exact_to, e)
        v.cover("end")
    return h


for _p in (1, -1):
    CHECK.vc(f"exactness with an always exact factor {_p}", functions=[
        TPQ, Q + "_Inf.__lt__", Q + "_Inf.__gt__"])(_inf(_p))


def _lg(cls, base):
    def h(v, W):
        qm = W.modules["modepy.quadrature"]
        jg = W.modules["modepy.quadrature.jacobi_gauss"]
        N, n, e = v.int("N", lo=0), v.int("n", lo=1, sample=lambda r: r.randint(1, 3)), \
            v.int("e", lo=0)
        x, w = v.array("x", (1, n)), v.array("w", (n,))
        log = []

        def stub(order, backend=None, force_dim_axis=False):
            log.append((order, backend, force_dim_axis))
            return qm.Quadrature(x if force_dim_axis else x.reshape(-1), w, e)
        setattr(jg, base, stub)
        rx, rw = snapshot(x), snapshot(w)
        for d in range(4):
            for be in (None, "builtin"):
                del log[:]
                q = getattr(qm, cls)(N, d, **({} if be is None else {"backend": be}))
                for a, b, _ in log:
                    v.prove_eq("same order", a, N)
                    v.prove("same backend", T.TRUE if b == be else T.FALSE)
                digs = [v.int(f"i{d}{be}{b}", lo=0, sample=lambda r: 0) for b in range(d)]
                for i in digs:
                    v.assume(i < n)
                flat = wrap(horner([lift(i) for i in digs], [n] * d))
                tot, r = T.ONE, T.ONE
                for i in digs:
                    tot, r = T.mul(tot, lift(n)), T.mul(r, rw((lift(i),)))
                _check_nodes(v, q.nodes, [(n, x, rx)] * d, (1,) * d, digs, wrap(tot), flat)
                v.prove_eq("weights", q.weights[flat], wrap(r))
                if d:
                    v.prove_eq("exactness", q.exact_to, e)
        v.cover("end")
    return h


for _c, _b in [("LegendreGaussTensorProductQuadrature", "LegendreGaussQuadrature"),
               ("LegendreGaussLobattoTensorProductQuadrature", "LegendreGaussLobattoQuadrature")]:
    CHECK.vc(_c, functions=[f"{Q}{_c}.__init__", TPQ, TPN])(_lg(_c, _b))


# {{{ application

def _call(nd, nl):
    """rule with nodes of nd axes (0: vector), integrand with nl leading axes"""
    def h(v, W):
        qm = W.modules["modepy.quadrature"]
        n = v.int("n", lo=0, sample=lambda r: r.randint(0, 3))
        ls = [v.int(f"l{j}", lo=0, sample=lambda r: r.randint(0, 2)) for j in range(nl)]
        x = v.array("x", (n,) if nd == 0 else (nd, n))
        w = v.array("w", (n,))
        rx, rw = snapshot(x), snapshot(w)
        seen = []

        def val(*i):
            *l, p = [lift(z) for z in i]
            return T.app("f", *l, *([rx((p,))] if nd == 0 else
                                    [rx((T.num(a), p)) for a in range(nd)]))

        def f(y):
            seen.append(1)
            v.prove_array("evaluated at the nodes", y, x.shape,
                          lambda *i: wrap(rx(tuple(lift(z) for z in i))))
            return new_array((*ls, n), lambda i: val(*i), F8)
        r = qm.Quadrature(x, w)(f)
        v.prove("evaluated", T.TRUE if seen else T.FALSE)

        def want(*l):
            u = T.fresh("i", "I")
            return wrap(T.binder("sum", u, T.num(0), lift(n), T.mul(rw((u,)), val(*l, u))))
        if nl:
            v.prove_array("weighted sum of values", r, ls, want)
        else:
            v.prove_eq("weighted sum of values", r, want())
        v.prove_array("weights unchanged", w, (n,), lambda i: wrap(rw((lift(i),))))
        v.prove_array("nodes unchanged", x, x.shape,
                      lambda *i: wrap(rx(tuple(lift(z) for z in i))))
        v.cover("end")
    return h


for _nd in (0, 1, 2, 3):
    for _nl in (0, 1):
        CHECK.vc(f"application, dim {_nd}, {_nl} leading axes", functions=[CALL])(_call(_nd, _nl))


@CHECK.vc("dimension of a rule", functions=[Q + "Quadrature.dim"])
def _(v, W):
    qm = W.modules["modepy.quadrature"]
    n, d = v.int("n", lo=0), v.int("d", lo=0)
    v.prove_eq("vector of nodes", qm.Quadrature(v.array("x", (n,)), v.array("w", (n,))).dim, 1)
    v.prove_eq("matrix of nodes", qm.Quadrature(v.array("y", (d, n)), v.array("w", (n,))).dim, d)
    v.cover("end")

# }}}


# {{{ battery

def _rules():
    import modepy as mp
    from modepy.quadrature import ZeroDimensionalQuadrature
    r = np.random.RandomState(5)

    def rnd(d, n, e):
        return mp.Quadrature(r.uniform(-1, 1, (d, n) if d else n), r.uniform(-1, 2, n), e)
    out = {"lg2": mp.LegendreGaussQuadrature(2, force_dim_axis=True),
           "lg1v": mp.LegendreGaussQuadrature(1), "lg0": mp.LegendreGaussQuadrature(
               0, force_dim_axis=True),
           "gll3": mp.LegendreGaussLobattoQuadrature(3, force_dim_axis=True),
           "gll1v": mp.LegendreGaussLobattoQuadrature(1),
           "cc3": mp.ClenshawCurtisQuadrature(3), "fejer": mp.FejerQuadrature(2),
           "jg": mp.JacobiGaussQuadrature(0.5, 1, 2, force_dim_axis=True),
           "xg3": mp.XiaoGimbutasSimplexQuadrature(3, 2),
           "gm1": mp.GrundmannMoellerSimplexQuadrature(1, 2),
           "js": mp.JaskowiecSukumarQuadrature(2, 3), "wv": mp.WitherdenVincentQuadrature(3, 2),
           "zero": ZeroDimensionalQuadrature(), "rnd": rnd(0, 4, 0), "rnd1": rnd(1, 3, 1),
           "rnd2": rnd(2, 5, None), "rnd3": rnd(3, 2, 1)}
    out["empty tp"] = mp.TensorProductQuadrature([])
    out["tp"] = mp.TensorProductQuadrature([out["lg2"], out["gll1v"]])
    return out


@CHECK.battery("products of rules", functions=[TPQ, TPN, CALL])
def _(B):
    import modepy as mp
    R = _rules()
    names = list(R)
    lists = [()] + [(a,) for a in names] + list(product(names, repeat=2)) + \
        [tuple(B.rng.choice(names) for _ in range(B.rng.choice((3, 3, 4))))
         for _ in range(400 if B.thorough else 60)]
    for ls in lists:
        qs = [R[a] for a in ls]
        ds = [q.nodes.shape[0] if q.nodes.ndim == 2 else 1 for q in qs]
        if np.prod([q.weights.size for q in qs]) > 6000:
            continue
        inp = dict(factors=ls)
        old = [(q.nodes.copy(), q.weights.copy()) for q in qs]
        ok, q = B.call("constructed", lambda: mp.TensorProductQuadrature(qs), **inp)
        if not ok:
            continue
        combos = [c[::-1] for c in product(*[range(q_.weights.size) for q_ in qs[::-1]])]
        want = np.array([np.concatenate(
            [np.zeros(0)] + [np.atleast_2d(q_.nodes)[:, i] for q_, i in zip(qs, c)])
            for c in combos]).T.reshape(sum(ds), len(combos))
        ww = np.array([np.prod([q_.weights[i] for q_, i in zip(qs, c)]) for c in combos])
        B.close("nodes", q.nodes, want, 1e-13, 1e-14, **inp)
        B.close("weights", q.weights, ww, 1e-12, 1e-14, **inp)
        B.equal("dim", q.dim, sum(ds), **inp)
        e = [q_._exact_to for q_ in qs]
        if any(x is None for x in e):
            B.raises("unknown exactness", AttributeError, lambda: q.exact_to, **inp)
        elif not e:
            B.ok("inf", q.exact_to > 10**9, **inp)
        else:
            okc, g = B.call("exact_to", lambda: q.exact_to, **inp)
            if okc:
                B.ok("smallest exactness", all(g <= x for x in e) and any(
                    g is x or g == x for x in e), **inp)
        if sum(ds):
            def fp(x):
                r, o = 1, 0
                for b, d in enumerate(ds):
                    r = r * np.cos((b + 1) * x[o:o+d].sum(0) + b * x[o:o+min(d, 1)].sum(0)) * (1 + x[o:o+d].prod(0))
                    o += d
                return r
            parts = 1.0
            for b, (q_, d) in enumerate(zip(qs, ds)):
                y = q_.nodes.reshape(d, q_.weights.size)
                parts *= (q_.weights * np.cos((b+1) * y.sum(0) + b * y[:1].sum(0))
                          * (1 + y.prod(0))).sum()
            B.close("product function", q(fp), parts, 1e-11, 1e-11, **inp)
            B.close("vector valued", q(lambda x: np.array([fp(x), 2 + 0*x[0], x[0]])),
                    [parts, 2*ww.sum(), (ww * want[0]).sum()], 1e-11, 1e-11, **inp)
            B.close("complex valued", q(lambda x: fp(x) + 1j*x[0]), parts + 1j*(ww*want[0]).sum(),
                    1e-11, 1e-11, **inp)
        for q_, (n0, w0) in zip(qs, old):
            B.ok("factors unmodified", np.array_equal(q_.nodes, n0)
                 and np.array_equal(q_.weights, w0), **inp)


@CHECK.battery("application", functions=[CALL])
def _(B):
    for name, q in _rules().items():
        x, w = q.nodes, q.weights
        one = np.ones(w.size)
        B.close("one", q(lambda y: np.ones(w.size)), w.sum(), rule=name)
        for k in (1, 2, 4):
            V = B.nprng.uniform(-1, 1, (k, w.size))
            B.close("table of values", q(lambda y: V), [(w * V[j]).sum() for j in range(k)],
                    rule=name, rows=k)
        V = B.nprng.uniform(-1, 1, w.size)
        B.close("vector of values", q(lambda y: V), (w * V).sum(), rule=name)
        V = B.nprng.uniform(-1, 1, w.size) + 1j*B.nprng.uniform(-1, 1, w.size)
        B.close("complex values", q(lambda y: V), (w * V).sum(), rule=name)
        V = np.arange(w.size)
        B.close("integer values", q(lambda y: V), (w * V).sum(), rule=name)
        got = []
        q(lambda y: got.append(y) or one)
        B.ok("evaluated at the nodes", np.array_equal(got[0], x), rule=name)
        B.equal("dim", q.dim, 1 if x.ndim == 1 else x.shape[0], rule=name)

# }}}
