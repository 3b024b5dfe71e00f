"""C06: reshaping of tensor-product coefficient arrays."""
from itertools import product

import numpy as np

from pyvc import terms as T
from pyvc.sym import lift, wrap, snapshot
from .base import Check

CHECK = Check(
    "C06", level="proof",
    trusted=["numpy.reshape with order='F' (engine model, conformance-checked)"],
    assumptions=["factor dimensions and all axis lengths are arbitrary non-negative integers; "
                 "the number of factors and of leading/trailing axes is enumerated (<= 4 and "
                 "<= 2)"])

RE = "modepy.tools.reshape_array_for_tensor_product_space"
UN = "modepy.tools.unreshape_array_for_tensor_product_space"
SD = "modepy.spaces.TensorProductSpace.space_dim"


def sym_space(v, W, k, lo=1):
    sp = W.modules["modepy.spaces"]
    ns = [v.int(f"n{i}", lo=lo, sample=lambda r: r.randint(1, 3)) for i in range(k)]

    class Factor(sp.FunctionSpace):
        def __init__(self, n):
            self.n = n

        @property
        def spatial_dim(self):
            return 1

        @property
        def space_dim(self):
            return self.n
    return sp.TensorProductSpace(tuple(Factor(n) for n in ns)), ns


def horner(idx, ns):
    """first index fastest"""
    r = T.num(0)
    for i, n in reversed(list(zip(idx, ns))):
        r = T.add(T.mul(r, lift(n)), lift(i))
    return r


def prod(ns):
    r = T.ONE
    for n in ns:
        r = T.mul(r, lift(n))
    return wrap(r)


def _lead(v, nlead, ntrail):
    ls = [v.int(f"l{i}", lo=0, sample=lambda r: r.randint(1, 2)) for i in range(nlead)]
    ts = [v.int(f"t{i}", lo=0, sample=lambda r: r.randint(1, 2)) for i in range(ntrail)]
    return ls, ts


def _re(k, nlead, ntrail, neg):
    def h(v, W):
        tools = W.modules["modepy.tools"]
        space, ns = sym_space(v, W, k)
        ls, ts = _lead(v, nlead, ntrail)
        a = v.array("a", (*ls, prod(ns), *ts))
        rd = snapshot(a)
        axis = -1 - ntrail if neg else nlead
        r = tools.reshape_array_for_tensor_product_space(space, a, axis) \
            if (ntrail or not neg) else \
            tools.reshape_array_for_tensor_product_space(space, a)
        v.prove_array("entry (i1, ..., ik) is the coefficient of mode (i1, ..., ik)", r,
                      (*ls, *ns, *ts), lambda *i: wrap(rd(
                          (*[lift(x) for x in i[:nlead]], horner(i[nlead:nlead + k], ns),
                           *[lift(x) for x in i[nlead + k:]]))))
        b = tools.unreshape_array_for_tensor_product_space(space, r, axis)
        v.prove_array("unreshaping restores the array", b, (*ls, prod(ns), *ts),
                      lambda *i: wrap(rd(tuple(lift(x) for x in i))))
        v.cover("end")
    return h


def _un(k, nlead, ntrail, neg):
    def h(v, W):
        tools = W.modules["modepy.tools"]
        space, ns = sym_space(v, W, k)
        ls, ts = _lead(v, nlead, ntrail)
        a = v.array("a", (*ls, *ns, *ts))
        rd = snapshot(a)
        axis = -1 - ntrail if neg else nlead
        r = tools.unreshape_array_for_tensor_product_space(space, a, axis)
        b = tools.reshape_array_for_tensor_product_space(space, r, axis)
        v.prove_array("reshaping restores the array", b, (*ls, *ns, *ts),
                      lambda *i: wrap(rd(tuple(lift(x) for x in i))))
        v.cover("end")
    return h


for _k, _l, _t, _neg in [(2, 0, 0, True), (2, 1, 0, True), (2, 2, 0, True), (2, 1, 1, True),
                         (2, 1, 1, False), (2, 0, 1, False), (2, 0, 2, True),
                         (3, 0, 0, True), (3, 1, 0, True), (3, 1, 0, False), (3, 2, 1, True),
                         (4, 0, 0, True), (4, 1, 1, False), (0, 1, 0, True), (0, 0, 0, True)]:
    _nm = f"{_k} factors, {_l} leading and {_t} trailing axes, axis {'<' if _neg else '>='} 0"
    CHECK.vc("reshape: " + _nm, functions=[RE, UN, SD])(_re(_k, _l, _t, _neg))
    CHECK.vc("unreshape: " + _nm, functions=[RE, UN, SD])(_un(_k, _l, _t, _neg))


def _bad(k, nlead):
    def h(v, W):
        tools = W.modules["modepy.tools"]
        space, ns = sym_space(v, W, k)
        ls, _ = _lead(v, nlead, 0)
        m = v.int("m", lo=0, sample=lambda r: 1000)
        v.assume(wrap(T.not_(T.eq(lift(m), lift(prod(ns))))))
        a = v.array("a", (*ls, m))
        try:
            tools.reshape_array_for_tensor_product_space(space, a)
        except ValueError:
            v.ok("a wrong axis length is rejected")
        else:
            v.fail("a wrong axis length is rejected")
        for axis in (nlead + 1, -nlead - 2):
            try:
                tools.reshape_array_for_tensor_product_space(
                    space, v.array("b", (*ls, prod(ns))), axis)
            except ValueError:
                v.ok("an invalid axis is rejected")
            else:
                v.fail("an invalid axis is rejected")
        v.cover("end")
    return h


def _badun(k, nlead, which):
    def h(v, W):
        tools = W.modules["modepy.tools"]
        space, ns = sym_space(v, W, k)
        ls, _ = _lead(v, nlead, 0)
        m = v.int("m", lo=0, sample=lambda r: 1000)
        v.assume(wrap(T.not_(T.eq(lift(m), lift(ns[which])))))
        dims = list(ns)
        dims[which] = m
        a = v.array("a", (*ls, *dims))
        try:
            tools.unreshape_array_for_tensor_product_space(space, a)
        except ValueError:
            v.ok("a wrong factor length is rejected")
        else:
            v.fail("a wrong factor length is rejected")
        for axis in (nlead + 1, -nlead - 2):
            try:
                tools.unreshape_array_for_tensor_product_space(
                    space, v.array("b", (*ls, *ns)), axis)
            except ValueError:
                v.ok("an invalid axis is rejected")
            else:
                v.fail("an invalid axis is rejected")
        v.cover("end")
    return h


for _k in (2, 3):
    for _l in (0, 1):
        CHECK.vc(f"reshape rejects wrong sizes and axes: {_k} factors, {_l} leading",
                 functions=[RE, SD])(_bad(_k, _l))
        for _w in range(_k):
            CHECK.vc(f"unreshape rejects wrong sizes and axes: {_k} factors, {_l} leading, "
                     f"factor {_w}", functions=[UN])(_badun(_k, _l, _w))


@CHECK.vc("spaces without tensor structure leave the array alone", functions=[RE, UN])
def _(v, W):
    tools, sp = W.modules["modepy.tools"], W.modules["modepy.spaces"]
    a = v.array("a", (v.int("l", lo=0), v.int("m", lo=0)))
    s = sp.PN(2, 3)
    v.prove("reshape", T.TRUE if tools.reshape_array_for_tensor_product_space(s, a) is a
            else T.FALSE)
    v.prove("unreshape", T.TRUE if tools.unreshape_array_for_tensor_product_space(s, a) is a
            else T.FALSE)
    v.cover("end")


# {{{ battery

def spaces_zoo(thorough=False):
    from modepy.spaces import PN, QN, TensorProductSpace
    out = [QN(2, 0), QN(2, 1), QN(2, 3), QN(3, 2), QN(4, 1)]
    for o in [(0, 1), (1, 0), (2, 1), (1, 2), (0, 0), (4, 1), (1, 2, 3), (3, 1, 2), (0, 2, 1),
              (2, 0, 3), (1, 1, 4), (1, 0, 2, 3), (3, 2, 1, 0)]:
        out.append(TensorProductSpace(tuple(PN(1, k) for k in o)))
    for a, b in [((2, 2), (1, 1)), ((2, 1), (1, 3)), ((1, 2), (2, 3)), ((1, 0), (2, 2)),
                 ((2, 2), (2, 3)), ((3, 2), (1, 1)), ((3, 1), (2, 2)), ((1, 4), (3, 1))]:
        out.append(TensorProductSpace((PN(*a), PN(*b))))
    out.append(TensorProductSpace((QN(2, 1), PN(1, 3))))
    out.append(TensorProductSpace((PN(1, 3), QN(2, 1), PN(2, 2))))
    return out


@CHECK.battery("reshape", functions=[RE, UN, SD])
def _(B):
    from modepy.spaces import PN
    from modepy.tools import (
        reshape_array_for_tensor_product_space as re,
        unreshape_array_for_tensor_product_space as un,
    )
    for sp in spaces_zoo():
        ns = [b.space_dim for b in sp.bases]
        n = int(np.prod(ns))
        nm = repr(sp)
        B.equal("space dimension", sp.space_dim, n, space=nm)
        for lead, trail in [((), ()), ((2,), ()), ((3, 2), ()), ((), (2,)), ((2,), (3,)),
                            ((2, 1), (3, 2)), ((0,), ())]:
            for dt in (float, int, complex, object):
                for lay in "CF":
                    a = np.arange(int(np.prod([*lead, n, *trail]))).reshape(
                        (*lead, n, *trail)).astype(dt)
                    a = np.asarray(a, order=lay)
                    a0 = a.copy()
                    axes = {len(lead), -1 - len(trail)}
                    for ax in sorted(axes):
                        ok, r = B.call("reshape", lambda: re(sp, a, ax), space=nm,
                                       shape=a.shape, axis=ax)
                        if not ok:
                            continue
                        B.equal("shape", r.shape, (*lead, *ns, *trail), space=nm,
                                shape=a.shape, axis=ax)
                        good = r.shape == (*lead, *ns, *trail)
                        if good:
                            for q, mi in enumerate(product(*[range(x) for x in ns[::-1]])):
                                mi = mi[::-1]
                                good = good and np.array_equal(
                                    r[(*[slice(None)] * len(lead), *mi)],
                                    a0[(*[slice(None)] * len(lead), q)])
                        B.ok("entries", good, space=nm, shape=a.shape, axis=ax)
                        ok, b = B.call("unreshape", lambda: un(sp, r, ax), space=nm,
                                       shape=a.shape, axis=ax)
                        if ok:
                            B.equal("inverse", b.tolist(), a0.tolist(), space=nm,
                                    shape=a.shape, axis=ax)
                            B.equal("element type", b.dtype, a.dtype, space=nm,
                                    shape=a.shape, axis=ax)
        if n > 1 and len(ns) > 1:
            B.raises("wrong length", ValueError, lambda: re(sp, np.zeros(n + 1)), space=nm)
            B.raises("wrong length", ValueError, lambda: re(sp, np.zeros((n, 2 * n))),
                     space=nm)
            B.raises("wrong length", ValueError, lambda: re(sp, np.zeros((n, 1))), space=nm)
            for ax in (2, -3, 5):
                B.raises("wrong axis", ValueError, lambda: re(sp, np.zeros((n, n)), ax),
                         space=nm, axis=ax)
                B.raises("wrong axis", ValueError, lambda: un(sp, np.zeros(ns), ax), space=nm,
                         axis=ax)
            if ns != ns[::-1]:
                B.raises("wrong factor order", ValueError, lambda: un(sp, np.zeros(ns[::-1])),
                         space=nm)
            B.raises("wrong factor sizes", ValueError, lambda: un(sp, np.zeros([1, *ns[:-1],
                     2 * ns[-1]])), space=nm)
            B.raises("flat array", ValueError, lambda: un(sp, np.zeros(n)), space=nm)
    a = np.zeros((2, 6))
    B.ok("no tensor structure", re(PN(2, 2), a) is a and un(PN(2, 2), a) is a)

# }}}
