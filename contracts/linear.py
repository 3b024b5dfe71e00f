"""Shared helpers for the matrix contracts (C08, C09)."""
from pyvc import terms as T
from pyvc.sym import SSeq, lift, wrap, new_array, snapshot, F8


class Fns(SSeq):
    """an arbitrary sequence of n functions, called name (uninterpreted)"""

    def __init__(self, name, n, rd_dim):
        self.name = name
        super().__init__(lift(n), lambda j: self.call(j), tuple)
        self.dim = rd_dim

    def call(self, j):
        def f(x):
            rd = snapshot(x)
            return new_array(x.shape[1:], lambda i: self.at(rd, j, *i), F8)
        return f

    def at(self, rd, j, *i):
        return T.app(self.name, lift(j), *[rd((T.num(k), *[lift(z) for z in i]))
                                           for k in range(self.dim)])


class GFns(SSeq):
    """gradients: functions returning a tuple of nc arrays"""

    def __init__(self, name, n, rd_dim, nc):
        self.name, self.dim, self.nc = name, rd_dim, nc
        super().__init__(lift(n), lambda j: self.call(j), tuple)

    def call(self, j):
        def f(x):
            rd = snapshot(x)
            return tuple(new_array(x.shape[1:], lambda i, c=c: self.at(rd, c, j, *i), F8)
                         for c in range(self.nc))
        return f

    def at(self, rd, c, j, *i):
        return T.app(f"{self.name}{c}", lift(j), *[rd((T.num(k), *[lift(z) for z in i]))
                                                   for k in range(self.dim)])


def vdm_stub(functions, nodes):
    """contract of vandermonde (C07)"""
    rd = snapshot(nodes)
    return new_array((nodes.shape[-1], wrap(functions.n)),
                     lambda i: functions.at(rd, i[1], i[0]), F8)


def multi_vdm_stub(functions, nodes):
    rd = snapshot(nodes)
    return tuple(new_array((nodes.shape[-1], wrap(functions.n)),
                           lambda i, c=c: functions.at(rd, c, i[1], i[0]), F8)
                 for c in range(functions.nc))


def sums(his, fn):
    """sum over several indices, 0 <= u < hi"""
    us = [T.fresh("u", "I") for _ in his]
    t = fn(*us)
    for u, h in reversed(list(zip(us, his))):
        t = T.binder("sum", u, T.num(0), lift(h), t)
    return t


def coef(name):
    return lambda j: T.app(name, lift(j))
