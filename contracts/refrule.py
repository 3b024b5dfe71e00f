"""Reference quadrature on the reference elements, independent of modepy."""
from functools import lru_cache
from itertools import product

import numpy as np


@lru_cache(None)
def gauss_jacobi(n, k):
    """nodes, weights for the weight (1-x)^k on [-1, 1]; exact to degree 2n-1"""
    from scipy.special import roots_jacobi
    return roots_jacobi(n, k, 0)


@lru_cache(None)
def simplex_rule(d, n):
    """exact to degree 2n-1 on the reference simplex"""
    pts, wts = [], []
    rules = [gauss_jacobi(n, k) for k in range(d)]
    for idx in product(range(n), repeat=d):
        u = [rules[k][0][idx[k]] for k in range(d)]
        w = np.prod([rules[k][1][idx[k]] / 2 ** k for k in range(d)]) if d else 1.0
        x, rem = [0.0] * d, 1.0
        for k in range(d - 1, -1, -1):
            lam = (1 + u[k]) / 2 * rem
            x[k] = -1 + 2 * lam
            rem -= lam
        pts.append(x)
        wts.append(w)
    return np.array(pts).reshape(-1, d).T, np.array(wts)


def factors(shape):
    """dimensions of the simplices whose product the shape is"""
    name = type(shape).__name__
    if name.startswith("Hypercube") or name == "_HypercubeFace":
        return (1,) * shape.dim
    if name == "TensorProductShape":
        return tuple(k for s in shape.bases for k in factors(s))
    return (shape.dim,)


def reference_rule(shape, degree):
    n = degree // 2 + 1
    rules = [simplex_rule(d, n) for d in factors(shape)]
    pts, wts = [], []
    for idx in product(*[range(len(w)) for _, w in rules]):
        pts.append(np.concatenate([r[0][:, i] for r, i in zip(rules, idx)])
                   if rules else np.zeros(0))
        wts.append(np.prod([r[1][i] for r, i in zip(rules, idx)]))
    return np.array(pts).T.reshape(sum(factors(shape)), -1), np.array(wts)


def total_order(sp):
    """a bound on the degree in each simplex factor"""
    if hasattr(sp, "bases"):
        return max([total_order(b) for b in sp.bases], default=0)
    return sp.order
