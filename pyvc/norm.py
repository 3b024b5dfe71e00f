"""Generalised-polynomial normal form: an exact decision aid for equalities.

A term is flattened to a finite sum  c * prod_j base_j ** exponent_j  with rational c,
bases that are atoms (variables, uninterpreted applications, canonical sums, primes, -1) or
canonical polynomials, and exponents  q + (symbolic integer/real linear combination).
``is_zero`` is sound: if it answers True the term is zero wherever every negative power is
defined (definedness is checked separately).
"""
from __future__ import annotations

import itertools
from fractions import Fraction

from . import terms as T
from .terms import Node


class Ctx:
    """Oracle used while normalising (facts available under the current path condition)."""
    depth = 0

    def nonneg(self, node):
        return False

    def entails(self, cond):
        return False

    def rewrite_sum(self, v, lo, hi, mono):
        """Hook: try to evaluate  sum_v mono  (a monomial) using known sum identities."""
        return None

    key = None


_default = Ctx()
CTX = [_default]
F1 = Fraction(1)
F0 = Fraction(0)
EXPAND_LIMIT = 4000


class TooBig(Exception):
    pass


# {{{ exponents: (Fraction, sym) with sym a frozen tuple of (mono, coeff)

E1 = (F1, ())


def e_add(a, b):
    if not a[1] and not b[1]:
        return (a[0] + b[0], ())
    d = dict(a[1])
    for m, c in b[1]:
        d[m] = d.get(m, F0) + c
        if d[m] == 0:
            del d[m]
    return (a[0] + b[0], _freeze(d))


def e_scale(a, k):
    if k == 0:
        return (F0, ())
    return (a[0] * k, tuple((m, c * k) for m, c in a[1]))


def _mkey(m):
    return tuple((b.id, e[0], tuple((_mkey(mm), c) for mm, c in e[1])) for b, e in m)


def _freeze(d):
    return tuple(sorted(d.items(), key=lambda mc: _mkey(mc[0])))


def e_of(gp):
    """GP -> exponent"""
    d = dict(gp)
    c = d.pop((), F0)
    return (c, _freeze(d))


def e_mul(a, b):
    """product of two exponents"""
    if not a[1]:
        return e_scale(b, a[0])
    if not b[1]:
        return e_scale(a, b[0])
    return e_of(gp_mul(e_gp(a), e_gp(b)))


def e_gp(e):
    d = dict(e[1])
    if e[0] != 0:
        d[()] = e[0]
    return d


def e_is_int(e):
    """Is the exponent integer valued for all values of its variables?"""
    if e[0].denominator != 1:
        return False
    for m, c in e[1]:
        if c.denominator != 1:
            return False
        for b, ex in m:
            if b.sort != "I" or ex[1] or ex[0].denominator != 1 or ex[0] < 0:
                return False
    return True


# }}}


# {{{ monomials and polynomials

def mono_mul(a, b):
    """-> (coeff, mono)"""
    if not a:
        return F1, b
    if not b:
        return F1, a
    d = dict(a)
    for base, e in b:
        if base in d:
            d[base] = e_add(d[base], e)
        else:
            d[base] = e
    return mono_canon(d)


_rep = {}


def rep_sign(b):
    """The representative of {b, -b}: the one known to be nonnegative, else sign-canonical."""
    key = (b, CTX[0].key)
    r = _rep.get(key)
    if r is not None:
        return r
    r = b
    if not _nonneg(b):
        g = norm(b)
        nb = gp_term(gp_scale(g, -1))
        if nb.op == "add":
            if _nonneg(nb) or (_content(g) < 0):
                r = nb
                _memo[(nb, CTX[0].key)] = gp_scale(g, -1)
    _rep[key] = r
    return r


def mono_canon(d):
    coeff = F1
    out = []
    for base, e in d.items():
        if base.op == "num":
            c = base.args[0]
            if c == -1:
                k = e[0]
                sym = []
                for m, cc in e[1]:
                    if all(b.sort == "I" and ex[0].denominator == 1 and ex[0] >= 0
                           and not ex[1] for b, ex in m):
                        cc = cc % 2
                    if cc:
                        sym.append((m, cc))
                if k.denominator == 1:
                    if k % 2:
                        coeff = -coeff
                    k = F0
                e = (k, tuple(sym))
            else:
                fl = e[0].numerator // e[0].denominator
                coeff *= c ** fl
                e = (e[0] - fl, e[1])
        if e[0] == 0 and not e[1]:
            continue
        if base.op == "add" and not e[1] and not (e[0].denominator == 1 and e[0] > 0):
            rb = rep_sign(base)
            if rb is not base and e[0].denominator == 1:
                d2 = {b: ee for b, ee in d.items() if b is not base}
                d2[rb] = e_add(d2.get(rb, (F0, ())), e)
                k2, m2 = mono_canon(d2)
                return (-k2 if e[0] % 2 else k2), m2
        if base.op == "mul" and not e[1] and e[0].denominator == 1:
            # (-b)**k, from a radical of a negated atom
            d2 = {b: ee for b, ee in d.items() if b is not base}
            e1odd = bool(e[0] % 2)
            b = [x for x in base.args if x.op != "num"]
            assert len(b) == 1 and len(base.args) == 2
            b = b[0]
            if b.op == "pow":
                b, e0 = b.args[0], b.args[1].args[0]
            else:
                e0 = F1
            d2[b] = e_add(d2.get(b, (F0, ())), e_scale(e, e0))
            k2, m2 = mono_canon(d2)
            return (-k2 if e1odd else k2), m2
        out.append((base, e))
    out.sort(key=lambda be: be[0].id)
    return coeff, tuple(out)


def gp_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, F0) + c
        if s == 0:
            r.pop(m, None)
        else:
            r[m] = s
    return r


def gp_scale(a, k):
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


def gp_mul(a, b):
    if len(a) * len(b) > EXPAND_LIMIT * 10:
        raise TooBig()
    r = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            k, m = mono_mul(ma, mb)
            s = r.get(m, F0) + ca * cb * k
            if s == 0:
                r.pop(m, None)
            else:
                r[m] = s
    return expand_pos(r)


def is_polybase(b):
    return b.op == "add"


def expand_pos(gp):
    """Expand non-negative integer powers of polynomial bases."""
    while True:
        todo = None
        for m in gp:
            for b, e in m:
                if b.op == "add" and not e[1] and e[0].denominator == 1 and e[0] > 0:
                    todo = (m, b, e)
                    break
            if todo:
                break
        if todo is None:
            return gp
        m, b, e = todo
        c = gp[m]
        gp = dict(gp)
        del gp[m]
        rest = tuple((bb, ee) for bb, ee in m if bb is not b)
        p = gp_pow(raw(b), int(e[0]))
        t = {}
        for mm, cc in p.items():
            k, m2 = mono_mul(rest, mm)
            s = t.get(m2, F0) + cc * c * k
            if s:
                t[m2] = s
            else:
                t.pop(m2, None)
        gp = gp_add(gp, t)
        if len(gp) > EXPAND_LIMIT:
            raise TooBig()


def gp_pow(a, n):
    r = {(): F1}
    base = a
    while n:
        if n & 1:
            r = gp_mul(r, base)
        n >>= 1
        if n:
            base = gp_mul(base, base)
    return r


def raw(b):
    """GP of a canonical polynomial-base node (no renormalisation)."""
    return norm(b)


def gp_const(c):
    return {(): Fraction(c)} if c != 0 else {}


def gp_atom(n):
    return {((n, E1),): F1}


# }}}


# {{{ back to terms

def exp_term(e):
    return T.add(T.num(e[0]), *[T.mul(T.num(c), mono_term(m)) for m, c in e[1]])


def mono_term(m):
    return T.mul(T.num(1), *[T.pow_(b, exp_term(e)) for b, e in m])


def gp_term(gp):
    items = sorted(gp.items(), key=lambda mc: _mkey(mc[0]))
    return T.add(T.num(0), *[T.mul(T.num(c), mono_term(m)) for m, c in items])


def canon(n):
    """Canonical term for n (idempotent up to definedness)."""
    return gp_term(norm(n))


# }}}


_memo: dict = {}
ALIGN = [False]     # bring sums of f(k + s) to the form sums of f(k)


def norm(n: Node):
    key = (n, CTX[0].key, ALIGN[0])
    r = _memo.get(key)
    if r is None:
        r = _norm(n)
        _memo[key] = r
    return r


def clear():
    _memo.clear()


def _norm(n):
    op = n.op
    if op == "num":
        return gp_const(n.args[0])
    if op == "var":
        return gp_atom(n)
    if op == "add":
        r = {}
        for a in n.args:
            r = gp_add(r, norm(a))
        return r
    if op == "mul":
        r = {(): F1}
        for a in n.args:
            r = gp_mul(r, norm(a))
            if not r:
                return {}
        return r
    if op == "pow":
        return _norm_pow(n.args[0], n.args[1])
    if op == "app":
        return _norm_app(n)
    if op == "sum":
        return _norm_sum(n)
    if op == "prod":
        return _norm_prod(n)
    if op == "ite":
        c = norm_bool(n.args[0])
        if c.op not in ("true", "false"):
            if CTX[0].entails(c):
                c = T.TRUE
            elif CTX[0].entails(T.not_(c)):
                c = T.FALSE
            elif c.op == "and":
                # conjuncts that hold on this path
                keep = [x for x in c.args if not CTX[0].entails(x)]
                if len(keep) < len(c.args):
                    c = T.and_(*keep)
                if any(CTX[0].entails(T.not_(x)) for x in keep):
                    c = T.FALSE
        if c is T.TRUE:
            return norm(n.args[1])
        if c is T.FALSE:
            return norm(n.args[2])
        a, b = norm(n.args[1]), norm(n.args[2])
        if c is T.TRUE:
            return a
        if c is T.FALSE:
            return b
        if a == b:
            return a
        return gp_atom(T.ite(c, gp_term(a), gp_term(b)))
    if op == "idiv":
        return _norm_idiv(n)
    if op == "imod":
        a, b = n.args
        return gp_add(norm(a), gp_scale(gp_mul(norm(b), norm(T.mk("idiv", (a, b), "I"))), -1))
    if op == "lam":
        v = T.fresh("l", n.args[0].sort)
        body = T.subst(n.args[1], {n.args[0]: v})
        return gp_atom(T.lam(v, canon(body)))
    raise ValueError(f"cannot normalise {op}")


def _norm_idiv(n):
    a, b = n.args
    ga, gb = norm(a), norm(b)
    if set(gb) == {()}:
        k = gb[()]
        # (k*q + r)//k = q + r//k for the syntactically divisible part
        q, r = {}, {}
        for m, c in ga.items():
            intmono = all(bb.sort == "I" and not e[1] and e[0].denominator == 1
                          and e[0] > 0 for bb, e in m)
            if intmono and (c / k).denominator == 1 and m != ():
                q[m] = c / k
            elif m == () and c.denominator == 1:
                fl = c // k
                if fl:
                    q[()] = Fraction(fl)
                if c - fl * k:
                    r[()] = c - fl * k
            else:
                r[m] = c
        if not r:
            return q
        if set(r) == {()} and 0 <= r[()] < k:
            return q
        return gp_add(q, gp_atom(T.mk("idiv", (gp_term(r), gp_term(gb)), "I")))
    return gp_atom(T.mk("idiv", (gp_term(ga), gp_term(gb)), "I"))


def norm_bool(c):
    if c.op in ("lt", "le", "eq") and c.args[0].sort != "B":
        d = norm(T.sub(c.args[1], c.args[0]))
        if not d:
            return {"lt": T.FALSE, "le": T.TRUE, "eq": T.TRUE}[c.op]
        if set(d) == {()}:
            v = d[()]
            return T.TRUE if {"lt": v > 0, "le": v >= 0, "eq": False}[c.op] else T.FALSE
        t = gp_term(d)
        if c.op == "eq":
            # sign-canonical
            lead = sorted(d.items(), key=lambda mc: _mkey(mc[0]))[0][1]
            if lead < 0:
                t = gp_term(gp_scale(d, Fraction(-1)))
        return {"lt": T.lt, "le": T.le, "eq": T.eq}[c.op](T.num(0), t)
    if c.op == "not":
        return T.not_(norm_bool(c.args[0]))
    if c.op == "and":
        return T.and_(*[norm_bool(x) for x in c.args])
    if c.op == "or":
        return T.or_(*[norm_bool(x) for x in c.args])
    return c


def _primes(n):
    out = []
    p = 2
    while p * p <= n:
        k = 0
        while n % p == 0:
            n //= p
            k += 1
        if k:
            out.append((p, k))
        p += 1
        if p > 10000:
            break
    if n > 1:
        out.append((n, 1))
    return out


def _num_pow(c, e):
    """c**e for rational c and exponent e -> (coeff, mono)"""
    d = {}
    if c < 0:
        d[T.num(-1)] = e
        c = -c
    for p, k in _primes(c.numerator):
        d[T.num(p)] = e_add(d.get(T.num(p), (F0, ())), e_scale(e, Fraction(k)))
    for p, k in _primes(c.denominator):
        d[T.num(p)] = e_add(d.get(T.num(p), (F0, ())), e_scale(e, Fraction(-k)))
    return mono_canon(d)


def _norm_pow(b, en):
    ge = norm(en)
    e = e_of(ge)
    if e == (F0, ()):
        return {(): F1}
    if not e[1] and e[0].denominator == 1 and 0 < e[0] <= 64:
        return gp_pow(norm(b), int(e[0]))
    isint = e_is_int(e)
    if b.op == "mul" and (isint or all(_nonneg(a) for a in b.args)):
        r = {(): F1}
        for a in b.args:
            r = gp_mul(r, norm(T.pow_(a, en)))
        return r
    if b.op == "pow":
        # (x**y)**e
        inner = e_of(norm(b.args[1]))
        if isint or _nonneg(b.args[0]):
            return _norm_pow(b.args[0], exp_term(e_mul(inner, e)))
    g = norm(b)
    if not g:
        if not e[1]:
            if e[0] > 0:
                return {}
        else:
            et = exp_term(e)
            if CTX[0].entails(T.lt(T.num(0), et)):
                return {}
            if CTX[0].entails(T.eq(et, T.num(0))):
                return {(): F1}
        return gp_atom(T.pow_(T.num(0), exp_term(e)))
    if len(g) > 1 and _factor(g, full=bool(e[1]) or e[0].denominator != 1)[0] == 0:
        return _norm_pow(T.num(0), en)
    return _gp_power(g, e, isint)


def _nonneg(node):
    if node.op == "num":
        return node.args[0] >= 0
    if node.op == "pow" and node.args[1].op == "num":
        x = node.args[1].args[0]
        if x.denominator == 2:
            return True
        if x.denominator == 1 and x % 2 == 0:
            return True
    if node.op == "pow" and _nonneg(node.args[0]):
        return True
    return CTX[0].nonneg(node)


def _gp_power(g, e, isint):
    if len(g) == 1:
        (m, c), = g.items()
        if isint or (c > 0 and all(_nonneg(b) for b, _ in m)):
            k, mm = _num_pow(c, e)
            d = {}
            for bb, ee in m:
                d[bb] = e_mul(ee, e)
            k2, m2 = mono_canon(d)
            k3, m3 = mono_mul(mm, m2)
            return expand_pos({m3: k * k2 * k3})
        if not isint:
            # atoms whose negation is known to be nonnegative
            c1, m1, ok = c, [], True
            for b, ee in m:
                if _nonneg(b):
                    m1.append((b, ee))
                elif not ee[1] and ee[0].denominator == 1 and b.op != "mul" and \
                        _nonneg(T.mul(T.num(-1), b)):
                    nb = gp_term(gp_scale(raw(b), -1)) if b.op == "add" \
                        else T.mul(T.num(-1), b)
                    m1.append((nb, ee))
                    if ee[0] % 2:
                        c1 = -c1
                else:
                    ok = False
            if ok and c1 > 0:
                k, mm = _num_pow(c1, e)
                k2, m2 = mono_canon({bb: e_mul(ee, e) for bb, ee in m1})
                k3, m3 = mono_mul(mm, m2)
                return expand_pos({m3: k * k2 * k3})
        if not isint and c > 0 and c != 1:
            k, mm = _num_pow(c, e)
            base = gp_term({m: F1})
            k2, m2 = mono_canon({base: e})
            k3, m3 = mono_mul(mm, m2)
            return {m3: k * k2 * k3}
        base = gp_term(g)
        return {((base, e),): F1}
    # polynomial base: pull out content and common monomial factor
    if isint or True:
        factors = _factor(g, full=bool(e[1]) or e[0].denominator != 1)
        if factors is not None:
            c0, fs = factors
            if not isint:
                parts = []
                for f, k in fs:
                    if not _nonneg(gp_term(f)) and _nonneg(gp_term(gp_scale(f, -1))):
                        f = gp_scale(f, -1)
                        if k % 2:
                            c0 = -c0
                    parts.append((f, k))
                fs = parts
                ok = c0 > 0 and all(_nonneg(gp_term(f)) for f, k in parts)
                if not ok:
                    # split off what is known to be nonnegative
                    good = [(f, k) for f, k in parts if _nonneg(gp_term(f))]
                    bad = [(f, k) for f, k in parts if not _nonneg(gp_term(f))]
                    rest = {(): Fraction(1 if c0 > 0 else -1)}
                    for f, k in bad:
                        rest = gp_mul(rest, gp_pow(f, k))
                    r = {((gp_term(rest), e),): F1}
                    kk, mm = _num_pow(abs(c0), e)
                    r = gp_mul(r, {mm: kk})
                    for f, k in good:
                        r = gp_mul(r, _pbase(f, e_scale(e, Fraction(k))))
                    return r
            kk, mm = _num_pow(c0, e)
            r = {mm: kk}
            for f, k in fs:
                r = gp_mul(r, _pbase(f, e_scale(e, Fraction(k))))
            return r
    return {((gp_term(g), e),): F1}


def _pbase(f, e):
    """f: GP (primitive). f**e"""
    if len(f) == 1:
        (m, c), = f.items()
        if c < 0:
            return _gp_power(f, e, e_is_int(e))
        k, mm = _num_pow(c, e)
        k2, m2 = mono_canon({b: e_mul(ee, e) for b, ee in m})
        k3, m3 = mono_mul(mm, m2)
        return {m3: k * k2 * k3}
    if not e[1] and e[0].denominator == 1 and 0 < e[0] <= 64:
        return gp_pow(f, int(e[0]))
    base = gp_term(f)
    assert base.op == "add"
    _memo[(base, CTX[0].key)] = f
    return expand_pos({((base, e),): F1})


_fcache: dict = {}


def _factor(g, full):
    """g -> (content, [(factor GP, multiplicity)]) with primitive, sign-canonical factors."""
    key = (_freeze(g), full)
    if key in _fcache:
        return _fcache[key]
    c, fs = _factor0(g, full)
    d = {}
    for f, k in fs:
        if len(f) == 1:
            (m, cc), = f.items()
            if cc == 1:
                for b, e in m:
                    d[b] = e_add(d.get(b, (F0, ())), e_scale(e, Fraction(k)))
                continue
        if not (len(f) > 1 and set(f) != {()}):
            d = None
            break
        b = gp_term(f)
        d[b] = e_add(d.get(b, (F0, ())), (Fraction(k), ()))
    if d is not None:
        fs = []
        for b, e in d.items():
            if e == (F0, ()):
                continue
            if b.op == "add" and not e[1] and e[0].denominator == 1 and e[0] > 0:
                fs.append((raw(b), int(e[0])))
            else:
                fs.append(({((b, e),): F1}, 1))
    r = c, fs
    _fcache[key] = r
    return r


def _content(g):
    import math
    nums = [c.numerator for c in g.values()]
    dens = [c.denominator for c in g.values()]
    c = Fraction(math.gcd(*nums), math.lcm(*dens))
    lead = sorted(g.items(), key=lambda mc: _mkey(mc[0]))[0][1]
    if lead < 0:
        c = -c
    return c


def _factor0(g, full):
    c = _content(g)
    g1 = gp_scale(g, 1 / c)
    # common monomial
    common = None
    for m in g1:
        d = dict(m)
        if common is None:
            common = d
        else:
            new = {}
            for b in common:
                e1, e2 = common[b], d.get(b)
                if e2 is None:
                    # treat missing as exponent zero
                    e2 = (F0, ())
                if e1[1] == e2[1]:
                    mn = min(e1[0], e2[0])
                    if mn or e1[1]:
                        new[b] = (mn, e1[1])
            for b in d:
                if b not in common and d[b][0] < 0 and not d[b][1]:
                    new[b] = d[b]
            common = new
    # monomials seen before b first appeared with negative exponents
    fs = []
    common = {b: e for b, e in (common or {}).items() if b.op != "num" or e[1]}
    if common:
        inv = tuple(sorted(((b, e_scale(e, Fraction(-1))) for b, e in common.items()),
                           key=lambda be: be[0].id))
        g2 = {}
        for m, cc in g1.items():
            k, mm = mono_mul(m, inv)
            g2[mm] = g2.get(mm, F0) + cc * k
        g1 = expand_pos({m: cc for m, cc in g2.items() if cc})
        if not g1:
            return F0, []
        for b, e in common.items():
            fs.append(({((b, e),): F1}, 1))
        c2 = _content(g1)
        if c2 != 1:
            c *= c2
            g1 = gp_scale(g1, 1 / c2)
    if full and len(g1) > 1 and len(g1) <= 60:
        r = _sympy_factor(g1)
        if r is not None:
            c2, fl = r
            return c * c2, fs + fl
    fs.append((g1, 1))
    return c, fs


def _sympy_factor(g):
    atoms = {}
    for m in g:
        for b, e in m:
            if e[1] or e[0].denominator != 1 or e[0] < 0:
                return None
            atoms.setdefault(b, None)
    import sympy
    for i, b in enumerate(atoms):
        atoms[b] = sympy.Symbol(f"a{i}")
    back = {s: b for b, s in atoms.items()}
    syms = list(atoms.values())
    expr = 0
    for m, c in g.items():
        t = sympy.Rational(c.numerator, c.denominator)
        for b, e in m:
            t *= atoms[b] ** int(e[0])
        expr += t
    c0, fl = sympy.factor_list(expr, *syms)
    if len(fl) == 1 and fl[0][1] == 1:
        return None
    out = []
    cc = Fraction(int(c0.p), int(c0.q))
    for f, k in fl:
        p = sympy.Poly(f, *syms)
        gp = {}
        for mon, co in p.terms():
            m = tuple(sorted(((back[s], (Fraction(int(x)), ())) for s, x in zip(syms, mon)
                              if x), key=lambda be: be[0].id))
            gp[m] = Fraction(int(co.p), int(co.q))
        ct = _content(gp)
        if ct != 1:
            gp = gp_scale(gp, 1 / ct)
            cc *= ct ** k
        out.append((gp, k))
    return cc, out


# {{{ applications

def _norm_app(n):
    f = n.args[0]
    if f == "gamma":
        g = norm(n.args[1])
        return _norm_gamma(g)
    args = []
    for a in n.args[1:]:
        if a.op == "lam":
            v = T.fresh("l", a.args[0].sort)
            args.append(T.lam(v, canon(T.subst(a.args[1], {a.args[0]: v}))))
        elif a.sort == "B":
            args.append(norm_bool(a))
        else:
            args.append(canon(a))
    if f == "delta":
        i, j = args
        if i is j:
            return {(): F1}
        d = norm(T.sub(i, j))
        if set(d) == {()}:
            return {}
        if i.id > j.id:
            i, j = j, i
        return gp_atom(T.app("delta", i, j, sort="I"))
    return gp_atom(T.app(f, *args, sort=n.sort))


def _norm_gamma(g):
    rest = dict(g)
    c = rest.pop((), F0)
    if not rest:
        if c.denominator == 1 and 0 < c < 200:
            import math
            return gp_const(math.factorial(int(c) - 1))
    fl = c.numerator // c.denominator
    m = fl - 1          # canonical constant in [1, 2)
    c0 = c - m
    base = gp_add(rest, gp_const(c0))
    for k in range(3):
        # prefer the first shift whose argument is known to be nonnegative
        if CTX[0].nonneg(gp_term(gp_add(base, gp_const(k)))):
            m -= k
            base = gp_add(base, gp_const(k))
            break
    r = gp_atom(T.app("gamma", gp_term(base)))
    if m > 0:
        for j in range(m):
            r = gp_mul(r, gp_add(base, gp_const(j)))
    elif m < 0:
        for j in range(1, -m + 1):
            r = gp_mul(r, _gp_power(gp_add(base, gp_const(-j)), (Fraction(-1), ()), True))
    return r

# }}}


# {{{ sums and products

def _dep(m, v):
    """split a monomial into (independent, dependent on v) parts"""
    ind, dep = [], []
    for b, e in m:
        d = v in b.fv or any(v in bb.fv for mm, _ in e[1] for bb, _ in mm)
        (dep if d else ind).append((b, e))
    return tuple(ind), tuple(dep)


def _shift_hi(hi):
    g = norm(hi)
    c = g.get((), F0)
    rest = {m: k for m, k in g.items() if m != ()}
    return rest, c


def _norm_sum(n):
    v, lo, hi, body = T.open_binder(n)
    gb = norm(body)
    return sum_gp(v, norm(lo), norm(hi), gb)


def sum_gp(v, glo, ghi, gb):
    total = {}
    glen = gp_add(ghi, gp_scale(glo, Fraction(-1)))
    for m, c in gb.items():
        ind, dep = _dep(m, v)
        if not dep:
            total = gp_add(total, gp_scale(gp_mul({ind: F1}, glen), c))
        else:
            s = _sum_mono(v, glo, ghi, dep)
            total = gp_add(total, gp_scale(gp_mul({ind: F1}, s), c))
    return total


def _sum_mono(v, glo, ghi, dep):
    """sum over v of a monomial all of whose factors depend on v -> GP"""
    glen = gp_add(ghi, gp_scale(glo, Fraction(-1)))
    if not glen:
        return {}
    if set(glen) == {()} and 0 < glen[()] <= 64 and set(glo) <= {()}:
        r = {}
        l0 = int(glo.get((), 0))
        for k in range(l0, l0 + int(glen[()])):
            r = gp_add(r, norm(T.subst(mono_term(dep), {v: T.num(k)})))
        return r
    # delta elimination
    for b, e in dep:
        if b.op == "app" and b.args[0] == "delta" and e == E1:
            i, j = b.args[1:]
            other = j if i is v else i if j is v else None
            if other is not None and v not in other.fv:
                # range membership of `other` is checked by the context
                if CTX[0].nonneg_all([T.sub(other, gp_term(glo)),
                                      T.sub(T.sub(gp_term(ghi), other), T.num(1))]):
                    rest = tuple((bb, ee) for bb, ee in dep if bb is not b)
                    return norm(T.subst(mono_term(rest), {v: other}))
    r = CTX[0].rewrite_sum(v, glo, ghi, dep)
    if r is not None:
        return r
    r = _sum_cases(v, glo, ghi, dep)
    if r is not None:
        return r
    # peel the constant part of the upper bound (telescoping semantics)
    c = ghi.get((), F0)
    if c.denominator == 1 and c != 0 and len(ghi) > 1 and abs(c) <= 8:
        base = {m: k for m, k in ghi.items() if m != ()}
        r = _sum_mono(v, glo, base, dep)
        t = mono_term(dep)
        if c > 0:
            for k in range(int(c)):
                r = gp_add(r, norm(T.subst(t, {v: gp_term(gp_add(base, gp_const(k)))})))
        else:
            for k in range(int(c), 0):
                r = gp_add(r, gp_scale(norm(T.subst(t, {v: gp_term(
                    gp_add(base, gp_const(k)))})), Fraction(-1)))
        return r
    # shift the lower bound to zero
    if glo:
        t = T.subst(mono_term(dep), {v: T.add(v, gp_term(glo))})
        return sum_gp(v, {}, glen, norm(t))
    # flatten nested sums: sum_v f(v) * sum_w g(v,w)
    binders = [(v, glo, ghi)]
    factors = list(dep)
    changed = True
    while changed:
        changed = False
        for k, (b, e) in enumerate(factors):
            if b.op == "sum" and e == E1:
                w, wlo, whi, wbody = T.open_binder(b)
                if any(bv in whi.fv or bv in wlo.fv for bv, _, _ in binders):
                    continue
                gi = norm_raw_mono(wbody)
                if gi is None:
                    continue
                binders.append((w, norm(wlo), norm(whi)))
                del factors[k]
                factors.extend(gi)
                changed = True
                break
    if len(binders) > 1:
        d = {}
        for b, e in factors:
            d[b] = e_add(d[b], e) if b in d else e
        k, mono = mono_canon(d)
        # try sum rewriting on every binder (sums over independent ranges commute)
        for idx in range(len(binders)):
            bv, bl, bh = binders[idx]
            ind, dp = _dep(mono, bv)
            if idx == 0 and len(dp) == len(mono):
                rr = CTX[0].rewrite_sum(bv, bl, bh, dp)
            else:
                rr = _sum_simple(bv, bl, bh, dp) if dp else None
            if rr is not None:
                g = gp_scale(gp_mul({ind: F1}, rr), k)
                for j in range(len(binders)):
                    if j != idx:
                        g = sum_gp(binders[j][0], binders[j][1], binders[j][2], g)
                return g
        best = None
        if len(binders) <= 4:
            for perm in itertools.permutations(binders):
                t = mono_term(mono)
                inner = mono
                node = None
                cur = t
                for (bv, bl, bh) in reversed(perm):
                    cur = T.binder("sum", bv, gp_term(bl), gp_term(bh), cur)
                kk = _skel(cur)
                if best is None or kk < best[0]:
                    best = (kk, cur)
        else:
            cur = mono_term(mono)
            for (bv, bl, bh) in reversed(binders):
                cur = T.binder("sum", bv, gp_term(bl), gp_term(bh), cur)
            best = (None, cur)
        return {((best[1], E1),): k}
    if ALIGN[0]:
        s = _offset(v, dep)
        if s:
            st = gp_term(s)
            gb = norm(T.subst(mono_term(dep), {v: T.sub(v, st)}))
            return gp_add(sum_gp(v, {}, gp_add(ghi, s), gb),
                          gp_scale(sum_gp(v, {}, s, gb), Fraction(-1)))
    return gp_atom(T.binder("sum", v, gp_term(glo), gp_term(ghi), mono_term(dep)))


def _offset(v, dep):
    """the least s with an application of ..v + s.. in the factors"""
    rests = []
    seen = set()
    stack = [b for b, _ in dep]
    while stack:
        t = stack.pop()
        if t in seen or v not in t.fv:
            continue
        seen.add(t)
        for a in t.args:
            if not isinstance(a, Node):
                continue
            if t.op == "app" and v in a.fv:
                g = dict(norm(a))
                if g.pop(((v, E1),), F0) == 1 and not any(v in b.fv for m in g for b, _ in m):
                    rests.append(g)
                    continue
            stack.append(a)
    if not rests:
        return None
    parts = [({m: c for m, c in g.items() if m != ()}, g.get((), F0)) for g in rests]
    if any(p[0] != parts[0][0] for p in parts) or any(
            c.denominator != 1 for p in parts for c in p[0].values()) or any(
                b.sort != "I" for m in parts[0][0] for b, _ in m):
        return None
    return gp_add(parts[0][0], gp_const(min(c for _, c in parts)))


def _ites(v, dep):
    """case distinctions on v in the factors"""
    seen = set()
    stack = [b for b, _ in reversed(dep)]
    while stack:
        t = stack.pop()
        if t in seen or v not in t.fv:
            continue
        seen.add(t)
        if t.op == "ite" and v in t.args[0].fv and t.args[0].op in ("le", "lt", "eq") and not any(
                u is not v and u.args[0].startswith("$") for u in t.args[0].fv):
            yield t
        stack.extend(a for a in reversed(t.args) if isinstance(a, Node))


def _sum_cases(v, glo, ghi, dep):
    """sum over v with a factor ite(v <= s, ..), ite(v == s, ..): split at s if it is within
    the bounds on this path; None otherwise"""
    whole = None
    for x in _ites(v, dep):
        cond = x.args[0]
        g = norm(T.sub(cond.args[1], cond.args[0]))
        cv = None
        for m, c in g.items():
            if any(v in bb.fv or any(v in b3.fv for mm, _ in ee[1] for b3, _ in mm)
                   for bb, ee in m):
                if cv is not None or m != ((v, E1),) or c not in (1, -1):
                    break
                cv = c
        else:
            if cv is None:
                continue
            rest = {m: c for m, c in g.items() if m != ((v, E1),)}
            if any(c.denominator != 1 for c in rest.values()) or any(
                    bb.sort != "I" for m in rest for bb, _ in m):
                continue
            if whole is None:
                from .core import _replace
                whole = mono_term(dep)
            # cv*v + rest (>= 0, > 0, == 0)
            p = gp_scale(rest, Fraction(-1)) if cv == 1 else rest
            lo, hi = gp_term(glo), gp_term(ghi)
            yes, no = (_replace(whole, {x: x.args[i]}) for i in (1, 2))
            if cond.op == "eq":
                pt = gp_term(p)
                if not CTX[0].nonneg_all([T.sub(pt, lo), T.sub(T.sub(hi, pt), T.ONE)]):
                    continue
                if p == glo:
                    return gp_add(norm(T.subst(yes, {v: pt})),
                                  sum_gp(v, gp_add(glo, gp_const(F1)), ghi, norm(no)))
                r = sum_gp(v, glo, ghi, norm(no))
                r = gp_add(r, norm(T.subst(yes, {v: pt})))
                return gp_add(r, gp_scale(norm(T.subst(no, {v: pt})), Fraction(-1)))
            # first index of the upper part
            s = p
            if cond.op == "lt" and cv == 1 or cond.op == "le" and cv == -1:
                s = gp_add(p, gp_const(F1))
            st = gp_term(s)
            if not CTX[0].nonneg_all([T.sub(st, lo), T.sub(hi, st)]):
                continue
            low, high = (no, yes) if cv == 1 else (yes, no)
            return gp_add(sum_gp(v, glo, s, norm(low)), sum_gp(v, s, ghi, norm(high)))
    return None


def _sum_simple(v, glo, ghi, dp):
    """Evaluate sum over v only by delta elimination / known identities; None if neither."""
    for b, e in dp:
        if b.op == "app" and b.args[0] == "delta" and e == E1:
            i, j = b.args[1:]
            other = j if i is v else i if j is v else None
            if other is not None and v not in other.fv:
                if CTX[0].nonneg_all([T.sub(other, gp_term(glo)),
                                      T.sub(T.sub(gp_term(ghi), other), T.num(1))]):
                    rest = tuple((bb, ee) for bb, ee in dp if bb is not b)
                    return norm(T.subst(mono_term(rest), {v: other}))
    return CTX[0].rewrite_sum(v, glo, ghi, dp)


def norm_raw_mono(t):
    """t was produced by mono_term: its factors [(base, exp)], or None"""
    g = norm(t)
    if len(g) != 1:
        return None
    (m, c), = g.items()
    if c != 1:
        return None
    return list(m)


_skelc: dict = {}


def _skel(n):
    """A total order on closed terms that is stable under alpha renaming."""
    return n.id


def _norm_prod(n):
    v, lo, hi, body = T.open_binder(n)
    glo, ghi = norm(lo), norm(hi)
    glen = gp_add(ghi, gp_scale(glo, Fraction(-1)))
    if not glen:
        return {(): F1}
    if glo:
        b2 = T.subst(body, {v: T.add(v, gp_term(glo))})
        return _norm_prod(T.binder("prod", v, T.num(0), gp_term(glen), b2)) \
            if set(glen) != {()} else norm(T.prod_(v, T.num(0), gp_term(glen), b2))
    c = ghi.get((), F0)
    if c.denominator == 1 and c != 0 and len(ghi) > 1 and abs(c) <= 8:
        base = {m: k for m, k in ghi.items() if m != ()}
        r = norm(T.prod_(v, T.num(0), gp_term(base), body))
        if c > 0:
            for k in range(int(c)):
                r = gp_mul(r, norm(T.subst(body, {v: gp_term(gp_add(base, gp_const(k)))})))
        else:
            for k in range(int(c), 0):
                r = gp_mul(r, norm(T.pow_(T.subst(body, {v: gp_term(
                    gp_add(base, gp_const(k)))}), T.num(-1))))
        return r
    gb = norm(body)
    e = e_of(glen)
    if len(gb) == 1:
        (m, cc), = gb.items()
        k, mm = _num_pow(cc, e)
        r = {mm: k}
        ind, dep = _dep(m, v)
        for b, ee in ind:
            k2, m2 = mono_canon({b: e_mul(ee, e)})
            r = gp_mul(r, {m2: k2})
        for b, ee in dep:
            if any(v in bb.fv for mmm, _ in ee[1] for bb, _ in mmm):
                t = T.binder("prod", v, T.num(0), gp_term(ghi), T.pow_(b, exp_term(ee)))
                r = gp_mul(r, gp_atom(t))
            else:
                t = T.binder("prod", v, T.num(0), gp_term(ghi), b)
                r = gp_mul(r, {((t, ee),): F1})
        return r
    return gp_atom(T.binder("prod", v, T.num(0), gp_term(ghi), gp_term(gb)))

# }}}


# {{{ zero test

def gp_is_zero(g, depth=0):
    if not g:
        return True
    g = expand_pos(g)
    if not g:
        return True
    if depth > 40:
        return False
    pb = None
    for m in g:
        for b, e in m:
            if b.op == "add":
                pb = b
                break
        if pb is not None:
            break
    if pb is None:
        return False
    groups = {}
    for m, c in g.items():
        d = dict(m)
        e = d.pop(pb, (F0, ()))
        fr = e[0] - (e[0].numerator // e[0].denominator)
        k = int(e[0] - fr)
        rest = tuple((b, ee) for b, ee in m if b is not pb)
        groups.setdefault((fr, e[1]), []).append((rest, k, c))
    P = norm(pb)
    for items in groups.values():
        kmin = min(k for _, k, _ in items)
        acc = {}
        powers = {}
        for rest, k, c in items:
            kk = k - kmin
            if kk not in powers:
                powers[kk] = gp_pow(P, kk)
            acc = gp_add(acc, gp_scale(gp_mul({rest: F1}, powers[kk]), c))
        if not gp_is_zero(acc, depth + 1):
            return False
    return True


def is_zero(n):
    try:
        return gp_is_zero(norm(n))
    except TooBig:
        return False


def equal(a, b):
    return a is b or is_zero(T.sub(a, b))

# }}}


def leading_negative(t):
    """the first coefficient of the canonical form of t is negative"""
    g = norm(t)
    if not g:
        return False
    return sorted(g.items(), key=lambda mc: _mkey(mc[0]))[0][1] < 0


def sign(v, t, depth=0):
    """'+' if t > 0, '0' if t >= 0, by a structural argument over the canonical form; or None.
    v.entails decides the signs of atoms."""
    if depth > 3:
        return None
    g = norm(t)
    if not g:
        return "0"
    strict = False
    for m, c in g.items():
        if c < 0:
            return None
        ms = True
        for b, e in m:
            s = _sign_base(v, b, e, depth)
            if s is None:
                return None
            ms = ms and s == "+"
        strict = strict or ms
    return "+" if strict else "0"


def _sign_base(v, b, e, depth):
    if b.op == "num":
        s = "+" if b.args[0] > 0 else None
    elif b.op == "sum":
        s = _sign_sum(v, b, depth)
    elif v.entails(T.lt(T.num(0), b)):
        s = "+"
    elif v.entails(T.le(T.num(0), b)):
        s = "0"
    else:
        s = None
    if s == "+":
        return "+"
    x = exp_term(e)
    if s == "0":
        if x.op == "num":
            return "0" if x.args[0] > 0 else None
        return "0" if v.entails(T.le(T.num(0), x)) else None
    # any real base: an even non-negative exponent
    if e_is_int(e_scale(e, Fraction(1, 2))):
        if x.op == "num":
            return "0" if x.args[0] > 0 else None
        return "0" if v.entails(T.le(T.num(0), x)) else None
    return None


def _sign_sum(v, b, depth):
    cv, lo, hi, body = b.args
    k = T.fresh("k", "I")
    T.RANGES[k] = (lo, hi)
    s = sign(v, T.subst(body, {cv: k}), depth + 1)
    if s is None:
        return None
    if v.entails(T.lt(lo, hi)):
        if s == "+" or sign(v, T.subst(body, {cv: lo}), depth + 1) == "+":
            return "+"
    return "0"
