"""Hash-consed terms of the specification logic.

Sorts: 'I' (mathematical integers), 'R' (mathematical reals), 'B' (truth values).
Binders ('sum', 'prod', 'lam', 'all') are alpha-canonical: the bound variable of a binder
at nesting depth k is always the variable ``$k``.
"""
from __future__ import annotations

from fractions import Fraction

_table: dict = {}
_counter = [0]


class Node:
    __slots__ = ("op", "args", "sort", "depth", "fv", "id", "_norm", "size")

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        return (_rebuild, (self.op, self.args, self.sort))


def _rebuild(op, args, sort):
    return mk(op, args, sort)


def mk(op, args, sort):
    key = (op, args, sort)
    n = _table.get(key)
    if n is not None:
        return n
    n = Node()
    n.op = op
    n.args = args
    n.sort = sort
    d = 0
    size = 1
    fv = frozenset()
    if op == "var":
        fv = frozenset((n,))
    for a in args:
        if isinstance(a, Node):
            if a.depth > d:
                d = a.depth
            size += a.size
            if a.fv:
                fv = fv | a.fv
    if op in ("sum", "prod", "lam", "all"):
        d += 1
        fv = fv - {args[0]}
    n.depth = d
    n.fv = fv
    n.size = size
    n.id = _counter[0]
    _counter[0] += 1
    n._norm = None
    _table[key] = n
    return n


def num(x, sort=None):
    f = Fraction(x)
    if sort is None:
        sort = "I" if f.denominator == 1 else "R"
    return mk("num", (f,), sort)


def var(name, sort):
    return mk("var", (name,), sort)


_fresh = [0]


def fresh(prefix, sort):
    _fresh[0] += 1
    return var(f"{prefix}!{_fresh[0]}", sort)


TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")
ZERO = num(0)
ONE = num(1)


def is_num(n, v=None):
    return n.op == "num" and (v is None or n.args[0] == v)


def val(n):
    return n.args[0]


def _join(*sorts):
    return "R" if "R" in sorts else "I"


def _byid(n):
    return n.id


def add(*xs):
    c = Fraction(0)
    out = []
    sort = "I"
    for x in xs:
        if x.sort == "R":
            sort = "R"
        if x.op == "num":
            c += x.args[0]
        elif x.op == "add":
            for y in x.args:
                if y.op == "num":
                    c += y.args[0]
                else:
                    out.append(y)
        else:
            out.append(x)
    if not out:
        return num(c, sort)
    if c != 0:
        out.append(num(c, sort))
    if len(out) == 1:
        return out[0]
    out.sort(key=_byid)
    return mk("add", tuple(out), sort)


def mul(*xs):
    c = Fraction(1)
    out = []
    sort = "I"
    for x in xs:
        if x.sort == "R":
            sort = "R"
        if x.op == "num":
            c *= x.args[0]
        elif x.op == "mul":
            for y in x.args:
                if y.op == "num":
                    c *= y.args[0]
                else:
                    out.append(y)
        else:
            out.append(x)
    if c == 0 or not out:
        return num(c, sort)
    if c != 1:
        out.insert(0, num(c, sort if c.denominator == 1 else "R"))
    if len(out) == 1:
        return out[0]
    if c.denominator != 1:
        sort = "R"
    out.sort(key=_byid)
    return mk("mul", tuple(out), sort)


def neg(x):
    return mul(num(-1), x)


def sub(a, b):
    return add(a, neg(b))


def pow_(b, e):
    if e.op == "num":
        ev = e.args[0]
        if ev == 0:
            return num(1, b.sort)
        if ev == 1:
            return b
        if b.op == "num" and ev.denominator == 1 and (b.args[0] != 0 or ev > 0) \
                and abs(ev) <= 4096:
            r = b.args[0] ** int(ev)
            return num(r, "I" if (b.sort == "I" and ev > 0) else "R")
        if b.op == "pow" and ev.denominator == 1 and b.args[1].op == "num" \
                and (b.args[1].args[0].denominator == 1):
            return pow_(b.args[0], num(ev * b.args[1].args[0]))
    if is_num(b, 1):
        return b
    sort = "I" if (b.sort == "I" and e.op == "num" and e.args[0].denominator == 1
                   and e.args[0] >= 0) else "R"
    return mk("pow", (b, e), sort)


def div(a, b):
    """Real division."""
    if b.op == "num" and b.args[0] != 0:
        r = mul(a, num(1 / b.args[0], "R"))
    else:
        r = mul(a, pow_(b, num(-1)))
    if r.sort == "I":
        return to_real(r)
    return r


def to_real(a):
    if a.sort == "R":
        return a
    if a.op == "num":
        return num(a.args[0], "R")
    return a    # integers are a subset of the reals; sorts only steer z3


def sqrt(a):
    if a.op == "num" and a.args[0] >= 0:
        import math
        p, q = a.args[0].numerator, a.args[0].denominator
        if math.isqrt(p) ** 2 == p and math.isqrt(q) ** 2 == q:
            return num(Fraction(math.isqrt(p), math.isqrt(q)), "R")
    return pow_(a, num(Fraction(1, 2)))


def app(f, *args, sort="R"):
    if len(args) == 1 and isinstance(f, str) and f.startswith("sel#"):
        # position in the selection, then back: only used where the mask is true
        a = args[0]
        if a.op == "app" and a.args[0] == "rank#" + f[4:]:
            return a.args[1]
    return mk("app", (f,) + tuple(args), sort)


def idiv(a, b):
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        return num(a.args[0] // b.args[0])
    if is_num(b, 1):
        return a
    return mk("idiv", (a, b), "I")


def imod(a, b):
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    if is_num(b, 1):
        return num(0)
    return mk("imod", (a, b), "I")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return mk("ite", (c, a, b), "B" if a.sort == "B" else _join(a.sort, b.sort))


def _cmpfold(a, b):
    d = sub(a, b)
    if d.op == "num":
        return d.args[0]
    if a is b:
        return 0
    return None


def lt(a, b):
    d = _cmpfold(a, b)
    if d is not None:
        return TRUE if d < 0 else FALSE
    return mk("lt", (a, b), "B")


def le(a, b):
    d = _cmpfold(a, b)
    if d is not None:
        return TRUE if d <= 0 else FALSE
    return mk("le", (a, b), "B")


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return mk("eq", (a, b), "B")
    d = _cmpfold(a, b)
    if d is not None:
        return TRUE if d == 0 else FALSE
    return mk("eq", (a, b) if a.id < b.id else (b, a), "B")


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":
        return le(a.args[1], a.args[0])
    if a.op == "le":
        return lt(a.args[1], a.args[0])
    return mk("not", (a,), "B")


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            out.extend(x.args)
        else:
            out.append(x)
    if not out:
        return TRUE
    out = list(dict.fromkeys(out))
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), "B")


def or_(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == "or":
            out.extend(x.args)
        else:
            out.append(x)
    if not out:
        return FALSE
    out = list(dict.fromkeys(out))
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(out), "B")


def implies(a, b):
    return or_(not_(a), b)


def abs_(x):
    if x.op == "num":
        return num(abs(x.args[0]), x.sort)
    return ite(le(num(0), x), x, neg(x))


# {{{ binders

RANGES: dict = {}       # opened bound variable -> (lo, hi)


def _canon_var(body, sort):
    return var(f"${body.depth + 1}", sort)


def binder(op, v, lo, hi, body):
    """v is a free variable of body; lo <= v < hi."""
    cv = _canon_var(body, v.sort)
    b = subst(body, {v: cv})
    sort = "R" if body.sort == "R" else body.sort
    return mk(op, (cv, lo, hi, b), sort)


def sum_(v, lo, hi, body):
    if is_num(body, 0):
        return body
    if lo.op == "num" and hi.op == "num":
        l, h = int(val(lo)), int(val(hi))
        if h - l <= 64:
            return add(num(0), *[subst(body, {v: num(i)}) for i in range(l, h)])
    return binder("sum", v, lo, hi, body)


def prod_(v, lo, hi, body):
    if is_num(body, 1):
        return body
    if lo.op == "num" and hi.op == "num":
        l, h = int(val(lo)), int(val(hi))
        if h - l <= 64:
            return mul(num(1), *[subst(body, {v: num(i)}) for i in range(l, h)])
    return binder("prod", v, lo, hi, body)


def lam(v, body):
    cv = _canon_var(body, v.sort)
    return mk("lam", (cv, subst(body, {v: cv})), body.sort)


def open_binder(n):
    """-> (fresh var, lo, hi, body)"""
    cv, lo, hi, b = n.args
    v = fresh("b", cv.sort)
    RANGES[v] = (lo, hi)
    return v, lo, hi, subst(b, {cv: v})


# }}}


def rebuild(n, args):
    op = n.op
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "pow":
        return pow_(*args)
    if op == "idiv":
        return idiv(*args)
    if op == "imod":
        return imod(*args)
    if op == "ite":
        return ite(*args)
    if op == "lt":
        return lt(*args)
    if op == "le":
        return le(*args)
    if op == "eq":
        return eq(*args)
    if op == "not":
        return not_(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    return mk(op, tuple(args), n.sort)


def subst(n, m, memo=None):
    """Capture-avoiding substitution of variables (keys of m)."""
    if memo is None:
        memo = {}
        m = {k: v for k, v in m.items() if k is not v}
        if not m:
            return n
    keys = m.keys()
    if not (n.fv & keys) and not any(k.op != "var" for k in keys):
        return n
    r = memo.get(n)
    if r is not None:
        return r
    if n in m:
        return m[n]
    if n.op in ("sum", "prod", "lam", "all"):
        cv = n.args[0]
        v = fresh("s", cv.sort)
        if n.op == "lam":
            body = subst(subst(n.args[1], {cv: v}), m)
            r = lam(v, body)
        else:
            body = subst(subst(n.args[3], {cv: v}), m)
            lo = subst(n.args[1], m)
            hi = subst(n.args[2], m)
            r = {"sum": sum_, "prod": prod_, "all": lambda *a: binder("all", *a)}[n.op](
                v, lo, hi, body)
    else:
        args = tuple(subst(a, m, memo) if isinstance(a, Node) else a for a in n.args)
        r = rebuild(n, args) if args != n.args else n
    memo[n] = r
    return r


def subterms(n, seen=None):
    if seen is None:
        seen = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(a for a in x.args if isinstance(a, Node))


def show(n, d=0):
    if not isinstance(n, Node):
        return str(n)
    if d > 12:
        return "..."
    op, a = n.op, n.args
    if op == "num":
        return str(a[0])
    if op == "var":
        return str(a[0])
    if op in ("add", "mul"):
        return "(" + {"add": " + ", "mul": "*"}[op].join(show(x, d + 1) for x in a) + ")"
    if op == "pow":
        return f"{show(a[0], d+1)}^({show(a[1], d+1)})"
    if op == "app":
        return f"{a[0]}(" + ", ".join(show(x, d + 1) for x in a[1:]) + ")"
    if op in ("lt", "le", "eq"):
        return f"({show(a[0], d+1)} {dict(lt='<', le='<=', eq='==')[op]} {show(a[1], d+1)})"
    if op in ("sum", "prod", "all"):
        return f"{op}({show(a[0])}={show(a[1], d+1)}..<{show(a[2], d+1)}: {show(a[3], d+1)})"
    if op == "lam":
        return f"(\\{show(a[0])}. {show(a[1], d+1)})"
    return f"{op}(" + ", ".join(show(x, d + 1) for x in a) + ")"
