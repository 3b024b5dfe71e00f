"""z3 (and, on unknown, cvc5) back end."""
from __future__ import annotations

import subprocess
import time
from fractions import Fraction

import z3

from . import terms as T

STATS = {"z3_queries": 0, "z3_time": 0.0, "cvc5_queries": 0, "cvc5_time": 0.0}


class Trans:
    def __init__(self):
        self.memo = {}
        self.side = []
        self.funs = {}
        self.vars = {}

    def fun(self, name, sorts, ret):
        k = (name, sorts, ret)
        if k not in self.funs:
            S = {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}
            self.funs[k] = z3.Function(f"{name}/{len(self.funs)}",
                                       *[S[s] for s in sorts], S[ret])
        return self.funs[k]

    def const(self, n, sort):
        nm = f"k{n.id}"
        return {"I": z3.Int, "R": z3.Real, "B": z3.Bool}[sort](nm)

    def tr(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self._tr(n)
            self.memo[n] = r
        return r

    def real(self, x):
        return z3.ToReal(x) if z3.is_int(x) else x

    def _tr(self, n):
        op, a = n.op, n.args
        if op == "num":
            f = a[0]
            if n.sort == "I" and f.denominator == 1:
                return z3.IntVal(f.numerator)
            return z3.RealVal(f"{f.numerator}/{f.denominator}")
        if op == "var":
            s = {"I": z3.Int, "R": z3.Real, "B": z3.Bool}[n.sort](f"{a[0]}")
            self.vars[n] = s
            return s
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op in ("sum", "prod", "lam", "all"):
            return self.const(n, n.sort)
        if op == "app":
            args = [self.tr(x) for x in a[1:]]
            if not args:
                if a[0] == "pi":
                    c = z3.Real("pi")
                    self.side += [c > z3.RealVal("3.14159265358979"),
                                  c < z3.RealVal("3.14159265358980")]
                    return c
                return self.const(n, n.sort)
            ss = tuple("I" if z3.is_int(x) else "R" if z3.is_real(x) else "B" for x in args)
            # widen to a single signature per (name, arity): reals unless boolean
            args = [self.real(x) if s != "B" else x for x, s in zip(args, ss)]
            ss = tuple("R" if s != "B" else "B" for s in ss)
            r = self.fun(str(a[0]), ss, n.sort)(*args)
            nm = a[0]
            if nm == "gamma":
                self.side.append(z3.Implies(args[0] > 0, r > 0))
            elif nm == "exp":
                self.side.append(r > 0)
            elif nm in ("sin", "cos"):
                self.side += [r <= 1, r >= -1]
            elif nm == "asin":
                self.side += [z3.Implies(args[0] > 0, r > 0),
                              z3.Implies(args[0] < 0, r < 0)]
            elif nm == "floor":
                self.side += [r <= args[0], args[0] < r + 1]
            return r
        if op == "add":
            xs = [self.tr(x) for x in a]
            if n.sort == "R" or any(z3.is_real(x) for x in xs):
                xs = [self.real(x) for x in xs]
            return z3.Sum(xs)
        if op == "mul":
            xs = [self.tr(x) for x in a]
            if any(z3.is_real(x) for x in xs):
                xs = [self.real(x) for x in xs]
            return z3.Product(xs)
        if op == "pow":
            b, e = a
            if e.op == "num":
                ev = e.args[0]
                if ev.denominator == 1 and abs(ev) <= 6:
                    x = self.tr(b)
                    r = x
                    for _ in range(abs(int(ev)) - 1):
                        r = r * x
                    if ev < 0:
                        return z3.RealVal(1) / self.real(r)
                    return r
                if ev == Fraction(1, 2):
                    x = self.real(self.tr(b))
                    r = self.fun("sqrt", ("R",), "R")(x)
                    self.side.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
                    self.side.append(z3.Implies(x > 0, r > 0))
                    return r
                if ev == Fraction(-1, 2):
                    x = self.real(self.tr(b))
                    r = self.fun("sqrt", ("R",), "R")(x)
                    self.side.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
                    self.side.append(z3.Implies(x > 0, r > 0))
                    return z3.RealVal(1) / r
            x, y = self.real(self.tr(b)), self.real(self.tr(e))
            r = self.fun("pow", ("R", "R"), "R")(x, y)
            self.side.append(z3.Implies(x > 0, r > 0))
            self.side.append(z3.Implies(x == 1, r == 1))
            self.side.append(z3.Implies(y == 0, r == 1))
            return r
        if op == "idiv":
            return self.tr(a[0]) / self.tr(a[1])   # checked: positive divisors only
        if op == "imod":
            return self.tr(a[0]) % self.tr(a[1])
        if op == "ite":
            c, x, y = (self.tr(z) for z in a)
            if z3.is_real(x) != z3.is_real(y) and not z3.is_bool(x):
                x, y = self.real(x), self.real(y)
            return z3.If(c, x, y)
        if op in ("lt", "le", "eq"):
            x, y = self.tr(a[0]), self.tr(a[1])
            if z3.is_real(x) != z3.is_real(y) and not z3.is_bool(x):
                x, y = self.real(x), self.real(y)
            return {"lt": lambda: x < y, "le": lambda: x <= y, "eq": lambda: x == y}[op]()
        if op == "not":
            return z3.Not(self.tr(a[0]))
        if op == "and":
            return z3.And([self.tr(x) for x in a])
        if op == "or":
            return z3.Or([self.tr(x) for x in a])
        raise ValueError(op)


_cache: dict = {}


def check(assertions, timeout_ms=3000, want_model=False, use_cvc5=True):
    """-> ('unsat'|'sat'|'unknown', model env)"""
    key = (frozenset(assertions), want_model)
    if key in _cache:
        return _cache[key]
    t0 = time.time()
    tr = Trans()
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    fs = [tr.tr(x) for x in assertions]
    for f in fs:
        s.add(f)
    for f in tr.side:
        s.add(f)
    STATS["z3_queries"] += 1
    r = str(s.check())
    STATS["z3_time"] += time.time() - t0
    model = None
    if r == "sat" and want_model:
        m = s.model()
        model = {}
        for n, c in tr.vars.items():
            v = m.eval(c, model_completion=True)
            model[n] = _pyval(v)
    if r == "unknown" and use_cvc5:
        t1 = time.time()
        STATS["cvc5_queries"] += 1
        try:
            txt = s.to_smt2()
            p = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={timeout_ms * 2}"],
                               input="(set-logic ALL)\n" + txt, capture_output=True,
                               text=True, timeout=timeout_ms / 500 + 5)
            out = p.stdout.strip().split("\n")[0] if p.stdout else ""
            if out in ("unsat", "sat"):
                r = out if not (want_model and out == "sat") else "unknown"
                if out == "unsat":
                    r = "unsat"
        except Exception:
            pass
        STATS["cvc5_time"] += time.time() - t1
    _cache[key] = (r, model)
    return r, model


def _pyval(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        import mpmath
        return mpmath.mpf(f.numerator) / f.denominator
    if z3.is_algebraic_value(v):
        f = v.approx(30)
        import mpmath
        return mpmath.mpf(f.numerator_as_long()) / f.denominator_as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None
