"""Path explorer, obligations, and the proof context."""
from __future__ import annotations

import random
import time
import traceback
from fractions import Fraction

import mpmath

from . import evalt, norm as N, smt, terms as T
from .terms import Node


class Unsupported(Exception):
    """The construct is outside the verifier's language: no verdict is possible."""


class PathEnd(BaseException):
    """The current path has nothing more to contribute (loop body checked, assume false)."""


class Restart(BaseException):
    """Re-explore: a loop summary changed."""


class Budget(Unsupported):
    pass


CUR = [None]


def cur_or_none():
    return CUR[0]


def cur() -> "V":
    v = CUR[0]
    if v is None:
        raise Unsupported("symbolic value outside verification")
    return v


class ProofCtx(N.Ctx):
    def __init__(self, v):
        self.v = v

    @property
    def key(self):
        return self.v.pckey

    def nonneg(self, node):
        return self.v.entails(T.le(T.num(0), node))

    def entails(self, cond):
        if any(v.args[0].startswith("$") for v in cond.fv):
            return False
        return self.v.entails(cond, 500)

    def nonneg_all(self, nodes):
        return all(self.nonneg(n) for n in nodes)

    def rewrite_sum(self, v, glo, ghi, dep):
        for rule in self.v.sum_rules:
            r = rule(v, glo, ghi, dep)
            if r is not None:
                return r
        return None


class Obligation:
    __slots__ = ("name", "status", "backend", "detail", "model", "time", "goal")

    def __init__(self, name, status, backend, detail="", model=None, goal=None):
        self.name = name
        self.status = status          # proved / refuted / unknown
        self.backend = backend
        self.detail = detail
        self.model = model
        self.goal = goal


class Frame:
    """One exploration (the main one or a nested merge)."""

    def __init__(self, pc_len):
        self.prefix = []
        self.pos = 0
        self.pending = []
        self.pc_len = pc_len


class V:
    """One verification condition generator run: a harness explored over all its paths."""

    def __init__(self, name, seed=1, max_paths=400, timeout=120, quiet=True):
        self.name = name
        self.obligations: list[Obligation] = []
        self.seed = seed
        self.rng = random.Random(seed)
        self.pc: list[Node] = []
        self.pcset = set()
        self.pckey = 0
        self.samplers = {}
        self.order = []
        self.max_paths = max_paths
        self.deadline = time.time() + timeout
        self.retries = 2            # of obligations
        self.path_retries = 20
        self.paths = 0
        self.frames = []
        self.merge_base = None
        self.sum_rules = []
        self.defs = {}
        self.debug = False
        self.conform_n = 0
        self.conform_seen = {}
        self.loopinfo = {}
        self.peel_sites = set()
        self.loopstack = []
        self.hint_fns = {}
        self.while_inv = {}
        self.step_check = {}
        self.callcount = {}
        self.covers = {}
        self._entcache = {}
        self.assumptions = set()
        self.pcids = {}
        self.restarts = 0
        self.warn_exc = None
        self.unsupported = None
        self.env_extra = {}
        self.seq_no = 0
        self.check_domain = False
        self.np_div = 0
        # app name -> fn(*args) -> facts; instantiated at every ground occurrence
        self.axioms = {}
        self._axdone = {}
        self.nofork = 0         # no path splits in frames up to this depth
        # only obligations named "frame..." are generated (see contracts/c25.py)
        self.frame_only = False
        self.inputs = []
        self.on_path_end = None

    # {{{ inputs

    def int(self, name, lo=None, hi=None, sample=None):
        from .sym import SNum
        v = T.var(name, "I")
        self.samplers[v] = sample or (lambda r, lo=lo, hi=hi: r.randint(
            lo if lo is not None else -3, hi if hi is not None else (lo or 0) + 5))
        if lo is not None:
            self.assume(T.le(T.num(lo), v))
        if hi is not None:
            self.assume(T.le(v, T.num(hi)))
        return SNum(v)

    def real(self, name, lo=None, hi=None, sample=None):
        """lo/hi are strict bounds"""
        from .sym import SNum
        v = T.var(name, "R")

        def dflt(r, lo=lo, hi=hi):
            a = -2 if lo is None else lo
            b = a + 4 if hi is None else hi
            return mpmath.mpf(a) + (mpmath.mpf(b) - a) * mpmath.mpf(r.randint(1, 9999)) / 10000
        self.samplers[v] = sample or dflt
        if lo is not None:
            self.assume(T.lt(T.num(lo), v))
        if hi is not None:
            self.assume(T.lt(v, T.num(hi)))
        return SNum(v)

    def array(self, name, shape, sort="R", dtype=None):
        """An arbitrary array: elements are an uninterpreted function of the indices."""
        from .sym import fresh_array
        a = fresh_array(name, shape, sort, dtype, is_input=True)
        self.inputs.append(a.buf)
        return a

    # }}}

    # {{{ path condition

    def _setkey(self):
        k = tuple(n.id for n in self.pc)
        if k not in self.pcids:
            self.pcids[k] = len(self.pcids) + 1
        self.pckey = (id(self), self.pcids[k])

    def push(self, cond):
        self.pc.append(cond)
        self._setkey()

    def assume(self, cond):
        from .sym import lift_bool
        cond = lift_bool(cond)
        if cond is T.TRUE:
            return
        self.push(cond)
        if cond is T.FALSE:
            raise PathEnd()

    def axiom(self, name, fn):
        """fn(*args) -> conditions that hold for every application name(*args)"""
        from .sym import lift_bool
        self.axioms[name] = lambda *a: [lift_bool(c) for c in fn(*a)]

    def facts(self, *nodes):
        """pc plus range facts of opened bound variables occurring in nodes."""
        fs = list(self.pc)
        seen = set()
        stack = list(nodes)
        while stack:
            n = stack.pop()
            for v in n.fv:
                if v in T.RANGES and v not in seen:
                    seen.add(v)
                    lo, hi = T.RANGES[v]
                    f1, f2 = T.le(lo, v), T.lt(v, hi)
                    fs += [f1, f2]
                    stack += [f1, f2]
        if self.axioms:
            fs += self._instances([*nodes, *fs])
        return fs

    def _instances(self, nodes):
        out = []
        work = list(nodes)
        seen = set()
        for depth in range(3):
            new = []
            for x in work:
                for t in T.subterms(x, seen):
                    if t.op == "app" and t.args[0] in self.axioms and \
                            not any(v.args[0].startswith("$") for v in t.fv):
                        r = self._axdone.get(t)
                        if r is None:
                            r = self._axdone[t] = [
                                f for f in self.axioms[t.args[0]](*t.args[1:])
                                if f is not T.TRUE]
                        new += r
            out += new
            work = new
            if not new:
                break
        return out

    def entails(self, cond, timeout=1500):
        if cond is T.TRUE:
            return True
        if cond is T.FALSE:
            # path may be contradictory, but do not rely on it
            return False
        key = (self.pckey, cond)
        r = self._entcache.get(key)
        if r is not None:
            return r
        if cond in self.pc:
            r = True
        else:
            s, _ = smt.check(tuple(self.facts(cond)) + (T.not_(cond),), timeout, use_cvc5=False)
            r = s == "unsat"
        self._entcache[key] = r
        return r

    def feasible(self, cond):
        if cond is T.FALSE:
            return False
        if cond is T.TRUE:
            return True
        s, _ = smt.check(tuple(self.facts(cond)) + (cond,), 1500, use_cvc5=False)
        return s != "unsat"

    def decide(self, cond) -> bool:
        """Branch on a boolean term."""
        if cond is T.TRUE:
            return True
        if cond is T.FALSE:
            return False
        if time.time() > self.deadline:
            raise Budget("time budget of the verification condition exhausted")
        c2 = N.norm_bool(cond) if cond.op in ("lt", "le", "eq") else cond
        if c2 is T.TRUE:
            return True
        if c2 is T.FALSE:
            return False
        if cond in self.pc:
            return True
        nc = T.not_(cond)
        if nc in self.pc:
            return False
        f = self.frames[-1]
        if f.pos < len(f.prefix):
            b, forced = f.prefix[f.pos]
            f.pos += 1
            if not forced:
                self.push(cond if b else nc)
            return b
        t = self.feasible(cond)
        e = self.feasible(nc)
        if t and e and c2 is not cond and c2.op in ("lt", "le", "eq"):
            t = self.feasible(c2)
            e = self.feasible(T.not_(c2))
        if t and e:
            if self.nofork >= len(self.frames):
                raise Unsupported("branch inside the analysis of a loop")
            f.pending.append(f.prefix + [(False, False)])
            b, forced = True, False
        elif t:
            b, forced = True, True
        elif e:
            b, forced = False, True
        else:
            raise PathEnd()
        f.prefix = f.prefix + [(b, forced)]
        f.pos += 1
        if not forced:
            self.push(cond if b else nc)
        return b

    def choose(self, label) -> bool:
        """A nondeterministic choice (both branches are explored)."""
        f = self.frames[-1]
        if f.pos < len(f.prefix):
            b, _ = f.prefix[f.pos]
            f.pos += 1
            return b
        f.pending.append(f.prefix + [(False, True)])
        f.prefix = f.prefix + [(True, True)]
        f.pos += 1
        return True

    # }}}

    # {{{ exploration

    def run(self, harness):
        """Explore all paths of harness(self)."""
        old = CUR[0]
        oldctx = N.CTX[0]
        CUR[0] = self
        N.CTX[0] = ProofCtx(self)
        t0 = time.time()
        try:
            work = [[]]
            while work:
                prefix = work.pop()
                self.paths += 1
                if self.paths > self.max_paths:
                    raise Budget("too many paths")
                fr = Frame(0)
                fr.prefix = prefix
                self.frames = [fr]
                self.pc = []
                self._setkey()
                self.samplers = {}
                self.loopstack = []
                self.seq_no = 0
                self.sum_rules = []
                self.callcount = {}
                self.merge_base = None
                self.np_div = 0
                self.axioms = {}
                self._axdone = {}
                self.inputs = []
                try:
                    harness(self)
                    if self.on_path_end is not None:
                        self.on_path_end(self)
                    self.covers["end"] = self.covers.get("end", 0) + 1
                except PathEnd:
                    pass
                except Restart:
                    self.restarts += 1
                    if self.restarts > 60:
                        raise Unsupported("loop summaries do not stabilise") from None
                    self.obligations = []
                    for info in self.loopinfo.values():
                        info.open = False       # paths are collected anew
                    work = [[]]
                    continue
                except Unsupported:
                    raise
                except RecursionError as e:
                    raise Unsupported(f"recursion: {e}") from None
                except Exception as e:     # noqa: BLE001
                    self._path_exception(e)
                work.extend(fr.pending)
            for o in self.obligations:
                if o.status == "noinv":
                    raise Unsupported(o.detail)
        except Unsupported as e:
            self.unsupported = f"{type(e).__name__}: {e}"
            self.unsupported_tb = traceback.format_exc()
        finally:
            CUR[0] = old
            N.CTX[0] = oldctx
            self.wall = time.time() - t0
        return self

    def _factor_sign(self, t):
        """(sign, strict) of a product from the signs of its factors; or None"""
        if t.op == "num":
            return (-1 if t.args[0] < 0 else 1, t.args[0] != 0)
        if t.op == "mul":
            r = (1, True)
            for x in t.args:
                q = self._factor_sign(x)
                if q is None:
                    return None
                r = (r[0] * q[0], r[1] and q[1])
            return r
        if t.op == "pow" and t.args[1].op == "num":
            q = self._factor_sign(t.args[0])
            e = t.args[1].args[0]
            if q is None or (e < 0 and not q[1]):
                return None
            if e.denominator == 1:
                return (q[0] if e % 2 else 1, q[1])
            return (1, q[1]) if q[0] == 1 else None
        for sg, lo, hi in ((1, T.num(0), t), (-1, t, T.num(0))):
            if self.entails(T.lt(lo, hi)):
                return (sg, True)
            if self.entails(T.le(lo, hi)):
                return (sg, False)
        return None

    def _contradicts(self, c):
        """the other conditions of the path, by the signs of factors, make c false"""
        if c.op not in ("lt", "le") or not (T.is_num(c.args[0], 0) or T.is_num(c.args[1], 0)):
            return False
        want = 1 if T.is_num(c.args[0], 0) else -1
        t = c.args[1] if want == 1 else c.args[0]
        if t.op not in ("mul", "pow"):
            return False
        pc, key = self.pc, self.pckey
        try:
            self.pc = [x for x in pc if x is not c]
            self._setkey()
            q = self._factor_sign(t)
        finally:
            self.pc = pc
            self._setkey()
        return q is not None and q[0] == -want and (q[1] or c.op == "lt")

    def _path_exception(self, e):
        if self.frame_only:
            return
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{fr.name}:{fr.lineno}" for fr in reversed(tb[-6:]))
        if any(type(e) is t for t in (NameError, UnboundLocalError)) and "__pv" in str(e):
            raise Unsupported(str(e))
        name = f"no exception ({type(e).__name__}: {str(e)[:120]})"
        if isinstance(e, (AttributeError, TypeError, NotImplementedError, NameError)) and \
                any("/pyvc/" in fr.filename or "/contracts/" in fr.filename for fr in tb[-1:]):
            raise Unsupported(f"{type(e).__name__}: {e} at {where}")
        env = self.sample_env()
        if env is None and self.path_retries > 0:
            # the branch was explored because a solver gave no answer in its short time limit
            self.path_retries -= 1
            if any(self._contradicts(c) for c in self.pc[-4:]):
                return
            r, _ = smt.check(tuple(self.facts()) + (T.TRUE,), 12000)
            if r == "unsat":
                return
        self._record(name, "refuted" if env is not None else "unknown", "path",
                     f"{type(e).__name__}: {e} at {where}", env)

    def merge_eval(self, fn, extra=None):
        """Evaluate fn() over all its internal branches; -> [(cond, value)]"""
        base = len(self.pc)
        pc0 = list(self.pc)
        out = []
        outer_base = self.merge_base
        if outer_base is None:
            self.merge_base = base
        try:
            return self._merge_eval(fn, extra, base, pc0, out)
        finally:
            self.merge_base = outer_base

    def merge_context(self):
        """conditions assumed inside the merged evaluations under way"""
        return [] if self.merge_base is None else list(self.pc[self.merge_base:])

    def _merge_eval(self, fn, extra, base, pc0, out):
        work = [[]]
        count = 0
        seq0 = seq1 = self.seq_no
        calls0 = dict(self.callcount)
        while work:
            prefix = work.pop()
            count += 1
            # every branch starts from the same point
            self.seq_no = seq0
            self.callcount = dict(calls0)
            if count > 40:
                raise Unsupported("too many branches in a merged evaluation")
            fr = Frame(base)
            fr.prefix = prefix
            self.frames.append(fr)
            self.pc = list(pc0)
            self._setkey()
            try:
                if extra is not None:
                    self.push(extra)
                    base2 = base + 1
                else:
                    base2 = base
                try:
                    val = fn()
                    out.append((T.and_(*self.pc[base2:]), val))
                except PathEnd:
                    pass
                work.extend(fr.pending)
            finally:
                self.frames.pop()
                self.pc = list(pc0)
                self._setkey()
                seq1 = max(seq1, self.seq_no)
        self.seq_no = seq1
        return out

    # }}}

    # {{{ obligations

    def sample_env(self, tries=200):
        """A numeric assignment satisfying the path condition, or None."""
        r = random.Random(self.rng.random())
        base = None
        pcs = self.pc + self._instances(self.pc) if self.axioms else self.pc
        for k in range(tries):
            env = dict(self.env_extra)
            for v, s in self.samplers.items():
                env[v] = s(r)
            vs = set()
            for c in self.pc:
                vs |= c.fv
            for v in vs:
                if v not in env:
                    env[v] = r.randint(0, 5) if v.sort == "I" else mpmath.mpf(
                        r.randint(-30000, 30000)) / 10007
            try:
                if all(evalt.evaluate(c, env) for c in pcs):
                    return env
            except (evalt.Undefined, evalt.Uneval):
                continue
            # unit propagation: equalities var = term
            if k == 3:
                s, m = smt.check(tuple(self.pc), 2000, want_model=True, use_cvc5=False)
                if s == "unsat":
                    return None
                if m:
                    base = m
            if base and k >= 3:
                env.update({v: x for v, x in base.items() if x is not None})
                try:
                    if all(evalt.evaluate(c, env) for c in pcs):
                        return env
                except (evalt.Undefined, evalt.Uneval):
                    pass
                base = None
        return None

    def _record(self, name, status, backend, detail="", model=None, goal=None):
        if status != "proved":
            for c in ([goal] if goal is not None else []) + self.pc:
                for x in T.subterms(c):
                    if x.op == "app" and str(x.args[0]).startswith("?"):
                        # a limit of the verifier, unless the exploration is restarted
                        self.obligations.append(Obligation(
                            name, "noinv", backend, f"no invariant was found for the loop "
                            f"state {x.args[0]} ({name})", None, None))
                        return False
        self.obligations.append(Obligation(name, status, backend, detail, model, goal))
        return status == "proved"

    def refute(self, goal, tries=40):
        """Search an assignment under the path condition that makes goal false.

        self.agreed: how many different assignments made it true, if they took every branch"""
        self.agreed = 0
        evalt.BRANCHES = br = {}
        seen = set()
        try:
            r = self._refute(goal, tries, seen)
        finally:
            evalt.BRANCHES = None
        if r is None:
            ites = {x.args[0] for x in T.subterms(goal) if x.op == "ite"}
            if all(br.get(c) == {True, False} or (c in br and self._one_sided(c, br[c]))
                   for c in ites):
                self.agreed = len(seen)
                free = any(x.op == "var" and not x.args[0].startswith("$") or x.op == "app"
                           and x.args[0] not in evalt.INTERP for x in T.subterms(goal))
                if seen and not free:
                    self.agreed = 1000
        return r

    def _one_sided(self, c, seen):
        """the branches that were not taken cannot be taken"""
        if any(u.args[0].startswith("$") for u in c.fv):
            return False
        return all(o in seen or not self.feasible(c if o else T.not_(c))
                   for o in (True, False))

    def _unproved(self, name, backend, detail, model, goal):
        if self.agreed >= 15:
            return self._record(name, "agrees", backend, f"neither proved nor refuted; holds at "
                                f"{self.agreed} sampled points", model, goal)
        return self._record(name, "unknown", backend, detail, model, goal)

    def _refute(self, goal, tries, seen):
        for _ in range(tries):
            env = self.sample_env()
            if env is None:
                return None
            env = dict(env)
            r = random.Random(self.rng.random())
            ranges_ok = True
            for v in sorted(goal.fv, key=lambda n: n.id):
                if v not in env:
                    if v in T.RANGES:
                        try:
                            lo = evalt.evaluate(T.RANGES[v][0], env)
                            hi = evalt.evaluate(T.RANGES[v][1], env)
                            if hi <= lo:
                                ranges_ok = False
                                break
                            env[v] = r.randint(int(lo), int(hi) - 1)
                            continue
                        except (evalt.Undefined, evalt.Uneval):
                            pass
                    env[v] = r.randint(0, 5) if v.sort == "I" else mpmath.mpf(
                        r.randint(-30000, 30000)) / 10007
            if not ranges_ok:
                continue
            try:
                if self.axioms and not all(evalt.evaluate(c, env)
                                           for c in self._instances([goal, *self.pc])):
                    continue
                if goal.op == "eq":
                    a = evalt.evaluate(goal.args[0], env)
                    b = evalt.evaluate(goal.args[1], env)
                    if not evalt.close(a, b):
                        return env, a, b
                elif not evalt.evaluate(goal, env):
                    return env, None, None
                seen.add(tuple(sorted((v.id, str(x)) for v, x in env.items()
                                      if isinstance(v, Node))))
            except (evalt.Undefined, evalt.Uneval):
                continue
            except (OverflowError, MemoryError, TypeError):
                continue
        return None

    def prove_eq(self, name, a, b):
        """Obligation: the numbers (or booleans) a and b are equal."""
        if self._skip(name):
            return True
        from .sym import lift
        a, b = lift(a), lift(b)
        t0 = time.time()
        if a.sort == "B" or b.sort == "B":
            return self.prove(name, T.and_(T.implies(a, b), T.implies(b, a)))
        ok, how = self._eq_split(a, b, 0)
        if not ok:
            a2, b2 = self._pc_subst(a, b)
            if a2 is not a or b2 is not b:
                ok, how = self._eq_split(a2, b2, 0)
        if not ok and any(x.op == "sum" for x in T.subterms(T.sub(a, b))):
            N.ALIGN[0] = True
            try:
                ok, how = self._eq_split(a, b, 0)
            finally:
                N.ALIGN[0] = False
        if not ok:
            p, q = _push_powers(N.canon(a)), _push_powers(N.canon(b))
            if p is not a or q is not b:
                ok, how = self._eq_split(p, q, 0)
        if not ok:
            ok, how = self._induct(a, b)
        if ok:
            return self._record(name, "proved", how)
        goal = T.mk("eq", (a, b), "B")
        if self.debug:
            print("UNPROVED", name, "\n PC", self.pc, "\n A", T.show(N.canon(a))[:1500],
                  "\n B", T.show(N.canon(b))[:1500])
        m = self.refute(goal)
        if m is not None:
            env, x, y = m
            return self._record(name, "refuted", "eval",
                                f"lhs={_short(x)} rhs={_short(y)}", env, goal)
        if a.size + b.size < 400:
            s, _ = smt.check(tuple(self.facts(a, b)) + (T.not_(T.eq(a, b)),), 8000)
            if s == "unsat":
                return self._record(name, "proved", "z3")
        return self._unproved(name, "normaliser", "not proved", None, goal)

    def _pc_subst(self, *ts):
        """Use the equations of the path condition."""
        for c in self.pc:
            q = None
            if c.op == "eq" and c.args[0].sort != "B":
                q = self._solve_eq(c)
            elif c.op in ("le", "not"):
                q = self._tight(c)
            if q is not None:
                ts = [T.subst(t, {q[0]: q[1]}) for t in ts]
        return ts

    def _find_split(self, n):
        for x in T.subterms(n):
            if x.op == "ite":
                bound = any(v.args[0].startswith("$") for v in x.args[0].fv)
                if not bound:
                    return x
        return None

    def _eq_split(self, a, b, depth):
        if a is b:
            return True, "syntactic"
        if N.is_zero(T.sub(a, b)):
            return True, "normaliser"
        if depth > 10:
            return False, ""
        x = self._find_split(T.sub(a, b))
        if x is not None and depth == 0:
            # branches that cancel need not be split
            a, b = N.canon(a), N.canon(b)
            x = self._find_split(T.sub(a, b))
        if x is None:
            # Kronecker deltas as conditionals
            m = {d: T.ite(T.eq(d.args[1], d.args[2]), T.num(1), T.num(0))
                 for d in T.subterms(T.sub(a, b)) if d.op == "app" and d.args[0] == "delta"
                 and not any(u.args[0].startswith("$") for u in d.fv)}
            if m:
                a, b = _replace(a, m), _replace(b, m)
                x = self._find_split(T.sub(a, b))
        if x is None:
            r = self._congruence(a, b)
            if r[0]:
                return r
            u = self._unfold(a, b)
            if u is not None:
                ok, how = self._eq_split(u[0], u[1], depth + 1)
                return ok, how + "+unfold"
            return r
        c = x.args[0]
        while c.op in ("and", "or", "not"):
            c = c.args[0]
        results = []
        for pol in (True, False):
            cc = c if pol else T.not_(c)
            if not self.feasible(cc):
                continue
            n = len(self.pc)
            self.push(cc)
            try:
                m = {c: T.TRUE if pol else T.FALSE}
                sa, sb = _replace(a, m), _replace(b, m)
                # use an equality hypothesis on an integer/real variable
                if cc.op == "eq":
                    q = self._solve_eq(cc)
                    if q is not None:
                        u, w = q
                        sa, sb = T.subst(sa, {u: w}), T.subst(sb, {u: w})
                else:
                    q = self._tight(cc)
                    if q is not None:
                        u, w = q
                        self.push(T.eq(u, w))
                        sa, sb = T.subst(sa, {u: w}), T.subst(sb, {u: w})
                ok, how = self._eq_split(sa, sb, depth + 1)
            finally:
                del self.pc[n:]
                self._setkey()
            if not ok:
                return False, ""
            results.append(how)
        return True, "normaliser+z3"

    @staticmethod
    def _solve_eq(c):
        """An equation solved for a variable: (variable, term) or None."""
        l, r = c.args
        if l.sort == "B":
            return None
        for u, w in ((l, r), (r, l)):
            if u.op == "var" and u not in w.fv:
                return u, w
        e = N.norm(T.sub(l, r))
        cands = []
        for m, c in e.items():
            if len(m) == 1 and m[0][1] == N.E1 and abs(c) == 1 and m[0][0].op == "var":
                u = m[0][0]
                if all(all(u not in b.fv for b, _ in m2) for m2 in e if m2 != m):
                    cands.append((u.id, u, m, c))
        if not cands:
            return None
        _, u, m, c = max(cands, key=lambda t: t[0])
        w = N.gp_term({m2: -c2 / c for m2, c2 in e.items() if m2 != m})
        return (u, w) if w.sort == u.sort or u.sort == "R" else None

    def _tight(self, cc):
        """An integer inequality that the path condition tightens to an equality."""
        neg_ = cc.op == "not"
        x = cc.args[0] if neg_ else cc
        if x.op not in ("le", "lt") or x.args[0].sort != "I" or x.args[1].sort != "I":
            return None
        d = T.sub(x.args[1], x.args[0])
        k = {("le", False): 0, ("lt", False): 1, ("le", True): -1, ("lt", True): 0}[
            (x.op, neg_)]
        e = N.norm(T.sub(d, T.num(k)))
        if not self.entails(T.eq(T.sub(d, T.num(k)), T.num(0))):
            return None
        cands = []
        for m, c in e.items():
            if len(m) == 1 and m[0][1] == N.E1 and abs(c) == 1 and m[0][0].op == "var":
                u = m[0][0]
                if all(len(m2) <= 1 and u not in (m2[0][0].fv if m2 else ())
                       for m2 in e if m2 != m):
                    cands.append((u.id, u, m, c))
        if not cands:
            return None
        _, u, m, c = max(cands, key=lambda t: t[0])
        rest = {m2: -c2 / c for m2, c2 in e.items() if m2 != m}
        return u, N.gp_term(rest)

    def _congruence(self, a, b):
        """Unify applications whose arguments are provably equal, then retry."""
        apps = {}
        t = T.sub(N.canon(a), N.canon(b))
        for x in T.subterms(t):
            if x.op == "app" and len(x.args) > 1 and \
                    not any(v.args[0].startswith("$") for v in x.fv):
                apps.setdefault((x.args[0], len(x.args), x.sort), []).append(x)
        m = {}
        for group in apps.values():
            if len(group) < 2 or len(group) > 12:
                continue
            for i in range(len(group)):
                if group[i] in m:
                    continue
                for j in range(i):
                    if group[j] in m:
                        continue
                    if all(p is q or (isinstance(p, Node) and isinstance(q, Node)
                                      and p.sort != "B" and p.op != "lam" and q.op != "lam"
                                      and (N.is_zero(T.sub(p, q)) or self.entails(T.eq(p, q))))
                           for p, q in zip(group[i].args[1:], group[j].args[1:])):
                        m[group[i]] = group[j]
                        break
        if not m:
            return False, ""
        t2 = _replace(t, m)
        if t2 is not t and N.is_zero(t2):
            return True, "normaliser+congruence"
        return False, ""

    def _induct(self, a, b):
        """a = b by induction on an integer variable that only occurs in bounds.

        The goal has the form  c*P = d*D(i)  with a product or sum P and a defined function D."""
        if not self.defs:
            return False, ""
        t = N.norm(T.sub(a, b))
        if len(t) != 2:
            return False, ""
        apps = [x for x in T.subterms(N.gp_term(t)) if x.op == "app" and x.args[0] in self.defs
                and not any(u.args[0].startswith("$") for u in x.fv)]
        if len(apps) != 1:
            return False, ""
        D = apps[0]
        pos, fn = self.defs[D.args[0]]
        ix = N.norm(D.args[1 + pos])
        vs = [m[0][0] for m, c in ix.items() if len(m) == 1 and m[0][1] == N.E1 and c == 1
              and m[0][0].op == "var" and m[0][0].sort == "I"]
        for i in vs:
            if any(i in y.fv for k, y in enumerate(D.args[1:]) if k != pos):
                continue
            lo = None
            good = True
            for c in self.pc:
                if i not in c.fv:
                    continue
                if c.op in ("le", "lt") and c.args[1] is i and i not in c.args[0].fv:
                    lo = T.add(c.args[0], T.num(0 if c.op == "le" else 1))
                elif not (c.op in ("le", "lt") and c.args[0] is i and i not in c.args[1].fv):
                    good = False
            if not good or lo is None:
                continue
            up = {i: T.add(i, T.num(1))}
            # base
            n = len(self.pc)
            self.push(T.eq(i, lo))
            try:
                ok, _ = self._eq_split(T.subst(a, {i: lo}), T.subst(b, {i: lo}), 1)
            finally:
                del self.pc[n:]
                self._setkey()
            if not ok:
                continue
            # step: D(i) is what the hypothesis says; the goal is at i + 1
            m = [(mm, c) for mm, c in t.items() if ((D, N.E1) in mm)]
            o = [(mm, c) for mm, c in t.items() if all(bb is not D for bb, _ in mm)]
            if len(m) != 1 or len(o) != 1:
                continue
            (mm, c), (om, oc) = m[0], o[0]
            rest = N.gp_term({tuple(x for x in mm if x[0] is not D): c})
            if not rest.op == "num":
                continue
            hyp = T.div(T.mul(T.num(-1), N.gp_term({om: oc})), rest)
            D1 = T.subst(D, up)
            r = fn(*D1.args[1:])
            if r is None:
                continue
            # one unfolding may mention D(i) only
            r = _replace(N.canon(r), {D: hyp})
            A, B = (_replace1(T.subst(N.canon(x), up), {D1: r}) for x in (a, b))
            if any(y.op == "app" and y.args[0] == D.args[0] for x in (A, B)
                   for y in T.subterms(x)):
                continue
            ok, _ = self._eq_split(A, B, 1)
            if ok:
                return True, "normaliser+induction"
        return False, ""

    def _unfold(self, a, b):
        """Unfold the topmost applications of defined specification functions once.

        v.defs[name] = (position of the recursion index, fn(*args) -> Node or None)"""
        if not self.defs:
            return None
        t = T.sub(N.canon(a), N.canon(b))
        groups = {}
        for x in T.subterms(t):
            if x.op == "app" and x.args[0] in self.defs and \
                    not any(v.args[0].startswith("$") for v in x.fv):
                groups.setdefault(x.args[0], []).append(x)
        m = {}
        for name, xs in groups.items():
            pos, fn = self.defs[name]
            for x in xs:
                top = True
                for y in xs:
                    if y is not x:
                        d = N.canon(T.sub(y.args[1 + pos], x.args[1 + pos]))
                        if d.op == "num" and d.args[0] > 0:
                            top = False
                if top:
                    r = fn(*x.args[1:])
                    if r is not None:
                        m[x] = r
        if not m:
            return None
        return _replace1(N.canon(a), m), _replace1(N.canon(b), m)

    def _skip(self, name):
        return self.frame_only and not name.startswith("frame")

    def prove(self, name, cond, timeout=8000):
        if self._skip(name):
            return True
        from .sym import lift_bool
        cond = lift_bool(cond)
        c = N.norm_bool(cond) if cond.op in ("lt", "le", "eq") and cond.args[0].sort != "B" \
            else cond
        if c is T.TRUE:
            return self._record(name, "proved", "normaliser")
        if cond.op == "eq" and cond.args[0].sort != "B":
            return self.prove_eq(name, *cond.args)
        if cond.op == "and":
            ok = True
            for i, x in enumerate(cond.args):
                ok = self.prove(f"{name}/{i}", x) and ok
            return ok
        s, m = smt.check(tuple(self.facts(cond)) + (T.not_(cond),), timeout)
        if s == "unsat":
            return self._record(name, "proved", "z3")
        if cond.op in ("lt", "le") and cond.args[0].sort != "B":
            sg = N.sign(self, T.sub(cond.args[1], cond.args[0]))
            if sg == "+" or (sg == "0" and cond.op == "le"):
                return self._record(name, "proved", "normaliser")
        r = self.refute(cond)
        if r is not None:
            return self._record(name, "refuted", "eval", T.show(cond)[:300], r[0], cond)
        if s == "sat":
            s2, m2 = smt.check(tuple(self.facts(cond)) + (T.not_(cond),), timeout,
                               want_model=True)
            if _noapps(cond, self.pc):
                return self._record(name, "refuted", "z3", T.show(cond)[:300], m2, cond)
            return self._unproved(name, "z3", T.show(cond)[:300], m2, cond)
        if self.agreed < 15 and self.retries > 0:
            # no answer and no counterexample: once more with a longer time limit
            self.retries -= 1
            s, _ = smt.check((*self.facts(cond), T.not_(cond), T.TRUE), 12000)
            if s == "unsat":
                return self._record(name, "proved", "z3")
        return self._unproved(name, "z3", T.show(cond)[:300], None, cond)

    def prove_array(self, name, arr, shape, fn, pre=None):
        """arr has the given shape and elements fn(*index), where pre(*index) holds."""
        if self._skip(name):
            return True
        from .sym import SArr, SNum, asarr, lift
        arr = asarr(arr)
        if len(arr.shape) != len(shape):
            try:
                probe = arr.elem(tuple(T.num(0) for _ in arr.shape))
            except Exception:       # noqa: BLE001
                probe = None
            if isinstance(probe, T.Node) and any(
                    x.op == "app" and str(x.args[0]).startswith("?")
                    for x in T.subterms(probe)):
                return self._record(f"{name}: rank", "unknown", "shape",
                                    f"rank {len(arr.shape)} instead of {len(shape)}",
                                    None, T.mk("eq", (probe, probe), "B"))
            return self._record(f"{name}: rank", "refuted", "shape",
                                f"rank {len(arr.shape)} instead of {len(shape)}",
                                self.sample_env())
        for k, (d, e) in enumerate(zip(arr.shape, shape)):
            if not self.prove_eq(f"{name}: extent of axis {k}", d, e):
                return False
        idx = []
        for k, d in enumerate(shape):
            v = T.fresh("i", "I")
            T.RANGES[v] = (T.num(0), lift(d))
            idx.append(v)
        n = len(self.pc)
        for v in idx:
            self.push(T.le(T.num(0), v))
            self.push(T.lt(v, T.RANGES[v][1]))
            self.samplers[v] = lambda r: r.randint(0, 4)
        try:
            if pre is not None:
                from .sym import lift_bool
                for c in pre(*[SNum(v) for v in idx]):
                    self.push(lift_bool(c))
            if not self.feasible(T.TRUE) or smt.check(tuple(self.pc), 1500)[0] == "unsat":
                return self._record(f"{name} (empty)", "proved", "z3")
            exp = fn(*[SNum(v) for v in idx])
            return self.prove_eq(name, SNum(arr.elem(tuple(idx))), exp)
        finally:
            del self.pc[n:]
            self._setkey()
            for v in idx:
                self.samplers.pop(v, None)

    def conform(self, name, value, real, runs=2, rtol=1e-6):
        """The engine's own result, evaluated at sampled inputs, equals what CPython computes.

        real(E) runs the uninstrumented code; a mismatch means the model of the code is wrong,
        and then no verdict is given."""
        import numpy as np
        if self.frame_only:
            return
        if self.conform_seen.get(name, 0) >= runs * 3:
            return
        for _ in range(runs):
            env = self.sample_env()
            if env is None:
                return
            E = Env(env)
            try:
                mine = E.value(value)
            except (evalt.Undefined, evalt.Uneval, OverflowError):
                continue
            theirs = np.asarray(real(E))
            self.conform_seen[name] = self.conform_seen.get(name, 0) + 1
            self.conform_n += 1
            mine = np.asarray(mine)
            if mine.shape != theirs.shape or not np.allclose(
                    mine.astype(float), theirs.astype(float), rtol=rtol, atol=1e-7):
                raise Unsupported(f"engine/CPython mismatch in {name}: {mine!r} {theirs!r} "
                                  f"at { {str(k): str(x) for k, x in env.items()} }"[:600])

    def fail(self, name, detail=""):
        if self._skip(name):
            return True
        env = self.sample_env()
        return self._record(name, "refuted" if env is not None else "unknown", "path",
                            detail, env)

    def ok(self, name, how="path"):
        if self._skip(name):
            return True
        return self._record(name, "proved", how)

    def cover(self, name):
        """Reachability: the path condition is satisfiable here (vacuity guard)."""
        if self.frame_only:
            return
        env = self.sample_env()
        if env is not None:
            self.covers[name] = self.covers.get(name, 0) + 1

    # }}}


class Env:
    """A sampled assignment, as plain Python/numpy values."""

    def __init__(self, env):
        self.env = env

    def term(self, n):
        x = evalt.evaluate(n, self.env)
        if isinstance(x, (int, bool)):
            return x
        return float(x)

    def value(self, x):
        import itertools
        import numpy as np
        from .sym import SArr, SBool, SNum, SSeq, lift
        if isinstance(x, Node):
            return self.term(x)
        if isinstance(x, (SNum, SBool)):
            return self.term(lift(x))
        if isinstance(x, SArr):
            shp = tuple(self.term(d) for d in x._shape)
            out = np.empty(shp)
            for i in itertools.product(*map(range, shp)):
                e = x.elem(tuple(T.num(j) for j in i))
                out[i] = self.value(e)
            return out
        if isinstance(x, SSeq):
            n = self.term(x.n)
            return [self.value(x.get(T.num(j))) for j in range(n)]
        if isinstance(x, (tuple, list)):
            return type(x)(self.value(y) for y in x) if type(x) in (tuple, list) \
                else [self.value(y) for y in x]
        if isinstance(x, Fraction):
            return float(x)
        return x

    __call__ = value


def _short(x):
    try:
        return mpmath.nstr(mpmath.mpf(x), 12)
    except Exception:
        return str(x)


def _noapps(cond, pc):
    for c in [cond, *pc]:
        for x in T.subterms(c):
            if x.op in ("app", "sum", "prod", "lam", "all") or (
                    x.op == "pow" and x.args[1].op != "num"):
                return False
    return True


def _push_powers(n, memo=None):
    """ite(c, x, y)**e  ->  ite(c, x**e, y**e), also under binders"""
    memo = {} if memo is None else memo
    r = memo.get(n)
    if r is not None:
        return r
    if n.op in ("num", "var", "true", "false"):
        r = n
    elif n.op in ("sum", "prod", "all"):
        cv = n.args[0]
        lo, hi, body = (_push_powers(x, memo) for x in n.args[1:])
        if lo is n.args[1] and hi is n.args[2] and body is n.args[3]:
            r = n
        else:
            v = T.fresh("r", cv.sort)
            r = T.binder(n.op, v, lo, hi, T.subst(body, {cv: v}))
    elif n.op == "lam":
        r = n
    elif n.op == "pow" and n.args[0].op == "ite":
        c, x, y = n.args[0].args
        e = _push_powers(n.args[1], memo)
        r = T.ite(c, T.pow_(_push_powers(x, memo), e), T.pow_(_push_powers(y, memo), e))
    else:
        args = tuple(_push_powers(x, memo) if isinstance(x, Node) else x for x in n.args)
        if all(p is q for p, q in zip(args, n.args)):
            r = n
        else:
            r = T.rebuild(n, args)
    memo[n] = r
    return r


def _replace1(n, m):
    """Replace closed subterms once (the replacements are not revisited)."""
    tmp = {k: T.fresh("w", k.sort) for k in m}
    return T.subst(_replace(n, tmp), {tmp[k]: m[k] for k in m})


def _replace(n, m, memo=None):
    """Replace closed subterms."""
    if memo is None:
        memo = {}
        if not m:
            return n
    if n in m:
        return _replace(m[n], m, memo)
    r = memo.get(n)
    if r is not None:
        return r
    if n.op in ("num", "var", "true", "false"):
        r = n
    elif n.op in ("sum", "prod", "all"):
        cv = n.args[0]
        lo, hi = _replace(n.args[1], m, memo), _replace(n.args[2], m, memo)
        body = _replace(n.args[3], m, memo)
        if lo is n.args[1] and hi is n.args[2] and body is n.args[3]:
            r = n
        else:
            v = T.fresh("r", cv.sort)
            r = T.binder(n.op, v, lo, hi, T.subst(body, {cv: v}))
    elif n.op == "lam":
        cv = n.args[0]
        body = _replace(n.args[1], m, memo)
        if body is n.args[1]:
            r = n
        else:
            v = T.fresh("r", cv.sort)
            r = T.lam(v, T.subst(body, {cv: v}))
    else:
        args = tuple(_replace(a, m, memo) if isinstance(a, Node) else a for a in n.args)
        r = n if args == n.args else T.rebuild(n, args)
    memo[n] = r
    return r
