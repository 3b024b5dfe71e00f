"""Run-time support called by rewritten code: loops, comprehensions, builtins, numpy/math."""
from __future__ import annotations

import builtins as _b
import math as _math
from fractions import Fraction

import numbers
import types

import numpy as _np

from . import norm as N, terms as T
from .core import CUR, PathEnd, Restart, Unsupported, cur, cur_or_none
from .sym import (
    B1, F8, InRange, I8, OBJ, PList, SArr, SBool, SNum, SRange, SSeq, fn_parts, stub_function, _ite_value, _prod_over,
    _sum_over, asarr, broadcast_shapes, broadcast_to, coerce, dimval, elemnum, is_scalar, lift, lift_bool,
    lift_num, matmul, merge_list, new_array, np_all, np_any, np_minmax, np_prod, np_sum,
    result_dtype, snapshot, value_subst, value_terms, wrap, write_view, _bidx, is_record, make_record,
    record_items, symbolic_record)


def symbolic(x):
    if isinstance(x, (SNum, SBool, SArr, SSeq)):
        return True
    if isinstance(x, PList):
        return x.sym is not None or any(symbolic(y) for y in x)
    if isinstance(x, (tuple, list)):
        return any(symbolic(y) for y in x)
    return False


# {{{ loops

class WhileLoop:
    """A while loop cut by an invariant supplied by the contract (v.while_inv[function]).

    The invariant is fn(env, ctx) -> [(label, condition)]; it is proved at entry and after an
    arbitrary iteration, and assumed at the head.  What the body changes is found out by
    executing it: assigned scalars and modified arrays/lists start each iteration (and the
    code after the loop) with an arbitrary content of the same kind.
    """

    def __init__(self, site, names):
        self.site, self.names = site, names
        v = CUR[0]
        self.contract = None
        if v is not None:
            fn = site.split(":")[1].split("#")[0]
            self.contract = v.while_inv.get(fn) or v.while_inv.get(fn.split(".")[-1])

    def enter(self, env):
        v = cur()
        self.entry = {n: env.get(n, UNBOUND) for n in self.names}
        self.info = v.loopinfo.setdefault((self.site, "while"), Summary())
        inv = self.contract
        for label, cond in inv.conditions(self, env, "entry"):
            v.prove(f"loop {self.site}: {label} at entry", cond)
        self.objs = heap_objects(env)
        self.okeys = list(self.objs)
        tag = T.fresh("w", "I").args[0]
        self.tag = tag
        self.values = {}
        self.havocked = {}
        for n in self.names:
            e = self.entry[n]
            if e is UNBOUND or isinstance(e, (SArr, PList)):
                self.values[n] = e
            elif hasattr(inv, "havoc") and (h := inv.havoc(self, n, e)) is not None:
                self.values[n] = h
            elif is_scalar(e) or isinstance(e, SBool):
                self.values[n] = opaque_like(e, f"?{tag}:{n}", ())
            else:
                raise Unsupported(f"while loop {self.site}: variable {n} of unknown kind")
        for nm, o in self.objs.values():
            if nm not in self.info.objs:
                continue
            j = len(self.havocked)
            if not isinstance(o, PList):
                val = opaque_like(buf_value(o), f"?{tag}:{nm}@{j}", ())
                o.fn = val.buf.fn
                o.version += 1
                self.havocked[id(o)] = f"?{tag}:{nm}@{j}"
            else:
                st = inv.havoc_list(self, nm, o)
                o.set_state(st)
        self.ver = {k: self._version(k) for k in self.okeys}
        for label, cond in inv.conditions(self, {**env, **self.values}, "head"):
            v.assume(cond)

    def _version(self, k):
        o = self.objs[k][1]
        return o.version if k[0] == "buf" else (
            o.sym, tuple(map(id, list.__iter__(o))) if o.sym is None else None)

    def get(self, n):
        return self.values[n]

    def step_end(self, env):
        v = cur()
        for k in self.okeys:
            nm = self.objs[k][0]
            if self._version(k) != self.ver[k] and nm not in self.info.objs:
                self.info.objs[nm] = True
                raise Restart()
        for n in self.names:
            e = self.entry[n]
            if e is not UNBOUND and isinstance(e, (SArr, PList)) and env.get(n) is not e:
                raise Unsupported(f"while loop {self.site}: {n} is bound to another object")
        for label, cond in self.contract.conditions(self, env, "end"):
            v.prove(f"loop {self.site}: {label} after the iteration", cond)
        raise PathEnd()


class _Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = _Unbound()


def heap_objects(env):
    """Mutable objects (arrays' buffers, lists) reachable from local variables."""
    out = {}
    seen = set()

    def walk(v, name):
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, SArr):
            out.setdefault(("buf", id(v.buf)), (name, v.buf))
        elif isinstance(v, PList):
            out.setdefault(("list", id(v)), (name, v))
            if v.sym is None:
                for x in list.__iter__(v):
                    walk(x, name)
        elif isinstance(v, tuple):
            for x in v:
                walk(x, name)
    for k, v in env.items():
        if not k.startswith("__pv"):
            walk(v, k)
    return out


class BufState:
    """The content of a buffer as a value (an anonymous array)."""

    def __init__(self, shape, fn, dtype):
        self.arr = new_array(shape, fn, dtype)


def buf_value(buf):
    return new_array(buf.shape, buf.fn, buf.dtype)


class Summary:
    """Closed forms of what one loop changes, as functions of the iteration count."""

    def __init__(self):
        self.vars = {}        # name -> ('opaque'|'closed', fn K-> value)
        self.objs = {}        # key -> same, in order of discovery: (kind, label)
        self.paths = []       # step results of the current round
        self.round = 0
        self.final = False
        self.tried = {}


class Loop:
    def __init__(self, it, site, names):
        self.names = names
        self.site = site
        self.symbolic = False
        self.it = it
        if isinstance(it, PList) and it.sym is not None:
            it = it.sym
        if isinstance(it, SArr) and it._shape and it._shape[0].op != "num":
            arr = it
            it = SSeq(arr._shape[0], lambda i: arr[i])
        if isinstance(it, _LazyIter):
            it = it.rest()
        if isinstance(it, SSeq):
            if it.n.op == "num":
                self.it = iter(it)
            else:
                self.symbolic = True
                self.seq = it
        self.values = {}
        self.live = True

    # the first iteration, separately (only when a variable is None at entry)

    def peel(self, env):
        return (self.site in cur().peel_sites
                or any(env.get(n, 0) is None for n in self.names)) and \
            not cur().decide(T.le(self.seq.n, T.num(0)))

    def first(self):
        self.live = False
        return [self.seq.get(T.num(0))]

    def advance(self):
        s = self.seq
        self.live = True
        self.seq = SSeq(N.canon(T.sub(s.n, T.num(1))),
                        lambda i: s.get(T.add(lift(i), T.num(1))))

    # called with the locals at loop entry
    def enter(self, env):
        v = cur()
        v.seq_no += 1
        self.key = (self.site, v.seq_no, v.pcids.get(tuple(n.id for n in v.pc)))
        self.entry = {n: env.get(n, UNBOUND) for n in self.names}
        if v.decide(T.le(self.seq.n, T.num(0))):
            # zero iterations
            self.zero = True
            self.values = dict(self.entry)
            return
        self.zero = False
        objs = heap_objects(env)
        self.objs = objs
        self.entry_obj = {}
        for k, (nm, o) in objs.items():
            self.entry_obj[k] = buf_value(o) if k[0] == "buf" else o.state()
        self.okeys = list(objs)
        info = v.loopinfo.get(self.key)
        # a summary is only good for the entry state it was made for
        state = []
        for n in self.names:
            value_terms(self.entry[n], state)
        for k in self.okeys:
            value_terms(self.entry_obj[k], state)
        state = [N.canon(t) if isinstance(t, T.Node) else t for t in state]
        if info is not None and info.state != state:
            K = info.K
            info = None
        else:
            K = None
        if info is None:
            info = v.loopinfo[self.key] = Summary()
            info.state = state
            info.K = K
            for n in self.names:
                info.vars[n] = None
            # hypothesis (checked at the end of every iteration): variables that hold
            # mutable objects are not rebound
            info.keep = {n for n in self.names if isinstance(self.entry[n], (SArr, PList))
                         or (isinstance(self.entry[n], tuple) and symbolic(self.entry[n]))}
        self.info = info
        self.step = v.choose("loop")
        if not self.step and not info.paths and not getattr(info, "seen", False):
            raise Unsupported("loop entry state differs between paths")
        info.seen = True
        if self.step:
            if not getattr(info, "open", False):
                info.open = True
                info.paths = []
            # one variable per loop and path, so that inner loops keep their summaries
            if getattr(info, "K", None) is None:
                info.K = T.fresh("it", "I")
            self.K = K = info.K
            v.samplers[K] = lambda r: r.randint(0, 4)
            v.push(T.le(T.num(0), K))
            v.push(T.lt(K, self.seq.n))
            self._install(K)
            v.loopstack.append(self)
        else:
            if getattr(info, "open", False):
                info.open = False
                self._analyse()
            self.K = self.seq.n
            self._install(self.seq.n)

    def _install(self, K):
        """Set variables and heap objects to their state after K iterations."""
        info = self.info
        self.opq = set()
        for n in self.names:
            cf = info.vars.get(n)
            if n in info.keep:
                self.values[n] = self.entry[n]
            elif cf is not None:
                self.values[n] = cf(K)
            elif n in info.tried:
                self.values[n] = self._opaque(self.entry[n], f"?{self.site}:{n}", K)
            else:
                # first round: variables bound before the loop are opaque
                self.values[n] = self._opaque(self.entry[n], f"?{self.site}:{n}", K)
        for j, k in enumerate(self.okeys):
            nm, o = self.objs[k]
            if j not in info.objs:
                continue        # assumed unmodified; checked at step end
            cf = info.objs[j]
            if cf is None:
                val = self._opaque(self.entry_obj[k], f"?{self.site}:{nm}@{j}", K)
            else:
                val = cf(K)
            if k[0] == "buf":
                o.fn = val.buf.fn
                o.version += 1
            else:
                o.set_state(val if isinstance(val, SSeq) else val.state())
        self.ver = {k: (o.version if k[0] == "buf" else (o.sym, list.__len__(o)
                                                         if o.sym is None else None))
                    for k, (nm, o) in self.objs.items()}
        self.start_obj = {k: (buf_value(o) if k[0] == "buf" else o.state())
                          for k, (nm, o) in self.objs.items()}

    def _opaque(self, val, name, K):
        self.opq.add(name)
        if val is UNBOUND or val is None or isinstance(val, (str, bytes)):
            return val
        return opaque_like(val, name, (K,))

    def get(self, n):
        return self.values[n]

    def do_step(self):
        return (not self.zero) and self.step

    def item(self):
        return self.seq.get(self.K)

    def broke(self):
        # a break: the loop is left with the state of a partial iteration
        v = cur()
        if v.loopstack and v.loopstack[-1] is self:
            v.loopstack.pop()
        if any(self.info.vars.get(n) is None and self._is_opaque(self.values[n])
               for n in self.names):
            self.info.needs = True

    def exit_(self):
        pass

    def _is_opaque(self, v):
        return v is not UNBOUND and any(_has_opaque(t) for t in value_terms(v, []))

    def step_end(self, env):
        v = cur()
        if v.loopstack and v.loopstack[-1] is self:
            v.loopstack.pop()
        info = self.info
        K = self.K
        for n in list(info.keep):
            if env.get(n, UNBOUND) is not self.entry[n]:
                info.keep.discard(n)
                raise Restart()
        for n in self.names:
            # the first iteration changes the rank (0.0 or zeros(()) + array): peel it
            e, p = self.entry[n], env.get(n, UNBOUND)
            if self.site not in v.peel_sites and isinstance(p, SArr) and p.ndim and (
                    is_scalar(e) or isinstance(e, SArr) and e.ndim != p.ndim):
                v.peel_sites.add(self.site)
                raise Restart()
        changed_obj = []
        for j, k in enumerate(self.okeys):
            nm, o = self.objs[k]
            now = o.version if k[0] == "buf" else (
                o.sym, list.__len__(o) if o.sym is None else None)
            if now != self.ver[k]:
                changed_obj.append(j)
                if j not in info.objs:
                    info.objs[j] = None
                    raise Restart()
        res = {"vars": {}, "objs": {}, "pc": list(v.pc), "K": K}
        for n in self.names:
            res["vars"][n] = env.get(n, UNBOUND)
        for j in info.objs:
            if j >= len(self.okeys):
                raise Unsupported("loop heap shape changed")
            k = self.okeys[j]
            nm, o = self.objs[k]
            res["objs"][j] = (self.start_obj[k],
                              buf_value(o) if k[0] == "buf" else o.state())
        # new heap objects escaping through locals are covered by 'vars'
        info.paths.append(res)
        fn = self.site.split(":")[1].split("#")[0]
        hook = v.step_check.get(fn) or v.step_check.get(fn.split(".")[-1])
        if hook is not None:
            # postcondition of one arbitrary iteration
            hook(v, self, env, {self.objs[self.okeys[j]][0]: (self.objs[self.okeys[j]][1], a, b)
                                for j, (a, b) in res["objs"].items()})
        self._check_closed(res)
        raise PathEnd()

    def _check_closed(self, res):
        """Consecution obligations for variables that already have closed forms."""
        v = cur()
        info = self.info
        K1 = T.add(self.K, T.num(1))
        for n, cf in info.vars.items():
            if cf is None or getattr(cf, "nocheck", False):
                continue
            prove_value_eq(v, f"loop {self.site}: {n} after the iteration", res["vars"][n],
                           cf(K1))
        for j, cf in info.objs.items():
            if cf is None or getattr(cf, "nocheck", False):
                continue
            prove_value_eq(v, f"loop {self.site}: object {self.objs[self.okeys[j]][0]} "
                              "after the iteration", res["objs"][j][1], cf(K1))

    # {{{ inference of closed forms

    def _analyse(self):
        v = cur()
        info = self.info
        pending = [("v", n) for n in self.names
                   if info.vars.get(n) is None and n not in info.keep] + \
                  [("o", j) for j in info.objs if info.objs[j] is None]
        if not pending:
            return
        if not info.paths:
            # every path leaves the loop early; nothing to summarise
            for kind, x in pending:
                pass
            return
        progress = False
        npc = len(v.pc)
        for kind, x in pending:
            if kind == "v":
                entry = self.entry[x]
                steps = [(p, self._pre(p, x), p["vars"][x]) for p in info.paths]
                label = f"?{self.site}:{x}"
            else:
                k = self.okeys[x]
                entry = self.entry_obj[k]
                steps = [(p, p["objs"][x][0], p["objs"][x][1]) for p in info.paths]
                label = f"?{self.site}:{self.objs[k][0]}@{x}"
            v.nofork = len(v.frames)
            try:
                cf = self._closed(kind, x, entry, steps, label, npc)
            finally:
                v.nofork = 0
            if cf is not None:
                if kind == "v":
                    info.vars[x] = cf
                else:
                    info.objs[x] = cf
                progress = True
        still = [("v", n) for n in self.names if info.vars.get(n) is None
                 and n not in info.keep and not self._dead(n)] + \
                [("o", j) for j in info.objs if info.objs[j] is None]
        if progress:
            info.round += 1
            raise Restart()
        if still:
            # the state after the loop is unconstrained (sound, imprecise)
            info.final = True

    def _dead(self, n):
        return False

    def _pre(self, p, n):
        return opaque_like(self.entry[n], f"?{self.site}:{n}", (p["K"],)) \
            if self.entry[n] is not UNBOUND else UNBOUND

    def _merge_paths(self, steps, npc):
        """[(path, pre, post)] -> (K, merged post value)"""
        K = steps[0][0]["K"]
        cases = []
        for p, pre, post in steps:
            m = {p["K"]: K}
            conds = [T.subst(c, m) for c in p["pc"][npc:]]
            # drop the two range facts of K (they hold for every iteration)
            conds = [c for c in conds if c not in (T.le(T.num(0), K), T.lt(K, self.seq.n))]
            cases.append((T.and_(*conds), post if p["K"] is K else value_subst(post, m)))
        if len(cases) == 1 or all(same_value(cases[0][1], p) for _, p in cases[1:]):
            return K, cases[0][1]
        for c, _ in cases:
            if _has_opaque(c):
                return K, None
        return K, merge_list(cases)

    def _closed(self, kind, x, entry, steps, label, npc):
        v = cur()
        if any(post is UNBOUND for _, _, post in steps):
            return None
        # unchanged?
        if entry is not UNBOUND and kind == "v":
            if all(same_value(pre, post) for _, pre, post in steps):
                e = entry
                return lambda K: e
        try:
            K, post = self._merge_paths(steps, npc)
        except Unsupported:
            return None
        if post is None:
            # paths that cannot be merged yet: only a hint of the contract helps
            return self._from_hints(entry, label, kind) if entry is not UNBOUND and (
                is_scalar(entry) or isinstance(entry, SArr)) else None
        n = len(v.pc)
        v.push(T.le(T.num(0), K))
        v.push(T.lt(K, self.seq.n))
        T.RANGES[K] = (T.num(0), self.seq.n)
        try:
            if not isinstance(post, SSeq) and _made_after(K, value_terms(post, [])):
                # depends on where an inner loop was left in this iteration
                return None
            cf = self._closed_form(kind, x, entry, K, post, label)
        except Unsupported:
            return None
        finally:
            del v.pc[n:]
            v._setkey()
        return cf

    def _closed_form(self, kind, x, entry, K, post, label):
        v = cur()
        terms = value_terms(post, []) if not isinstance(post, SSeq) else None
        if not isinstance(post, (SSeq,)):
            # last-assigned value
            if (isinstance(post, (SNum, SBool, SArr, tuple)) or is_scalar(post)
                    or is_record(post) and symbolic_record(post)) and \
                    not any(_has_opaque(t) for t in terms) and not (kind == "o"):
                e = entry

                def cf(Kn, post=post, K=K, e=e):
                    Kn = lift(Kn)
                    prev = T.sub(Kn, T.num(1))
                    val = lambda: value_subst(post, {K: N.canon(prev)})   # noqa: E731
                    if e is UNBOUND:
                        return val() if v.entails(T.lt(T.num(0), Kn)) else (
                            val() if Kn.op != "num" or Kn.args[0] > 0 else UNBOUND)
                    return _ite_value(T.le(Kn, T.num(0)), lambda: e, val)
                return cf
        if isinstance(post, (SNum,)) or (is_scalar(post) and not isinstance(post, bool)):
            if is_scalar(entry):
                cf = self._from_hints(entry, label, kind, step=(K, post), strict=True)
                if cf is not None:
                    return cf
                r = self._fold(lift_num(entry), K, lift_num(post), label, ())
                if r is not None:
                    return lambda Kn: wrap(r(lift(Kn), ()))
        if isinstance(post, SArr) and isinstance(entry, SArr) and post.ndim == entry.ndim:
            fr = tuple(T.var(f"?{k}", "I") for k in range(post.ndim))
            body = post.elem(fr)
            if isinstance(body, T.Node):
                es = snapshot(entry)
                r = self._fold_array(es, K, body, label, fr)
                if r is not None:
                    shp, dt = entry._shape, entry.dtype
                    return lambda Kn: new_array(shp, lambda idx: r(lift(Kn), idx), dt)
        if isinstance(post, SSeq):
            r = self._fold_list(entry, K, post, label)
            if r is not None:
                return r
        # hints supplied by the contract
        return self._from_hints(entry, label, kind, step=(K, post))

    def _fold(self, e0, K, post, label, fr):
        """post = pre + g(K) or pre * g(K)  with g free of loop state."""
        pre = [t for t in T.subterms(post) if t.op == "app" and t.args[0] == label]
        others = [t for t in T.subterms(post) if t.op == "app" and
                  str(t.args[0]).startswith("?") and t.args[0] != label]
        if others or len(pre) > 1:
            return None
        if not pre:
            return None
        p = pre[0]
        if p.args[1] is not K:
            return None
        u = T.fresh("u", p.sort)
        from .core import _replace
        body = _replace(post, {p: u})
        return fold_term(e0, K, body, u)

    def _fold_array(self, es, K, body, label, fr):
        others = [t for t in T.subterms(body) if t.op == "app" and
                  str(t.args[0]).startswith("?") and t.args[0] != label]
        if others:
            return None
        pre = [t for t in T.subterms(body) if t.op == "app" and t.args[0] == label]
        for p in pre:
            # reads of the array itself must be at the same place
            if p.args[1] is not K or tuple(p.args[2:]) != tuple(fr):
                return None
        from .core import _replace
        u = T.fresh("u", "R")
        b2 = _replace(body, {p: u for p in pre})
        # writes at positions determined by K:  ite(cond(fr, K), val(fr, K), u)
        w = map_write(K, self.seq.n, b2, u, fr)
        if w is not None:
            def cf(Kn, idx):
                m = dict(zip(fr, idx))
                return w(Kn, m, es(tuple(idx)))
            if getattr(w, "writes", 1) > 1:
                # only a guess
                idx = tuple(T.fresh("e", "I") for _ in fr)
                v, npc = cur(), len(cur().pc)
                for i in idx:
                    v.push(T.le(T.num(0), i))
                now = T.subst(T.subst(b2, dict(zip(fr, idx))), {u: cf(K, idx)})
                try:
                    if not v._eq_split(cf(T.add(K, T.num(1)), idx), now, 0)[0]:
                        return None
                finally:
                    del v.pc[npc:]
                    v._setkey()
            return cf
        r = fold_term(T.var("?e0", "R"), K, b2, u)
        if r is None:
            return None

        def cf2(Kn, idx):
            t = r(Kn, ())
            return T.subst(T.subst(t, {T.var("?e0", "R"): es(tuple(idx))}),
                           dict(zip(fr, idx)))
        return cf2

    def _fold_list(self, entry, K, post, label):
        """entry list extended by a fixed number of elements per iteration"""
        if not isinstance(entry, SSeq):
            return None
        # the opaque list has length  len0 + c*K  only if we know c; determine c first
        n0 = entry.n
        ln = post.n
        pre = T.app(label + "#len", K, sort="I")
        d = N.canon(T.sub(ln, pre))
        if d.op != "num":
            # second round: the length is already closed
            return self._from_hints(entry, label, "o", list_c=None)
        c = int(d.args[0])
        if c == 0:
            return None

        def new_elems(i):
            return [post.get(T.add(pre, T.num(j))) for j in range(c)]
        try:
            el = new_elems(0)
        except Unsupported:
            el = None
        if el is not None and not any(_has_opaque(t) for e in el for t in value_terms(e, [])):
            def cf(Kn):
                Kn = lift(Kn)

                def get(i):
                    i = lift(i)
                    off = T.sub(i, n0)
                    if c == 1 and T.is_num(n0, 0):
                        return value_subst(el[0], {K: i})
                    if c == 1:
                        return _ite_value(T.lt(i, n0), lambda: entry.get(i),
                                          lambda: value_subst(el[0], {K: N.canon(off)}))
                    q, r = T.idiv(off, T.num(c)), T.imod(off, T.num(c))
                    cases = [(T.eq(r, T.num(j)),
                              value_subst(el[j], {K: q})) for j in range(c)]
                    return _ite_value(T.lt(i, n0), lambda: entry.get(i),
                                      lambda: merge_list(cases))
                return SSeq(T.add(n0, T.mul(T.num(c), Kn)), get, list)
            return cf
        return self._from_hints(entry, label, "o", list_c=c)

    def _after_first(self, K, post):
        """value after the first iteration in terms of the entry values, if scalar"""
        if isinstance(post, (SSeq, SArr, tuple)) or not is_scalar(post):
            return None
        t = T.subst(lift(post), {K: T.num(0)})
        m = {}
        for n in self.names:
            e = self.entry.get(n, UNBOUND)
            if e is not UNBOUND and is_scalar(e):
                m[lift(opaque_like(e, f"?{self.site}:{n}", (T.num(0),)))] = lift(e)
        t = N.canon(T.subst(t, m))
        return None if _has_opaque(t) else wrap(t)

    def _from_hints(self, entry, label, kind, list_c=None, step=None, strict=False):
        """Candidates supplied by the contract, selected by their initial value (and, among
        several, by the value after the first iteration)."""
        v = cur()
        fn = self.site.split(":")[1].split("#")[0]
        hints = v.hint_fns.get(fn) or v.hint_fns.get(fn.split(".")[-1]) or []
        tried = self.info.tried.setdefault(label, set())
        if isinstance(entry, SSeq):
            c = list_c
            if c is None:
                return None
            for hi, h in enumerate(hints):
                for off in range(-1, 4):
                    if (hi, off) in tried:
                        continue
                    tried.add((hi, off))
                    if entry.n.op != "num":
                        continue
                    m = int(entry.n.args[0])
                    try:
                        good = all(values_equal(v, entry.get(T.num(j)), h(T.num(j + off)))
                                   for j in range(m)) and m > 0
                    except Unsupported:
                        good = False
                    if good:
                        n0 = entry.n
                        return lambda Kn, h=h, off=off: SSeq(
                            T.add(n0, T.mul(T.num(c), lift(Kn))),
                            lambda i: h(T.add(lift(i), T.num(off))), list)
            return None
        fallback, first = None, UNBOUND
        if strict:
            first = self._after_first(*step) if hints else None
            if first is None:
                return None
            tried = set(tried)
        for hi, h in enumerate(hints):
            for off in (0, 1, 2, 3, -1):
                if (hi, off) in tried:
                    continue
                tried.add((hi, off))
                try:
                    cand = h(T.num(off))
                    good = isinstance(cand, SArr) == isinstance(entry, SArr) and \
                        values_equal(v, entry, cand)
                except Unsupported:
                    good = False
                if not good:
                    continue
                cf = lambda Kn, h=h, off=off: h(T.add(lift(Kn), T.num(off)))   # noqa: E731
                if step is None:
                    return cf
                if first is UNBOUND:
                    first = self._after_first(*step)
                if first is None or values_equal(v, first, cf(T.num(1))):
                    return cf
                fallback = fallback or cf
        return None if strict else fallback

    # }}}


def _made_after(K, terms):
    """do the terms mention variables created after K (other than indices of iteration)?"""
    k = int(K.args[0].rsplit("!", 1)[1])
    return any(x.args[0].startswith("it!") and int(x.args[0][3:]) > k
               for t in terms for x in t.fv)


def fold_term(e0, K, body, u):
    """closed form of  s_{k+1} = body[u := s_k],  s_0 = e0 -> fn(Kn, _)"""
    from .core import _replace
    g = N.norm(body)
    lin, rest, bad = {}, {}, False
    for m, c in g.items():
        d = dict(m)
        if u in d:
            if d[u] != N.E1:
                return None
            lin[tuple((b, e) for b, e in m if b is not u)] = c
        else:
            rest[m] = c
    for m in list(lin) + list(rest):
        for b, e in m:
            if u in b.fv or any(u in bb.fv for mm, _ in e[1] for bb, _ in mm):
                return None
    if lin == {(): Fraction(1)}:
        gt = N.gp_term(rest)

        def cf(Kn, _):
            w = T.fresh("j", "I")
            T.RANGES[w] = (T.num(0), Kn)
            return T.add(e0, T.sum_(w, T.num(0), Kn, T.subst(gt, {K: w})))
        return cf
    if not rest and lin:
        gt = N.gp_term(lin)

        def cf(Kn, _):
            w = T.fresh("j", "I")
            T.RANGES[w] = (T.num(0), Kn)
            return T.mul(e0, T.prod_(w, T.num(0), Kn, T.subst(gt, {K: w})))
        return cf
    return None


def map_write(K, n, body, u, fr):
    """body = ite(c1, v1, ite(c2, v2, ... u)): a write at a place that determines K."""
    writes = []
    t = body
    if t.op == "ite" and K not in t.args[0].fv and u not in t.args[0].fv and \
            u in t.args[1].fv and u in t.args[2].fv:
        # a case distinction that does not depend on the iteration
        wa, wb = (map_write(K, n, x, u, fr) for x in t.args[1:])
        if wa is None or wb is None:
            return None
        return lambda Kn, m, old: T.ite(T.subst(t.args[0], m), wa(Kn, m, old),
                                        wb(Kn, m, old))
    def leaves(t, guard):
        if t is u:
            return True
        if u not in t.fv:
            writes.append((T.and_(*guard), t))
            return True
        if t.op != "ite" or u in t.args[0].fv:
            return False
        c, a, b = t.args
        return leaves(a, [*guard, c]) and leaves(b, [*guard, T.not_(c)])
    if not leaves(t, []):
        return None
    if len(writes) == 0:
        return lambda Kn, m, old: old
    # several writes: the candidate lets the last one in the body win at places that both
    # reach (checked like any other candidate: the consecution obligations)
    ws = [_one_write(K, c, val) for c, val in writes]
    if any(w is None for w in ws):
        return None

    def w_all(Kn, m, old):
        for w in reversed(ws):
            old = w(Kn, m, old)
        return old
    w_all.writes = len(writes)
    return w_all


def _one_write(K, c, val):
    conj = list(c.args) if c.op == "and" else [c]
    sol = None
    for q in conj:
        if q.op == "eq" and K in q.fv:
            g = N.norm(T.sub(q.args[0], q.args[1]))
            kk = ((K, N.E1),)
            if kk in g and abs(g[kk]) == 1 and \
                    all(K not in b.fv for m in g if m != kk for b, _ in m):
                coef = g[kk]
                rest = {m: -x / coef for m, x in g.items() if m != kk}
                sol = N.gp_term(rest)
                conj.remove(q)
                break
    if sol is None or sol.sort != "I":
        # a write independent of K at the same place every time: last value wins
        if K not in c.fv:
            def wl(Kn, m, old):
                vv = T.subst(val, {K: T.sub(Kn, T.num(1))})
                return T.ite(T.and_(T.lt(T.num(0), Kn), T.subst(c, m)), T.subst(vv, m), old)
            return wl
        return None
    if any(K in q.fv for q in conj):
        conj = [T.subst(q, {K: sol}) for q in conj]

    def w(Kn, m, old):
        s = T.subst(sol, m)
        cond = T.and_(T.le(T.num(0), s), T.lt(s, Kn),
                      *[T.subst(q, m) for q in conj])
        vv = T.subst(T.subst(val, {K: sol}), m)
        from .sym import _quick
        cond = _quick(cond)
        return T.ite(cond, vv, old)
    return w


def _has_opaque(t):
    for x in T.subterms(t):
        if x.op == "app" and str(x.args[0]).startswith("?"):
            return True
    return False


def opaque_like(val, name, extra):
    extra = tuple(extra)
    if isinstance(val, bool) or isinstance(val, SBool):
        return wrap(T.app(name, *extra, sort="B"))
    if isinstance(val, SArr):
        sort = "B" if val.dtype == B1 else "I" if val.dtype.kind in "iu" else "R"
        return new_array(val._shape, lambda idx: T.app(name, *extra, *idx, sort=sort),
                         val.dtype)
    if isinstance(val, (SNum, int, float, Fraction)):
        s = lift(val).sort
        return wrap(T.app(name, *extra, sort=s))
    if isinstance(val, tuple):
        return tuple(opaque_like(x, f"{name}.{i}", extra) for i, x in enumerate(val))
    if isinstance(val, PList):
        r = PList()
        r.set_state(opaque_like(val.state(), name, extra))
        return r
    if isinstance(val, SSeq):
        n = T.app(name + "#len", *extra, sort="I")
        if val.n.op == "num" and int(val.n.args[0]) == 0:
            def fn(i):
                raise Unsupported("read of an opaque list")
            return SSeq(n, fn, val.kind)
        tmpl = val.get(T.num(0))
        return SSeq(n, lambda i: opaque_like(tmpl, name, (*extra, lift(i))), val.kind)
    if is_record(val) and symbolic_record(val):
        return make_record(val, {k: opaque_like(x, f"{name}.{k}", extra)
                                 for k, x in record_items(val)})
    return val


def same_value(a, b):
    if a is b:
        return True
    if is_record(a) and type(a) is type(b):
        return all(same_value(x, y) for (_, x), (_, y) in zip(record_items(a), record_items(b)))
    if is_scalar(a) and is_scalar(b):
        try:
            return N.equal(lift(a), lift(b))
        except Unsupported:
            return False
    if isinstance(a, SArr) and isinstance(b, SArr) and a.ndim == b.ndim:
        fr = tuple(T.var(f"?{k}", "I") for k in range(a.ndim))
        x, y = a.elem(fr), b.elem(fr)
        return all(p is q for p, q in zip(a._shape, b._shape)) and (
            x is y or (isinstance(x, T.Node) and N.equal(x, y)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, T.Node) and isinstance(b, T.Node):
        return N.equal(a, b)
    p, q = fn_parts(a), fn_parts(b)
    if p is not None and q is not None:
        mine = stub_function(a)
        return p[0] == q[0] and len(p[1]) == len(q[1]) and all(
            same_value(x, y) or mine and not value_terms(x, []) and not value_terms(y, [])
            for x, y in zip(p[1], q[1]))
    return False


def values_equal(v, a, b):
    """Silent provable equality (no obligation recorded)."""
    if is_scalar(a) and is_scalar(b):
        ok, _ = v._eq_split(lift(a), lift(b), 0)
        return ok
    if isinstance(b, SArr) and is_scalar(a):
        a = broadcast_to(a, b.shape)
    if isinstance(a, SArr) and isinstance(b, SArr) and a.ndim == b.ndim:
        for p, q in zip(a._shape, b._shape):
            if p is not q and not v.entails(T.eq(p, q)):
                return False
        idx = tuple(T.fresh("e", "I") for _ in range(a.ndim))
        for i, s in zip(idx, a._shape):
            T.RANGES[i] = (T.num(0), s)
        x, y = a.elem(idx), b.elem(idx)
        return v._eq_split(x, y, 0)[0]
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(values_equal(v, x, y) for x, y in zip(a, b))
    return a is b


def prove_value_eq(v, name, a, b):
    if a is UNBOUND and b is UNBOUND:
        return True
    if a is UNBOUND or b is UNBOUND:
        return v._record(name, "unknown", "loop", "unbound variable")
    if is_scalar(a) and is_scalar(b):
        return v.prove_eq(name, a, b)
    if isinstance(a, SArr) and isinstance(b, SArr):
        fb = snapshot(b)
        return v.prove_array(name, a, b.shape, lambda *i: wrap(fb(tuple(lift(x) for x in i))))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all([prove_value_eq(v, f"{name}.{k}", x, y)
                    for k, (x, y) in enumerate(zip(a, b))])
    if isinstance(a, PList):
        a = a.state()
    if isinstance(b, PList):
        b = b.state()
    if isinstance(a, SSeq) and isinstance(b, SSeq):
        if not v.prove_eq(f"{name}: length", wrap(a.n), wrap(b.n)):
            return False
        i = T.fresh("i", "I")
        T.RANGES[i] = (T.num(0), b.n)
        n = len(v.pc)
        v.push(T.le(T.num(0), i))
        v.push(T.lt(i, b.n))
        v.samplers[i] = lambda r: r.randint(0, 4)
        try:
            return prove_value_eq(v, f"{name}: element", a.get(i), b.get(i))
        finally:
            del v.pc[n:]
            v._setkey()
            v.samplers.pop(i, None)
    if a is b:
        return True
    p, q = fn_parts(a), fn_parts(b)
    if p is not None and q is not None and p[0] == q[0] and len(p[1]) == len(q[1]):
        # the contracts' own functions are made anew on every path
        mine = stub_function(a)
        return all([prove_value_eq(v, f"{name}({k})", x, y)
                    for k, (x, y) in enumerate(zip(p[1], q[1]))
                    if not (mine and not value_terms(x, []) and not value_terms(y, []))])
    if type(a) is list and type(b) is list and len(a) == len(b):
        return all([prove_value_eq(v, f"{name}[{k}]", x, y)
                    for k, (x, y) in enumerate(zip(a, b))])
    if p is None and type(a) is type(b) and a == b:
        return True
    if isinstance(a, T.Node) and isinstance(b, T.Node):
        return v.prove_eq(name, wrap(a), wrap(b))
    return v._record(name, "unknown", "loop", f"cannot compare {type(a).__name__}")


class _LazyIter:
    """next()-able iterator over a symbolic sequence"""

    def __init__(self, seq):
        self.seq = seq
        self.pos = T.num(0)

    def next(self, *default):
        if cur().decide(T.lt(self.pos, self.seq.n)):
            r = self.seq.get(self.pos)
            self.pos = T.add(self.pos, T.num(1))
            return r
        if default:
            return default[0]
        raise StopIteration

    def rest(self):
        p = self.pos
        s = self.seq
        n = T.sub(s.n, p)
        if n.op != "num" and not cur().entails(T.le(T.num(0), n)):
            n = T.ite(T.le(T.num(0), n), n, T.num(0))
        return SSeq(N.canon(n) if n.op != "ite" else n, lambda i: s.get(T.add(lift(i), p)))

    def __iter__(self):
        return iter(self.rest())

# }}}


# {{{ the __pv object

def _to_seq(x):
    """A symbolic-length view of an iterable, or None if it is concrete."""
    if isinstance(x, PList) and x.sym is not None:
        x = x.sym
    if isinstance(x, _LazyIter):
        return x.rest()
    if isinstance(x, SSeq):
        return x if x.n.op != "num" else None
    if isinstance(x, SArr) and x._shape and x._shape[0].op != "num":
        return SSeq(x._shape[0], lambda i: x[InRange(i)])
    return None


class PV:
    ONCE = (None,)
    Restart = Restart

    @staticmethod
    def flt(s):
        if "inf" in s or "nan" in s:
            return float(s)
        f = Fraction(s)
        return SNum(T.num(f, "R"))

    @staticmethod
    def div(a, b):
        if isinstance(a, (SArr, SNum)) or isinstance(b, (SArr, SNum)):
            return a / b
        if isinstance(a, (_np.ndarray,)) and a.ndim:
            return asarr(a) / b
        if isinstance(b, (_np.ndarray,)) and b.ndim:
            return a / asarr(b)
        if isinstance(a, (int, float, Fraction, _np.number)) and \
                isinstance(b, (int, float, Fraction, _np.number)):
            if b == 0:
                if cur_or_none() is not None and cur().np_div:
                    return SNum(T.app("divzero", lift(a)))
                raise ZeroDivisionError("division by zero")
            if any(isinstance(z, float) and _math.isinf(z) for z in (a, b)):
                return a / b
            return SNum(T.div(lift(a), lift(b)))
        return a / b

    @staticmethod
    def pow(a, b):
        if isinstance(a, int) and isinstance(b, int):
            if b >= 0:
                return a ** b
            return SNum(T.pow_(T.num(a), T.num(b)))
        if isinstance(a, (SArr, SNum)) or isinstance(b, (SArr, SNum)):
            return a ** b
        if isinstance(a, _np.ndarray) and a.ndim:
            return asarr(a) ** b
        return a ** b

    @staticmethod
    def idiv(a, b):
        if isinstance(a, SArr):
            a /= b
            return a
        return PV.div(a, b)

    @staticmethod
    def ipow(a, b):
        if isinstance(a, SArr):
            return a._inplace(b, SArr.__pow__, "power")
        return PV.pow(a, b)

    @staticmethod
    def matmul(a, b):
        if isinstance(a, SArr) or isinstance(b, SArr) or isinstance(a, _np.ndarray):
            return matmul(a, b)
        return a @ b

    @staticmethod
    def mklist(x):
        return PList(x)

    @staticmethod
    def unpack(x, shape):
        out = []

        def rec(v, s):
            if s is None:
                out.append(v)
                return
            vs = list(v)
            if len(vs) != len(s):
                raise ValueError("not enough/too many values to unpack")
            for y, t in zip(vs, s):
                rec(y, t)
        rec(x, shape)
        return tuple(out)

    @staticmethod
    def comp(kind, it, elt, conds, native):
        seq = _to_seq(it)
        if seq is None:
            if isinstance(it, PList):
                it = list(it)
            r = native(it)
            return PList(r) if kind == "list" else r
        if conds:
            raise Unsupported("filtered comprehension over a symbolic sequence")
        if kind in ("list", "gen"):
            ctx = cur().merge_context()

            def get(i):
                v = cur()
                x = seq.get(i)
                # elements are only evaluated for valid indices, those of enclosing
                # comprehensions included
                j = lift(i)
                rng = T.and_(T.le(T.num(0), j), T.lt(j, seq.n), *ctx)
                if v.entails(rng) or v.entails(T.not_(rng)):
                    rng = None
                cases = v.merge_eval(lambda: elt(x), extra=rng)
                if len(cases) == 1:
                    return cases[0][1]
                return merge_list(cases)
            r = SSeq(seq.n, get, list if kind == "list" else tuple)
            if kind == "list":
                p = PList()
                p.set_state(r)
                return p
            return r
        if kind == "dict":
            return SDict(seq, elt)
        raise Unsupported(f"{kind} comprehension over a symbolic sequence")

    @staticmethod
    def loop_begin(it, site, names):
        return Loop(it, site, names)

    @staticmethod
    def while_begin(site, names):
        return WhileLoop(site, names)

    @staticmethod
    def count_exit(i, hi, down):
        """the counter after  while i < hi: ...; i += 1  (or while i > hi: ...; i -= 1)"""
        if not symbolic(i) and not symbolic(hi):
            return min(i, hi) if down else max(i, hi)
        i, hi = lift(i), lift(hi)
        c = T.le(hi, i) if down else T.le(i, hi)
        if cur().decide(c):
            return wrap(hi)
        return wrap(i)

    @staticmethod
    def while_tick(site):
        v = CUR[0]
        if v is None:
            return
        v.callcount[site] = v.callcount.get(site, 0) + 1
        if v.callcount[site] > 400:
            raise Unsupported(f"while loop {site} not bounded")

    # calls of builtin types
    @staticmethod
    def call_tuple(*a):
        if a:
            s = _to_seq(a[0])
            if s is not None:
                return SSeq(s.n, s.get, tuple)
            if isinstance(a[0], SArr):
                return tuple(iter(a[0]))
            if isinstance(a[0], PList):
                return tuple(a[0].concrete())
        return tuple(*a)

    @staticmethod
    def call_list(*a):
        if a:
            s = _to_seq(a[0])
            if s is not None:
                p = PList()
                p.set_state(SSeq(s.n, s.get, list))
                return p
        return PList(*a)

    @staticmethod
    def call_int(x=0, *a):
        if isinstance(x, SNum):
            if x.t.sort == "I":
                return x
            if x.t.op == "num":
                return int(x.t.args[0])
            return wrap(T.app("trunc", x.t, sort="I"))
        if isinstance(x, SBool):
            return SNum(T.ite(x.t, T.num(1), T.num(0)))
        if isinstance(x, SArr):
            return PV.call_int(x.item())
        return int(x, *a)

    @staticmethod
    def call_float(x=0):
        if isinstance(x, SNum):
            return x if x.t.sort == "R" else SNum(x.t if x.t.op != "num" else
                                                  T.num(x.t.args[0], "R"))
        if isinstance(x, SArr):
            return PV.call_float(x.item())
        if isinstance(x, str):
            return float(x) if "inf" in x.lower() or "nan" in x.lower() else PV.flt(x)
        x = float(x)
        if _math.isinf(x) or _math.isnan(x):
            return x
        return SNum(lift(x)) if lift(x).sort == "R" else SNum(T.num(Fraction(repr(x)), "R"))

    @staticmethod
    def call_bool(x=False):
        return bool(x)

    @staticmethod
    def call_dict(*a, **k):
        if len(a) == 1 and not k and not isinstance(a[0], dict):
            s = _to_seq(a[0])
            if s is not None:
                return SDict(s, lambda x: x)
        return dict(*a, **k)

    @staticmethod
    def call_set(*a):
        return set(*a)

    @staticmethod
    def call_frozenset(*a):
        return frozenset(*a)


class SDict:
    """{key(i): value(i) for i < n} with pairwise distinct keys (an obligation)."""

    def __init__(self, seq, elt):
        self.seq = seq
        self.elt = elt
        v = cur()
        if not getattr(v, "lookup_ok", False):
            return
        # contract of a dictionary whose keys are distinct and contain every key looked up
        # (assumed by the harness): the position is a function of the key, and has this key
        k = v.callcount["sdict"] = v.callcount.get("sdict", 0) + 1
        self.name = f"lookup{k}"

        def facts(*ks):
            j = T.app(self.name, *ks, sort="I")
            kj = elt(seq.get(j))[0]
            kj = kj if isinstance(kj, tuple) else (kj,)
            return [T.le(T.num(0), j), T.lt(j, seq.n),
                    *[T.eq(lift(a), b) for a, b in zip(kj, ks)]]
        v.axiom(self.name, facts)

    def __getitem__(self, key):
        rule = getattr(cur(), "dict_rule", None)
        if rule is not None:
            return rule(self, key)
        if not getattr(cur(), "lookup_ok", False):
            raise Unsupported("lookup in a symbolic dictionary")
        ks = key if isinstance(key, tuple) else (key,)
        # a key that is visibly the i-th one (keys are distinct) is found at i
        u = T.fresh("u", "I")
        kj = self.elt(self.seq.get(u))[0]
        kj = kj if isinstance(kj, tuple) else (kj,)
        if len(kj) == len(ks):
            for p, q in zip(kj, ks):
                p, q = lift(p), lift(q)
                at = None
                if p.op == q.op == "app" and p.args[0] == q.args[0] and \
                        len(p.args) == len(q.args):
                    at = next((y for x, y in zip(p.args[1:], q.args[1:]) if x is u), None)
                if at is not None:
                    if all(N.canon(T.subst(lift(a), {u: at})) is N.canon(lift(b))
                           for a, b in zip(kj, ks)) and cur().entails(
                               T.and_(T.le(T.num(0), at), T.lt(at, self.seq.n))):
                        return self.elt(self.seq.get(at))[1]
                    break
        return self.elt(self.seq.get(T.app(self.name, *[lift(x) for x in ks], sort="I")))[1]

# }}}


# {{{ builtins

def b_len(x):
    if isinstance(x, (SArr, SSeq, PList)):
        return x.len_()
    if isinstance(x, _LazyIter):
        raise TypeError("object of type 'iterator' has no len()")
    r = type(x).__len__(x) if not isinstance(x, type) and hasattr(type(x), "__len__") else None
    if isinstance(r, SNum):
        return r
    return _b.len(x)


def b_range(*a):
    if not any(isinstance(x, SNum) for x in a):
        return _b.range(*a)
    if len(a) == 1:
        return SRange(0, a[0])
    if len(a) == 2:
        return SRange(a[0], a[1])
    lo, hi, st = a
    if isinstance(st, SNum):
        raise Unsupported("range with a symbolic step")
    if st == 1:
        return SRange(lo, hi)
    if st == -1:
        r = SRange(T.add(lift(hi), T.num(1)), T.add(lift(lo), T.num(1)))
        return SSeq(r.n, lambda i: r.get(T.sub(T.sub(r.n, T.num(1)), lift(i))))
    d = T.sub(lift(hi), lift(lo)) if st > 0 else T.sub(lift(lo), lift(hi))
    n = T.idiv(T.add(d, T.num(abs(st) - 1)), T.num(abs(st)))
    if not cur().decide(T.le(T.num(0), n)):
        n = T.num(0)
    return SSeq(n, lambda i: wrap(T.add(lift(lo), T.mul(T.num(st), lift(i)))))


def b_enumerate(x, start=0):
    s = _to_seq(x)
    if s is None:
        return _b.enumerate(x, start)
    return SSeq(s.n, lambda i: (wrap(T.add(lift(start), lift(i))), s.get(lift(i))))


def b_zip(*xs, strict=False):
    ss = [_to_seq(x) for x in xs]
    if all(s is None for s in ss):
        return _b.zip(*xs, strict=strict)
    out = []
    n = None
    for x, s in zip(xs, ss):
        if s is None:
            items = list(x)
            from .sym import _pick
            s = SSeq(len(items), _pick(items))
        out.append(s)
    n = out[0].n
    for s in out[1:]:
        if s.n is n:
            continue
        if not cur().decide(T.eq(s.n, n)):
            if strict:
                raise ValueError("zip() arguments have different lengths")
            if cur().decide(T.lt(s.n, n)):
                n = s.n
    return SSeq(n, lambda i: tuple(s.get(lift(i)) for s in out))


def b_map(f, *xs):
    ss = [_to_seq(x) for x in xs]
    if all(s is None for s in ss):
        return _b.map(f, *xs)
    z = b_zip(*xs)
    return SSeq(z.n, lambda i: f(*z.get(lift(i))))


def b_reversed(x):
    s = _to_seq(x)
    if s is None:
        return _b.reversed(x if not isinstance(x, PList) else list(x))
    return SSeq(s.n, lambda i: s.get(T.sub(T.sub(s.n, T.num(1)), lift(i))))


def b_sum(x, start=0):
    s = _to_seq(x)
    if s is None:
        r = start
        for y in x:
            r = r + y
        return r
    probe = s.get(T.fresh("p", "I"))
    if is_scalar(probe):
        return start + wrap(_sum_over(s.n, lambda i: lift_num(s.get(i))))
    if isinstance(probe, SArr):
        r = np_sum(SSeq_arr(s), axis=0)
        return start + r
    raise Unsupported("sum of a symbolic sequence")


def SSeq_arr(s):
    return asarr(s)


def b_prod_like(x, start=1):
    s = _to_seq(x)
    if s is None:
        r = start
        for y in x:
            r = r * y
        return r
    return start * wrap(_prod_over(s.n, lambda i: lift_num(s.get(i))))


def _minmax(args, ismax, kw):
    key = kw.get("key")
    if len(args) == 1:
        xs = args[0]
        if _to_seq(xs) is not None and key is None:
            seq = _to_seq(xs)
            from .sym import np_minmax
            return np_minmax(SSeq_arr(seq), None, ismax)
        if _to_seq(xs) is not None:
            raise Unsupported("min/max over a symbolic sequence")
        xs = list(xs)
    else:
        xs = list(args)
    if key is not None or not any(isinstance(x, SNum) for x in xs) or not all(
            is_scalar(x) for x in xs):
        return (_b.max if ismax else _b.min)(xs, **kw)
    r = lift(xs[0])
    for x in xs[1:]:
        x = lift(x)
        c = T.lt(r, x) if ismax else T.lt(x, r)
        from .sym import _quick
        r = T.ite(_quick(c), x, r)
    return wrap(r)


def b_max(*a, **kw):
    return _minmax(a, True, kw)


def b_min(*a, **kw):
    return _minmax(a, False, kw)


def b_isinstance(x, cls):
    if isinstance(cls, types.UnionType):
        cls = cls.__args__
    if isinstance(cls, tuple):
        return any(b_isinstance(x, c) for c in cls)
    if isinstance(x, SArr):
        return cls in (_np.ndarray, object) or _b.isinstance(x, cls)
    if isinstance(x, SNum):
        if cls in (numbers.Number, numbers.Complex, numbers.Real, object):
            return True
        if cls in (int, _np.integer, numbers.Integral, numbers.Rational):
            return x.t.sort == "I"
        if cls in (float, _np.floating):
            return x.t.sort == "R"
        return _b.isinstance(x, cls)
    if isinstance(x, SBool):
        return cls is bool or _b.isinstance(x, cls)
    if isinstance(x, SSeq):
        return cls is x.kind or cls is object or _b.isinstance(x, cls)
    return _b.isinstance(x, cls)


def b_all(x):
    s = _to_seq(x)
    if s is None:
        return _b.all(x)
    k = T.fresh("k", "I")
    T.RANGES[k] = (T.num(0), s.n)
    body = lift_bool(s.get(k))
    if cur().entails(body):
        return True
    if k not in body.fv:
        return bool(wrap(T.or_(T.le(s.n, T.num(0)), body)))
    return bool(wrap(T.binder("all", k, T.num(0), s.n, body)))


def b_any(x):
    s = _to_seq(x)
    if s is None:
        return _b.any(x)
    k = T.fresh("k", "I")
    T.RANGES[k] = (T.num(0), s.n)
    body = T.not_(lift_bool(s.get(k)))
    if cur().entails(body):
        return False
    return not bool(wrap(T.binder("all", k, T.num(0), s.n, body)))


def b_iter(x, *a):
    s = _to_seq(x)
    if s is None:
        return _b.iter(x, *a)
    return _LazyIter(s)


def b_next(x, *d):
    if isinstance(x, _LazyIter):
        return x.next(*d)
    return _b.next(x, *d)


def b_abs(x):
    return abs(x)


def b_sorted(x, **kw):
    if _to_seq(x) is not None:
        raise Unsupported("sorted() of a symbolic sequence")
    return PList(_b.sorted(x, **kw))


def b_divmod(a, b):
    return a // b, a % b


def b_round(x, *a):
    if isinstance(x, SNum):
        raise Unsupported("round")
    return _b.round(x, *a)


BUILTINS = {
    "len": b_len, "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "map": b_map,
    "reversed": b_reversed, "sum": b_sum, "max": b_max, "min": b_min,
    "isinstance": b_isinstance, "all": b_all, "any": b_any, "iter": b_iter, "next": b_next,
    "sorted": b_sorted, "divmod": b_divmod, "round": b_round,
}

# }}}


# {{{ math

def m_sqrt(x):
    t = lift(x)
    if t.op == "num":
        if t.args[0] < 0:
            raise ValueError("math domain error")
    elif not cur().decide(T.le(T.num(0), t)):
        raise ValueError("math domain error")
    return SNum(T.sqrt(t))


def m_gamma(x):
    t = lift(x)
    if t.op == "num" and t.args[0].denominator == 1:
        k = int(t.args[0])
        if k <= 0:
            raise ValueError("math domain error")
        return SNum(T.num(_math.factorial(k - 1), "R"))
    return SNum(T.app("gamma", t))


def m_factorial(n):
    if isinstance(n, int):
        return _math.factorial(n)
    t = lift(n)
    if t.sort != "I":
        raise TypeError("factorial of a non-integer")
    if not cur().decide(T.le(T.num(0), t)):
        raise ValueError("factorial() not defined for negative values")
    return SNum(T.app("gamma", T.add(t, T.num(1))))


def m_comb(n, k):
    if isinstance(n, int) and isinstance(k, int):
        return _math.comb(n, k)
    if isinstance(k, int):
        r = SNum(T.num(1))
        for j in range(k):
            r = r * (n - j)
        return r / _math.factorial(k)
    return m_factorial(n) / (m_factorial(k) * m_factorial(n - k))


def m_prod(xs, start=1):
    return b_prod_like(xs, start)


def _nonfinite(kind, x):
    """numbers are real, hence finite, unless the harness asks for these cases too"""
    if getattr(cur(), "nonfinite", None) is None:
        return kind == "isfinite"
    if isinstance(cur().nonfinite, list):
        cur().nonfinite.append(lift(x))
    nan, inf = (T.app(k, lift(x), sort="B") for k in ("isnan", "isinf"))
    return wrap({"isnan": nan, "isinf": inf, "isfinite": T.not_(T.or_(nan, inf))}[kind])


def _mfun(name, conc):
    def f(x):
        t = lift(x)
        return SNum(fn_term(name, t))
    return f


def fn_term(name, t):
    if name == "exp" and T.is_num(t, 0):
        return T.num(1, "R")
    if name in ("sin", "sinh", "tan", "asin", "atan", "tanh") and T.is_num(t, 0):
        return T.num(0, "R")
    if name in ("cos", "cosh") and T.is_num(t, 0):
        return T.num(1, "R")
    if name == "log" and T.is_num(t, 1):
        return T.num(0, "R")
    if name in ODD and N.leading_negative(t):
        return T.neg(T.app(name, N.canon(T.neg(t))))
    return T.app(name, t)


#: odd functions: a leading minus sign of the argument is moved outside
ODD = ("sin", "sinh", "tan", "asin", "atan", "tanh", "atanh")


class MathShim:
    pi = SNum(T.app("pi"))
    e = SNum(T.app("e"))
    inf = _math.inf
    nan = _math.nan
    sqrt = staticmethod(m_sqrt)
    gamma = staticmethod(m_gamma)
    factorial = staticmethod(m_factorial)
    comb = staticmethod(m_comb)
    prod = staticmethod(m_prod)
    exp = staticmethod(_mfun("exp", _math.exp))
    log = staticmethod(_mfun("log", _math.log))
    sin = staticmethod(_mfun("sin", _math.sin))
    cos = staticmethod(_mfun("cos", _math.cos))
    tan = staticmethod(_mfun("tan", _math.tan))
    asin = staticmethod(_mfun("asin", _math.asin))
    acos = staticmethod(_mfun("acos", _math.acos))
    atan = staticmethod(_mfun("atan", _math.atan))

    @staticmethod
    def isinf(x):
        if isinstance(x, SNum):
            return _nonfinite("isinf", x)
        return _math.isinf(x)

    @staticmethod
    def isfinite(x):
        if isinstance(x, SNum):
            return _nonfinite("isfinite", x)
        return _math.isfinite(x)

    @staticmethod
    def isnan(x):
        if isinstance(x, SNum):
            return _nonfinite("isnan", x)
        return _math.isnan(x)

    @staticmethod
    def gcd(*a):
        return _math.gcd(*a)

    @staticmethod
    def floor(x):
        if isinstance(x, SNum):
            return wrap(T.app("floor", x.t, sort="I")) if x.t.sort == "R" else x
        return _math.floor(x)

    @staticmethod
    def ceil(x):
        if isinstance(x, SNum):
            return -MathShim.floor(-x)
        return _math.ceil(x)

    def __getattr__(self, name):
        f = getattr(_math, name)

        def g(*a, **k):
            if any(symbolic(x) for x in a):
                raise Unsupported(f"math.{name} on symbolic values")
            return f(*a, **k)
        return g

# }}}


# {{{ numpy

class NpShim:
    """numpy as seen by rewritten modules."""

    ndarray = _np.ndarray
    newaxis = None
    pi = SNum(T.app("pi"))
    inf = _np.inf
    nan = _np.nan
    for _n in ("float64", "float32", "int64", "int32", "intp", "integer", "floating",
               "number", "dtype", "generic", "bool_", "complex128", "object_", "inexact",
               "finfo", "complexfloating", "iinfo", "ndindex", "bool"):
        locals()[_n] = getattr(_np, _n)
    del _n

    def __init__(self):
        self.linalg = LaShim()

    class errstate:
        """numpy scalars divide by zero without raising (the value is then arbitrary)"""

        def __init__(self, **kw):
            self.cm = _np.errstate(**kw)

        def __enter__(self):
            v = cur_or_none()
            if v is not None:
                v.np_div += 1
            return self.cm.__enter__()

        def __exit__(self, *a):
            v = cur_or_none()
            if v is not None:
                v.np_div -= 1
            return self.cm.__exit__(*a)

    @staticmethod
    def array(x, dtype=None, copy=True, order=None, ndmin=0):
        if isinstance(x, PList) and x.sym is not None:
            x = x.sym
        return asarr(x, dtype).copy() if _shareable(x) else asarr(x, dtype)

    @staticmethod
    def asarray(x, dtype=None, order=None):
        if isinstance(x, PList) and x.sym is not None:
            x = x.sym
        return asarr(x, dtype)

    asanyarray = asarray
    ascontiguousarray = asarray

    @staticmethod
    def empty(shape, dtype=None, order=None):
        shape = _shape(shape)
        cc = cur().callcount
        nm = f"uninit{cc.get('empty', 0)}"
        cc["empty"] = cc.get("empty", 0) + 1
        dt = F8 if dtype is SNum else _np.dtype(dtype or "float64")
        if dt == OBJ:
            return new_array(shape, lambda idx: None, dt)
        sort = "B" if dt == B1 else "I" if dt.kind in "iu" else "R"
        return new_array(shape, lambda idx: T.app(nm, *idx, sort=sort), dt)

    @staticmethod
    def empty_like(x, dtype=None):
        x = asarr(x)
        return NpShim.empty(x.shape, dtype or x.dtype)

    @staticmethod
    def zeros(shape, dtype=None, order=None):
        return NpShim.full(shape, 0, F8 if dtype is SNum else dtype or F8)

    @staticmethod
    def ones(shape, dtype=None, order=None):
        return NpShim.full(shape, 1, F8 if dtype is SNum else dtype or F8)

    @staticmethod
    def full(shape, v, dtype=None):
        shape = _shape(shape)
        t = lift(v)
        dt = _np.dtype(dtype) if dtype is not None else (I8 if t.sort == "I" else F8)
        t = coerce(t, dt)
        if dt.kind == "f" and t.op == "num":
            t = T.num(t.args[0], "R")
        return new_array(shape, lambda idx: t, dt)

    @staticmethod
    def zeros_like(x, dtype=None):
        x = asarr(x)
        return NpShim.zeros(x.shape, dtype or x.dtype)

    @staticmethod
    def ones_like(x, dtype=None):
        x = asarr(x)
        return NpShim.ones(x.shape, dtype or x.dtype)

    @staticmethod
    def full_like(x, v, dtype=None):
        x = asarr(x)
        return NpShim.full(x.shape, v, dtype or x.dtype)

    @staticmethod
    def eye(n, m=None, k=0, dtype=None):
        m = n if m is None else m
        return new_array((lift(n), lift(m)), lambda idx: T.to_real(
            _delta(T.add(idx[0], T.num(k)), idx[1])), _np.dtype(dtype or "float64"))

    @staticmethod
    def _tri(x, keep):
        x = asarr(x)
        if x.ndim != 2:
            raise Unsupported("triangle of an array that is not two-dimensional")
        s = snapshot(x)
        return new_array(x._shape, lambda i: T.ite(keep(*i), elemnum(s(i)), T.num(0)), x.dtype)

    @staticmethod
    def triu(x, k=0):
        return NpShim._tri(x, lambda i, j: T.le(T.add(i, lift(k)), j))

    @staticmethod
    def tril(x, k=0):
        return NpShim._tri(x, lambda i, j: T.le(j, T.add(i, lift(k))))

    @staticmethod
    def identity(n, dtype=None):
        return NpShim.eye(n, dtype=dtype)

    @staticmethod
    def diag(x, k=0):
        x = asarr(x)
        s = snapshot(x)
        if x.ndim == 1:
            if k == 0:
                n = x._shape[0]
                return new_array((n, n), lambda i: T.mul(_delta(i[0], i[1]), s((i[0],))),
                                 x.dtype)
            n = T.add(x._shape[0], T.num(abs(k)))

            def fn(i):
                r, c = i
                if k > 0:
                    return T.ite(T.eq(T.add(r, T.num(k)), c), s((r,)), T.num(0))
                return T.ite(T.eq(r, T.add(c, T.num(-k))), s((c,)), T.num(0))
            return new_array((n, n), fn, x.dtype)
        if k == 0:
            n, m = x._shape
            d = n if n is m or cur().decide(T.le(n, m)) else m
            return new_array((d,), lambda i: s((i[0], i[0])), x.dtype)
        raise Unsupported("diag(k)")

    @staticmethod
    def arange(*a, dtype=None):
        if len(a) == 1:
            lo, hi, st = 0, a[0], 1
        elif len(a) == 2:
            lo, hi, st = a[0], a[1], 1
        else:
            lo, hi, st = a
        lo, hi, st = lift(lo), lift(hi), lift(st)
        if "R" in (lo.sort, hi.sort, st.sort) and not (
                lo.op == "num" and lo.args[0].denominator == 1
                and st.op == "num" and st.args[0].denominator == 1 and hi.sort == "I"):
            raise Unsupported("arange of non-integers")
        if st.op != "num" or st.args[0] == 0:
            raise Unsupported("arange with symbolic step")
        s = int(st.args[0])
        d = T.sub(hi, lo) if s > 0 else T.sub(lo, hi)
        n = d if abs(s) == 1 else T.idiv(T.add(d, T.num(abs(s) - 1)), T.num(abs(s)))
        if n.op == "num":
            n = T.num(max(0, int(n.args[0])))
        elif not cur().decide(T.le(T.num(0), n)):
            n = T.num(0)
        dt = _np.dtype(dtype) if dtype else (
            F8 if "R" in (lo.sort, st.sort) else I8)
        return new_array((N.canon(n),), lambda i: T.add(lo, T.mul(T.num(s), i[0])), dt)

    @staticmethod
    def linspace(a, b, num=50, endpoint=True, dtype=None):
        n = lift(num)
        a, b = lift(a), lift(b)
        d = T.sub(n, T.num(1)) if endpoint else n
        if not cur().entails(T.le(T.num(2), n)) and not cur().decide(T.le(T.num(2), n)):
            return new_array((n,), lambda i: a, F8)
        return new_array((n,), lambda i: T.add(a, T.div(T.mul(i[0], T.sub(b, a)), d)), F8)

    @staticmethod
    def dot(a, b):
        return matmul(a, b, dot=True)

    @staticmethod
    def matmul(a, b):
        return matmul(a, b)

    @staticmethod
    def vdot(a, b):
        return matmul(a, b)

    @staticmethod
    def inner(a, b):
        return matmul(a, b) if asarr(b).ndim == 1 else matmul(a, asarr(b).T)

    @staticmethod
    def outer(a, b):
        a, b = asarr(a).ravel(), asarr(b).ravel()
        sa, sb = snapshot(a), snapshot(b)
        return new_array(a._shape + b._shape,
                         lambda i: T.mul(elemnum(sa((i[0],))), elemnum(sb((i[1],)))),
                         result_dtype(a, b))

    @staticmethod
    def einsum(spec, *ops, **kw):
        return einsum(spec, *ops)

    @staticmethod
    def sum(a, axis=None, dtype=None, keepdims=False):
        if not isinstance(a, SArr) and _to_seq(a) is not None:
            return b_sum(a) if axis in (None, 0) else np_sum(asarr(a), axis)
        return np_sum(a, axis)

    @staticmethod
    def mean(a, axis=None):
        a = asarr(a)
        n = T.ONE
        for k in range(a.ndim) if axis is None else (axis,):
            n = T.mul(n, a._shape[k])
        return np_sum(a, axis) / wrap(n)

    @staticmethod
    def prod(a, axis=None, dtype=None):
        return np_prod(a, axis)

    @staticmethod
    def max(a, axis=None):
        return np_minmax(a, axis, True)

    amax = max

    @staticmethod
    def min(a, axis=None):
        return np_minmax(a, axis, False)

    amin = min

    @staticmethod
    def any(a, axis=None):
        return np_any(a)

    @staticmethod
    def all(a, axis=None):
        return np_all(a)

    @staticmethod
    def where(c, *ab):
        if not ab:
            raise Unsupported("where(cond)")
        a, b = ab
        if isinstance(c, (SBool, bool)):
            c = asarr(c)
        c, a, b = asarr(c), asarr(a), asarr(b)
        shape = broadcast_shapes(c._shape, a._shape, b._shape)
        sc, sa, sb = snapshot(c), snapshot(a), snapshot(b)
        from .sym import _quick
        return new_array(shape, lambda i: T.ite(
            _quick(sc(_bidx(c, i, shape))), elemnum(sa(_bidx(a, i, shape))),
            elemnum(sb(_bidx(b, i, shape)))), _np.result_type(a.dtype, b.dtype))

    @staticmethod
    def maximum(a, b):
        return _ew2(a, b, lambda x, y: T.ite(T.lt(x, y), y, x))

    @staticmethod
    def minimum(a, b):
        return _ew2(a, b, lambda x, y: T.ite(T.lt(x, y), x, y))

    @staticmethod
    def power(a, b):
        return a ** b

    @staticmethod
    def hypot(a, b):
        return _ew2(a, b, lambda x, y: T.sqrt(T.add(T.mul(x, x), T.mul(y, y))))

    @staticmethod
    def copysign(a, b):
        if not isinstance(a, (SNum, SArr)) and not isinstance(b, (SNum, SArr)):
            return _np.copysign(a, b)
        if isinstance(b, (int, float)) and not isinstance(a, SArr):
            return abs(a) if _math.copysign(1, b) > 0 else -abs(a)
        if isinstance(b, SNum) and isinstance(a, (int, float)):
            return _ew2(abs(a), b, lambda x, y: T.ite(T.lt(y, T.ZERO), T.neg(x), x))
        raise Unsupported("copysign")

    @staticmethod
    def abs(x):
        return abs(x) if isinstance(x, (SArr, SNum)) else abs(asarr(x))

    absolute = fabs = abs

    @staticmethod
    def square(x):
        return x * x

    @staticmethod
    def real(x):
        return x.real if isinstance(x, SArr) else x

    @staticmethod
    def conj(x):
        return x.conj() if isinstance(x, SArr) else x

    @staticmethod
    def isfinite(x):
        if isinstance(x, SNum):
            return _nonfinite("isfinite", x)
        if isinstance(x, SArr):
            return NpShim.full(x.shape, True, B1)
        return _np.isfinite(x)

    @staticmethod
    def isnan(x):
        if isinstance(x, SNum):
            return _nonfinite("isnan", x)
        if isinstance(x, SArr):
            return NpShim.full(x.shape, False, B1)
        return _np.isnan(x)

    @staticmethod
    def isinf(x):
        if isinstance(x, SNum):
            return _nonfinite("isinf", x)
        return _np.isinf(x)

    @staticmethod
    def transpose(x, axes=None):
        x = asarr(x)
        return x.transpose(*([axes] if axes is not None else []))

    @staticmethod
    def reshape(x, shape, order="C"):
        return asarr(x).reshape(shape, order=order)

    @staticmethod
    def ravel(x, order="C"):
        return asarr(x).ravel(order=order)

    @staticmethod
    def shape(x):
        return asarr(x).shape

    @staticmethod
    def ndim(x):
        return asarr(x).ndim

    @staticmethod
    def size(x):
        return asarr(x).size

    @staticmethod
    def atleast_1d(x):
        x = asarr(x)
        return x if x.ndim else x.reshape(1)

    @staticmethod
    def atleast_2d(x):
        x = asarr(x)
        if x.ndim == 0:
            return x.reshape(1, 1)
        return x if x.ndim >= 2 else x[None, :]

    @staticmethod
    def concatenate(xs, axis=0):
        return concat([asarr(x) for x in xs], axis)

    @staticmethod
    def hstack(xs):
        xs = [NpShim.atleast_1d(x) for x in xs]
        return concat(xs, 0 if xs[0].ndim == 1 else 1)

    @staticmethod
    def vstack(xs):
        return concat([NpShim.atleast_2d(x) for x in xs], 0)

    @staticmethod
    def column_stack(xs):
        return concat([NpShim.atleast_2d(x).T if asarr(x).ndim == 1 else asarr(x)
                       for x in xs], 1)

    @staticmethod
    def stack(xs, axis=0):
        xs = [asarr(x) for x in xs]
        if axis != 0:
            raise Unsupported("stack axis")
        return concat([x[None] for x in xs], 0)

    @staticmethod
    def append(a, b, axis=None):
        return NpShim.hstack([asarr(a).ravel(), asarr(b).ravel()])

    @staticmethod
    def meshgrid(*xs, indexing="xy"):
        xs = [asarr(x) for x in xs]
        if indexing != "ij":
            raise Unsupported("meshgrid xy")
        shape = tuple(x._shape[0] for x in xs)
        return [new_array(shape, lambda i, k=k, s=snapshot(x): s((i[k],)), x.dtype)
                for k, x in enumerate(xs)]

    @staticmethod
    def repeat(x, n, axis=None):
        x = asarr(x)
        n = lift(n)
        if axis is None and x.ndim == 1:
            s = snapshot(x)
            from .sym import divmod_term
            return new_array((T.mul(x._shape[0], n),),
                             lambda i: s((divmod_term(i[0], n)[0],)), x.dtype)
        raise Unsupported("repeat")

    @staticmethod
    def tile(x, n):
        x = asarr(x)
        if x.ndim == 1 and is_scalar(n):
            s = snapshot(x)
            from .sym import divmod_term
            return new_array((T.mul(lift(n), x._shape[0]),),
                             lambda i: s((divmod_term(i[0], x._shape[0])[1],)), x.dtype)
        raise Unsupported("tile")

    @staticmethod
    def broadcast_to(x, shape):
        return broadcast_to(x, shape)

    @staticmethod
    def copy(x):
        return asarr(x).copy()

    @staticmethod
    def flip(x, axis=None):
        x = asarr(x)
        key = tuple(slice(None, None, -1) if axis is None or k == axis % x.ndim
                    else slice(None) for k in range(x.ndim))
        return x[key]

    @staticmethod
    def cumsum(x):
        x = asarr(x)
        if x.ndim != 1:
            raise Unsupported("cumsum")
        s = snapshot(x)
        return new_array(x._shape, lambda i: _sum_over(T.add(i[0], T.num(1)),
                                                       lambda j: s((j,))), x.dtype)

    @staticmethod
    def result_type(*a):
        return _np.result_type(*[x if isinstance(x, (_np.dtype, type)) else x.dtype for x in a])

    @staticmethod
    def isscalar(x):
        return is_scalar(x)

    @staticmethod
    def trace(x):
        x = asarr(x)
        s = snapshot(x)
        return wrap(_sum_over(x._shape[0], lambda i: s((i, i))))

    def __getattr__(self, name):
        if name in ("sqrt", "exp", "log", "sin", "cos", "tan", "arcsin", "arccos", "arctan",
                    "arctanh", "arcsinh", "arccosh", "sinh", "cosh", "tanh", "log2", "log10"):
            def f(x):
                return ufunc(name, x)
            return f
        obj = getattr(_np, name)
        if not callable(obj) or isinstance(obj, type):
            return obj

        def g(*a, **k):
            if any(symbolic(x) for x in a) or any(symbolic(x) for x in k.values()):
                raise Unsupported(f"numpy.{name} on symbolic values")
            r = obj(*a, **k)
            if isinstance(r, _np.ndarray) and r.dtype.kind in "f":
                raise Unsupported(f"numpy.{name}: inexact concrete result")
            return r
        return g


def _shareable(x):
    return isinstance(x, SArr)


def _delta(i, j):
    d = T.sub(i, j)
    if d.op == "num":
        return T.num(1 if d.args[0] == 0 else 0)
    return T.app("delta", i, j, sort="I")


def _shape(s):
    if isinstance(s, (int, SNum)):
        return (lift(s),)
    return tuple(lift(x) for x in s)


def _ew2(a, b, f):
    if is_scalar(a) and is_scalar(b):
        return wrap(f(lift_num(a), lift_num(b)))
    a = asarr(a)
    return a._ew(b, f)


def ufunc(name, x):
    nm = {"arcsin": "asin", "arccos": "acos", "arctan": "atan", "arctanh": "atanh",
          "arcsinh": "asinh", "arccosh": "acosh"}.get(name, name)
    if nm == "sqrt":
        f = T.sqrt
    elif nm == "log2":
        def f(t):
            return T.div(T.app("log", t), T.app("log", T.num(2)))
    elif nm == "log10":
        def f(t):
            return T.div(T.app("log", t), T.app("log", T.num(10)))
    else:
        def f(t):
            return fn_term(nm, t)
    if is_scalar(x):
        return SNum(f(lift_num(x)))
    return asarr(x).map(f, dtype=F8)


def concat(xs, axis):
    nd = xs[0].ndim
    axis %= nd
    for x in xs:
        if x.ndim != nd:
            raise ValueError("all the input array dimensions must match")
        for k in range(nd):
            if k != axis and x._shape[k] is not xs[0]._shape[k] and \
                    not cur().decide(T.eq(x._shape[k], xs[0]._shape[k])):
                raise ValueError("all the input array dimensions except for the "
                                 "concatenation axis must match exactly")
    offs = [T.num(0)]
    for x in xs:
        offs.append(T.add(offs[-1], x._shape[axis]))
    snaps = [snapshot(x) for x in xs]
    dt = xs[0].dtype
    for x in xs[1:]:
        dt = _np.result_type(dt, x.dtype)
    shape = list(xs[0]._shape)
    shape[axis] = N.canon(offs[-1])
    from .sym import _quick

    def fn(idx):
        i = idx[axis]
        r = None
        for k in range(len(xs) - 1, -1, -1):
            if xs[k]._shape[axis] is T.ZERO:
                continue
            c = _quick(T.le(offs[k], i)) if k else T.TRUE
            if c is T.FALSE:
                continue
            val = snaps[k](idx[:axis] + (N.canon(T.sub(i, offs[k])),) + idx[axis + 1:])
            if r is None and c is T.TRUE:
                return val if r is None else r
            if r is None:
                r = [(c, val)]
            else:
                r.append((c, val))
            if c is T.TRUE:
                break
        if r is None:
            return T.num(0)
        out = r[-1][1]
        for c, val in reversed(r[:-1]):
            out = T.ite(c, val, out)
        return out
    return new_array(shape, fn, dt)


def einsum(spec, *ops):
    spec = spec.replace(" ", "")
    ins, out = spec.split("->") if "->" in spec else (spec, None)
    ins = ins.split(",")
    ops = [asarr(o) for o in ops]
    ext = {}
    for s, o in zip(ins, ops, strict=True):
        if len(s) != o.ndim:
            raise ValueError("einsum: operand has wrong number of dimensions")
        for ch, d in zip(s, o._shape):
            if ch in ext:
                if ext[ch] is not d and not cur().decide(T.eq(ext[ch], d)):
                    raise ValueError("einsum: mismatched extents")
            else:
                ext[ch] = d
    if out is None:
        al = "".join(ins)
        out = "".join(sorted(c for c in set(al) if al.count(c) == 1))
    red = [c for c in dict.fromkeys("".join(ins)) if c not in out]
    snaps = [snapshot(o) for o in ops]

    def fn(idx):
        env = dict(zip(out, idx))

        def rec(rem):
            if not rem:
                return T.mul(T.num(1), *[elemnum(s(tuple(env[c] for c in nm)))
                                         for s, nm in zip(snaps, ins)])
            c = rem[0]

            def f(i):
                env[c] = i
                return rec(rem[1:])
            return _sum_over(ext[c], f)
        return rec(red)
    dt = ops[0].dtype
    for o in ops[1:]:
        dt = _np.result_type(dt, o.dtype)
    r = new_array([ext[c] for c in out], fn, dt)
    return r if out else wrap(r.elem(()))


# {{{ linear algebra by contract

class LinAlgError(Exception):
    pass


class LaShim:
    """numpy.linalg by assumed contract (see DESIGN.md: trusted dependencies).

    solve(A, B) is the X with A X = B; inv(A) the two-sided inverse; the callers'
    precondition (A square) is checked, invertibility is recorded as an assumption of
    the contract of the calling function.
    """

    LinAlgError = _np.linalg.LinAlgError

    @staticmethod
    def _square(a):
        a = asarr(a)
        if a.ndim != 2:
            raise LaShim.LinAlgError("not two-dimensional")
        if a._shape[0] is not a._shape[1] and \
                not cur().decide(T.eq(a._shape[0], a._shape[1])):
            raise LaShim.LinAlgError("Last 2 dimensions of the array must be square")
        return a

    @staticmethod
    def _inv_fn(a):
        """elements of the inverse of a, with its defining equations"""
        v = cur()
        sa = snapshot(a)
        n = a._shape[0]
        r, c = T.fresh("r", "I"), T.fresh("c", "I")
        T.RANGES[r] = (T.num(0), n)
        T.RANGES[c] = (T.num(0), n)
        body = N.canon(sa((r, c)))
        lamA = T.lam(r, T.lam(c, body))
        # inv(A^T) = inv(A)^T: one name for a matrix and its transpose
        lamT = T.lam(c, T.lam(r, body))
        flip = lamT is not lamA and str(lamT) < str(lamA)
        if flip:
            lamA = lamT
        v.assumptions.add("matrices passed to solve/inv are invertible")

        def inv(i, j):
            return T.app("inv", lamA, n, *((j, i) if flip else (i, j)))
        key = ("invrule", lamA)
        if not any(getattr(f, "key", None) == key for f in v.sum_rules):
            v.sum_rules.append(inv_rule(lamA, n, key))
        return inv, n

    @staticmethod
    def inv(a):
        a = LaShim._square(a)
        f, n = LaShim._inv_fn(a)
        return new_array((n, n), lambda i: f(i[0], i[1]), F8)

    @staticmethod
    def solve(a, b):
        a = LaShim._square(a)
        b = asarr(b)
        f, n = LaShim._inv_fn(a)
        if b._shape[0] is not n and not cur().decide(T.eq(b._shape[0], n)):
            raise ValueError("solve: mismatch in its core dimension 0")
        sb = snapshot(b)
        if b.ndim == 1:
            return new_array((n,), lambda i: _sum_over(n, lambda k: T.mul(
                f(i[0], k), elemnum(sb((k,))))), F8)
        return new_array((n, b._shape[1]), lambda i: _sum_over(n, lambda k: T.mul(
            f(i[0], k), elemnum(sb((k, i[1]))))), F8)

    @staticmethod
    def pinv(a, *args, **kw):
        """Moore-Penrose inverse of a full-column-rank matrix: P A = 1, A P symmetric."""
        v = cur()
        a = asarr(a)
        sa = snapshot(a)
        m, n = a._shape
        r, c = T.fresh("r", "I"), T.fresh("c", "I")
        T.RANGES[r] = (T.num(0), m)
        T.RANGES[c] = (T.num(0), n)
        lamA = T.lam(r, T.lam(c, N.canon(sa((r, c)))))
        v.assumptions.add("matrices passed to pinv have full column rank")

        def f(i, j):
            return T.app("pinv", lamA, m, n, i, j)
        key = ("pinvrule", lamA)
        if not any(getattr(g, "key", None) == key for g in v.sum_rules):
            v.sum_rules.append(inv_rule(lamA, n, key, name="pinv", left_only=True))
        return new_array((n, m), lambda i: f(i[0], i[1]), F8)

    @staticmethod
    def det(a):
        a = LaShim._square(a)
        if a._shape[0].op == "num":
            n = int(a._shape[0].args[0])
            import itertools
            s = snapshot(a)
            tot = []
            for p in itertools.permutations(range(n)):
                sgn = 1
                for i in range(n):
                    for j in range(i):
                        if p[j] > p[i]:
                            sgn = -sgn
                tot.append(T.mul(T.num(sgn), *[elemnum(s((T.num(i), T.num(p[i]))))
                                               for i in range(n)]))
            return SNum(T.add(T.num(0, "R"), *tot))
        r, c = T.fresh("r", "I"), T.fresh("c", "I")
        n = a._shape[0]
        T.RANGES[r] = T.RANGES[c] = (T.num(0), n)
        return SNum(T.app("det", T.lam(r, T.lam(c, N.canon(snapshot(a)((r, c))))), n))

    @staticmethod
    def norm(a, ord=None, axis=None):
        a = asarr(a)
        if not (ord is None or ord == 2 and a.ndim == 1 or ord == "fro" and a.ndim == 2) \
                or axis is not None and a.ndim != 1:
            raise Unsupported("norm")
        return SNum(T.sqrt(lift(np_sum(a * a))))

    def __getattr__(self, name):
        def g(*a, **k):
            raise Unsupported(f"numpy.linalg.{name}")
        return g


class HeapShim:
    """heapq by contract: a heap is a list whose order is not known; popping removes some
    element of it, pushing adds one."""

    def __init__(self):
        self.key = None

    @staticmethod
    def heapify(h):
        pass

    @staticmethod
    def heappush(h, x):
        h.append(x)

    @staticmethod
    def heappop(h):
        v = cur()
        st = h.state()
        if v.decide(T.le(st.n, T.ZERO)):
            raise IndexError("pop from an empty heap")
        k = T.fresh("pop", "I")
        v.samplers[k] = lambda r: 0
        v.assume(T.le(T.ZERO, k))
        v.assume(T.lt(k, st.n))
        last = T.sub(st.n, T.ONE)
        x = st.get(k)
        if v.decide(T.eq(k, last)):
            h.set_state(SSeq(last, st.get, list))
        else:
            h.set_state(SSeq(last, lambda i: _ite_value(
                T.eq(lift(i), k), lambda: st.get(last), lambda: st.get(lift(i))), list))
        return x

    @staticmethod
    def heapreplace(h, x):
        r = HeapShim.heappop(h)
        h.append(x)
        return r

    @staticmethod
    def heappushpop(h, x):
        h.append(x)
        return HeapShim.heappop(h)

    def __getattr__(self, name):
        def g(*a, **k):
            raise Unsupported(f"heapq.{name}")
        return g


def inv_rule(lamA, n, key, name="inv", left_only=False):
    """sum_k A(i,k) Ainv(k,j) = delta(i,j) and sum_k Ainv(i,k) A(k,j) = delta(i,j)."""
    la = lamA
    nidx = 3 if name == "pinv" else 2      # position of row index in app args (after name)

    def A_at(i, j):
        l2 = T.subst(la.args[1], {la.args[0]: i})
        return T.subst(l2.args[1], {l2.args[0]: j})

    def rule(v, glo, ghi, dep):
        if glo:
            return None
        for k, (b, e) in enumerate(dep):
            if b.op != "app" or b.args[0] != name or e != N.E1 or b.args[1] is not la:
                continue
            ri, ci = b.args[-2], b.args[-1]
            rest = [x for j, x in enumerate(dep) if j != k]
            if ci is v and v not in ri.fv:
                # sum_v Ainv(ri, v) * F(v)  with F(v) = A(v, j) * stuff
                size = b.args[2]
                r = _match(rest, v, lambda q: A_at(v, q), left=True, other=ri, size=n)
                if r is not None:
                    return r
            if ri is v and v not in ci.fv and not left_only:
                r = _match(rest, v, lambda q: A_at(q, v), left=False, other=ci, size=n)
                if r is not None:
                    return r
        return None

    def _match(rest, v, pat, left, other, size):
        q = T.fresh("q", "I")
        T.RANGES[q] = (T.num(0), size)
        pg = N.norm(pat(q))
        if len(pg) != 1:
            # polynomial pattern: try the indices occurring in rest
            return None
        (pm, pc), = pg.items()
        deppm = [x for x in pm if v in x[0].fv]
        # factors of the pattern must be matched by factors in rest
        rest = list(rest)
        bind = {}
        used = []
        for pb, pe in pm:
            for x in rest:
                if x in used or x[1] != pe:
                    continue
                m = unify(pb, x[0], q, dict(bind))
                if m is not None:
                    bind = m
                    used.append(x)
                    break
            else:
                return None
        if q not in bind or v in bind[q].fv:
            return None
        left_rest = [x for x in rest if x not in used]
        if any(v in b.fv for b, _ in left_rest):
            return None
        t = T.mul(_delta(other, bind[q]), N.mono_term(tuple(left_rest)),
                  T.num(1 / pc))
        return N.norm(t)
    rule.key = key
    return rule


def unify(p, t, q, m):
    """Match pattern p (with pattern variable q) against t."""
    if q not in p.fv:
        return m if p is t else None
    if p is q:
        if q in m:
            return m if m[q] is t else None
        if any(x.args[0].startswith("$") for x in t.fv):
            return None
        m[q] = t
        return m
    if p.op != t.op or len(p.args) != len(t.args):
        return None
    if p.op in ("add", "mul"):
        # try the aligned order first, then any permutation for short lists
        import itertools
        for perm in itertools.permutations(t.args) if len(t.args) <= 4 else [t.args]:
            m2 = dict(m)
            for a, b in zip(p.args, perm):
                m2 = unify(a, b, q, m2)
                if m2 is None:
                    break
            if m2 is not None:
                return m2
        return None
    for a, b in zip(p.args, t.args):
        if isinstance(a, T.Node) and isinstance(b, T.Node):
            m = unify(a, b, q, m)
            if m is None:
                return None
        elif a != b:
            return None
    return m

# }}}

# }}}
