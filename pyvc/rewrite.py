"""Mechanical rewriting of module source, applied to /repo's files on every run.

What it changes (and nothing else):
  * float literals           0.5        -> __pv__.flt("0.5")          (exact decimal)
  * division / power         a / b      -> __pv__.div(a, b)           (exact on integers)
  * list displays            [a, b]     -> __pv__.mklist([a, b])
  * calls of tuple/list/int/float/bool/dict/set/str   -> __pv__.call_<name>(...)
  * comprehensions with one generator -> __pv__.comp(...)   (element function kept verbatim)
  * for loops                -> the original loop when the iterable is concrete, otherwise
                                a cut: arbitrary iteration / exit (body kept verbatim)
  * while loops              -> same, when a loop contract is registered, otherwise kept
Annotations, docstrings, decorators, control flow and names are kept.
"""
from __future__ import annotations

import ast

TYPES = {"tuple", "list", "int", "float", "bool", "dict", "set", "frozenset"}


def pv(name):
    return ast.Attribute(ast.Name("__pv__", ast.Load()), name, ast.Load())


def call(name, *args, **kw):
    return ast.Call(pv(name), list(args), [ast.keyword(k, v) for k, v in kw.items()])


class Assigned(ast.NodeVisitor):
    """Names bound by statements of a loop body (not inside nested functions)."""

    def __init__(self):
        self.names = {}

    def add(self, n):
        self.names.setdefault(n, None)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.add(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_ListComp(self, node):
        # walrus targets aside, comprehension targets are local to it
        for g in node.generators:
            self.visit(g.iter)

    visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

    def visit_Import(self, node):
        for a in node.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, node):
        if node.name:
            self.add(node.name)
        self.generic_visit(node)


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.ctr = 0
        self.fn = []
        self.class_depth = [False]

    # {{{ scopes

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d) for d in node.args.kw_defaults]
        self.fn.append(node.name)
        self.class_depth.append(False)
        node.body = self.block(node.body)
        self.class_depth.pop()
        self.fn.pop()
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.fn.append(node.name)
        self.class_depth.append(True)
        node.body = self.block(node.body)
        self.class_depth.pop()
        self.fn.pop()
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant) and isinstance(node.value.value, str):
            return node
        return self.generic_visit(node)

    def visit_arg(self, node):
        return node

    # }}}

    # {{{ expressions

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            return call("flt", ast.Constant(repr(node.value)))
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return call("div", node.left, node.right)
        if isinstance(node.op, ast.Pow):
            return call("pow", node.left, node.right)
        if isinstance(node.op, ast.MatMult):
            return call("matmul", node.left, node.right)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Div, ast.Pow)) and isinstance(node.target, ast.Name):
            nm = "idiv" if isinstance(node.op, ast.Div) else "ipow"
            return ast.Assign([node.target],
                              call(nm, ast.Name(node.target.id, ast.Load()), node.value))
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return call("mklist", node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in TYPES:
            node.func = pv("call_" + node.func.id)
        return node

    def visit_JoinedStr(self, node):
        return node

    def _comp(self, kind, node):
        gens = node.generators
        nested = len(gens) != 1 or gens[0].is_async
        has_walrus = any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom))
                         for x in ast.walk(node))
        in_class = self.class_depth[-1]
        simple = _simple_target(gens[0].target)
        self.generic_visit(node)
        if nested or has_walrus or in_class or not simple:
            return node
        g = gens[0]
        argname = f"__pvx{self.ctr}__"
        self.ctr += 1
        if isinstance(g.target, ast.Name):
            params = [g.target.id]
            star = False
        else:
            star = True

        def fun(body):
            if not star:
                return ast.Lambda(ast.arguments(
                    posonlyargs=[], args=[ast.arg(params[0])], kwonlyargs=[],
                    kw_defaults=[], defaults=[]), body)
            # lambda x: (lambda i, (j, k): ...)  via nested unpacking helper
            names, shape = _flatten_target(g.target)
            inner = ast.Lambda(ast.arguments(
                posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[],
                kw_defaults=[], defaults=[]), body)
            return ast.Lambda(ast.arguments(
                posonlyargs=[], args=[ast.arg(argname)], kwonlyargs=[],
                kw_defaults=[], defaults=[]),
                ast.Call(inner, [ast.Starred(call("unpack", ast.Name(argname, ast.Load()),
                                                  ast.Constant(shape)), ast.Load())], []))
        import copy
        if kind == "dict":
            elt = ast.Tuple([node.key, node.value], ast.Load())
        else:
            elt = node.elt
        conds = [fun(copy.deepcopy(c)) for c in g.ifs]
        # the native comprehension is used when the iterable is concrete
        itname = f"__pvit{self.ctr}__"
        self.ctr += 1
        native = copy.deepcopy(node)
        native.generators[0].iter = ast.Name(itname, ast.Load())
        nat = ast.Lambda(ast.arguments(
            posonlyargs=[], args=[ast.arg(itname)], kwonlyargs=[],
            kw_defaults=[], defaults=[]), native)
        return call("comp", ast.Constant(kind), g.iter, fun(elt),
                    ast.List(conds, ast.Load()), nat)

    def visit_ListComp(self, node):
        return self._comp("list", node)

    def visit_GeneratorExp(self, node):
        return self._comp("gen", node)

    def visit_SetComp(self, node):
        return self._comp("set", node)

    def visit_DictComp(self, node):
        return self._comp("dict", node)

    # }}}

    # {{{ loops

    def visit_For(self, node):
        import copy
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await))
               for b in node.body for x in ast.walk(b)):
            node.iter = self.visit(node.iter)
            node.body = self.block(node.body)
            node.orelse = self.block(node.orelse)
            return node
        self.ctr += 1
        uid = self.ctr
        L = f"__pvL{uid}__"
        a = Assigned()
        a.visit(node.target)
        for s in node.body:
            a.visit(s)
        names = [n for n in a.names if not n.startswith("__pv")]
        site = f"{self.modname}:{'.'.join(self.fn)}#{uid}"
        it = self.visit(node.iter)
        body1 = self.block(copy.deepcopy(node.body))
        save = self.ctr
        body2 = self.block(copy.deepcopy(node.body))
        self.ctr = max(self.ctr, save)
        body3 = self.block(copy.deepcopy(node.body))
        orelse1 = self.block(copy.deepcopy(node.orelse))
        orelse2 = self.block(copy.deepcopy(node.orelse))

        def nm(x, c=None):
            return ast.Name(x, c or ast.Load())

        def m(name, *args):
            return ast.Call(ast.Attribute(nm(L), name, ast.Load()), list(args), [])

        def loc():
            return ast.Call(nm("locals"), [], [])

        def restore():
            return [ast.Assign([nm(x, ast.Store())], m("get", ast.Constant(x)))
                    for x in names]
        out = [ast.Assign([nm(L, ast.Store())],
                          call("loop_begin", it, ast.Constant(site),
                               ast.Constant(tuple(names))))]
        conc = ast.For(node.target, ast.Attribute(nm(L), "it", ast.Load()), body1, orelse1)
        step_body = [ast.Assign([copy.deepcopy(node.target)], m("item"))] + body2
        inner = ast.For(nm(f"__pvo{uid}__", ast.Store()), pv("ONCE"), step_body,
                        [ast.Expr(m("step_end", loc()))])
        symb = [ast.Expr(m("enter", loc())), *restore(),
                ast.If(m("do_step"),
                       [inner, ast.Expr(m("broke"))],
                       [ast.Expr(m("exit_")), *restore(), *orelse2])]
        # the first iteration is run on its own when a variable is None before it
        peel = ast.If(m("peel", loc()),
                      [ast.For(copy.deepcopy(node.target), m("first"), body3,
                               [ast.Expr(m("advance"))])], [])
        symb = [peel, ast.If(ast.Attribute(nm(L), "live", ast.Load()), symb, [])]
        out.append(ast.If(ast.Attribute(nm(L), "symbolic", ast.Load()), symb, [conc]))
        return out

    def _counting(self, node):
        """while i < hi: BODY; i += 1   as a for loop, where that is what it is"""
        import copy
        t = node.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and node.body):
            return None
        last = node.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name)
                and isinstance(last.op, (ast.Add, ast.Sub)) and isinstance(
                    last.value, ast.Constant) and last.value.value == 1
                and type(last.value.value) is int) or len(node.body) < 2:
            return None
        i = last.target.id
        down = isinstance(last.op, ast.Sub)
        left, op, right = t.left, t.ops[0], t.comparators[0]
        flip = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
        kind = type(op)
        if kind not in flip:
            return None
        if isinstance(right, ast.Name) and right.id == i:
            left, right, kind = right, left, flip[kind]
        if not (isinstance(left, ast.Name) and left.id == i):
            return None
        if kind not in ((ast.Gt, ast.GtE) if down else (ast.Lt, ast.LtE)):
            return None
        a = Assigned()
        for s in node.body[:-1]:
            a.visit(s)
        if i in a.names or any(isinstance(x, (ast.Continue, ast.Yield, ast.YieldFrom, ast.Await,
                                              ast.Lambda, ast.FunctionDef, ast.NamedExpr,
                                              ast.Global, ast.Nonlocal))
                               for s in node.body for x in ast.walk(s)):
            return None
        # the bound does not change: plain arithmetic over names that are not assigned, or
        # lengths of objects without method calls or stores in the body
        used = set()
        for s in node.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                    used.add(x.value.id)
                if isinstance(x, ast.Delete):
                    return None
        for x in ast.walk(right):
            if isinstance(x, ast.Name):
                if x.id in a.names or x.id == i:
                    return None
            elif isinstance(x, ast.Call):
                if not (isinstance(x.func, ast.Name) and x.func.id == "len" and len(x.args) == 1
                        and isinstance(x.args[0], ast.Name) and x.args[0].id not in used):
                    return None
            elif not isinstance(x, (ast.BinOp, ast.Add, ast.Sub, ast.Mult, ast.FloorDiv,
                                    ast.Constant, ast.Load, ast.UnaryOp, ast.USub)):
                return None
        one = ast.Constant(1)
        hi = copy.deepcopy(right)
        if kind is ast.LtE:
            hi = ast.BinOp(hi, ast.Add(), one)
        elif kind is ast.GtE:
            hi = ast.BinOp(hi, ast.Sub(), one)
        self.ctr += 1
        start, end = f"__pvs{self.ctr}__", f"__pve{self.ctr}__"

        def nm(x, c=None):
            return ast.Name(x, c or ast.Load())
        args = [nm(start), nm(end)] + ([ast.UnaryOp(ast.USub(), ast.Constant(1))] if down else [])
        loop = ast.For(nm(i, ast.Store()), ast.Call(nm("range"), args, []), node.body[:-1],
                       [ast.Assign([nm(i, ast.Store())], call(
                           "count_exit", nm(start), nm(end), ast.Constant(down))),
                        *node.orelse])
        out = []
        for s in (ast.Assign([nm(start, ast.Store())], nm(i)),
                  ast.Assign([nm(end, ast.Store())], hi), loop):
            ast.copy_location(s, node)
            ast.fix_missing_locations(s)
            r = self.visit(s)
            out += r if isinstance(r, list) else [r]
        return out

    def visit_While(self, node):
        import copy
        r = self._counting(node)
        if r is not None:
            return r
        self.ctr += 1
        uid = self.ctr
        site = f"{self.modname}:{'.'.join(self.fn)}#{uid}"
        a = Assigned()
        a.visit(node.test)
        for s in node.body:
            a.visit(s)
        names = [n for n in a.names if not n.startswith("__pv")]
        L = f"__pvW{uid}__"

        def copies():
            save = self.ctr
            r = (self.visit(copy.deepcopy(node.test)), self.block(copy.deepcopy(node.body)),
                 self.block(copy.deepcopy(node.orelse)))
            self.ctr = max(self.ctr, save)
            return r
        test1, body1, orelse1 = copies()
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await))
               for b in node.body for x in ast.walk(b)):
            return ast.While(test1, body1, orelse1)
        test2, body2, orelse2 = copies()

        def m(name, *args):
            return ast.Call(ast.Attribute(ast.Name(L, ast.Load()), name, ast.Load()),
                            list(args), [])

        def loc():
            return ast.Call(ast.Name("locals", ast.Load()), [], [])
        # count iterations so that an unbounded symbolic loop is reported, not run forever
        body1.insert(0, ast.Expr(call("while_tick", ast.Constant(site))))
        inner = ast.For(ast.Name(f"__pvo{uid}__", ast.Store()), pv("ONCE"), body2,
                        [ast.Expr(m("step_end", loc()))])
        return [
            ast.Assign([ast.Name(L, ast.Store())],
                       call("while_begin", ast.Constant(site), ast.Constant(tuple(names)))),
            ast.If(ast.Attribute(ast.Name(L, ast.Load()), "contract", ast.Load()),
                   [ast.Expr(m("enter", loc())),
                    *[ast.Assign([ast.Name(x, ast.Store())], m("get", ast.Constant(x)))
                      for x in names],
                    ast.If(test2, [inner], orelse2 or [ast.Pass()])],
                   [ast.While(test1, body1, orelse1)])]

    # }}}


def _simple_target(t):
    if isinstance(t, ast.Name):
        return True
    if isinstance(t, (ast.Tuple, ast.List)):
        return all(_simple_target(e) for e in t.elts)
    return False


def _flatten_target(t):
    """-> names, nested shape as a tuple of None / tuples"""
    if isinstance(t, ast.Name):
        return [t.id], None
    names, shape = [], []
    for e in t.elts:
        n, s = _flatten_target(e)
        names += n
        shape.append(s)
    return names, tuple(shape)


def rewrite(source, modname, filename):
    tree = ast.parse(source, filename)
    rw = Rewriter(modname)
    tree.body = rw.block(tree.body)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)
