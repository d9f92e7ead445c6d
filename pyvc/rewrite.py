"""Mechanical instrumentation of Python source.

Every rewrite is semantics preserving on ordinary values: the hook performs the
native operation when no symbolic value is involved.

  f(a, *b, k=c)       -> __vc__.call(f, a, *b, k=c)
  f(*a, **k)          -> __vc__.call(f, *__vc__.star(a), **__vc__.dstar(k))
  a in b / a not in b -> __vc__.contains(b, a) / __vc__.not_(...)
  a is b / a is not b -> __vc__.is_(a, b) / ...
  a[b]       (load)   -> __vc__.getitem(a, b)
  f"..."              -> __vc__.fstr(parts...)
  not a               -> __vc__.not_(a)
  a and b, a or b     -> __vc__.boolop(True/False, lambda: a, lambda: b)
                         (in functions without for statements)
  for x in E:         -> for x in __vc__.loop(E, "qual", ordinal):
  while T: ...        -> for _ in __vc__.whiles("qual", ordinal):
                             if not T: break; ...     (no else clause)
  [e for x in E]      -> __vc__.listcomp(E, lambda x: e, None)
  [e for x in E ...]  -> [e for x in __vc__.comp(E) ...]
  except:             -> preceded by `except __vc__.Control: raise`

Dropped by the extraction: nothing.  Not rewritten: calls to super(), locals(),
globals(), vars(), annotations, match patterns, chained `in` comparisons.
"""
import ast

SKIP_CALLS = {"super", "locals", "globals", "vars", "exec", "eval", "__import__"}
H = "__vc__"


def _h(attr):
    return ast.Attribute(value=ast.Name(id=H, ctx=ast.Load()), attr=attr,
                         ctx=ast.Load())


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.qual = []
        self.loops = [0]
        self.whiles = [0]
        self.inclass = []
        self.hasfor = []

    # -- scopes
    def _scope(self, node):
        self.qual.append(node.name)
        self.loops.append(0)
        self.whiles.append(0)
        self.inclass.append(isinstance(node, ast.ClassDef))
        self.hasfor.append(any(isinstance(x, (ast.For, ast.While))
                               for x in ast.walk(node)))
        # annotations are left alone
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            node.args.defaults = [self.visit(d) for d in node.args.defaults]
            node.args.kw_defaults = [
                self.visit(d) if d is not None else None
                for d in node.args.kw_defaults]
        else:
            node.bases = [self.visit(b) for b in node.bases]
            for k in node.keywords:
                k.value = self.visit(k.value)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        self.qual.pop()
        self.loops.pop()
        self.whiles.pop()
        self.inclass.pop()
        self.hasfor.pop()
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = visit_ClassDef = _scope

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLS:
            node.args = [self.visit(a) for a in node.args]
            return node
        self.generic_visit(node)
        args = [ast.Starred(value=ast.Call(func=_h("star"), args=[a.value],
                                           keywords=[]), ctx=ast.Load())
                if isinstance(a, ast.Starred) else a for a in node.args]
        keys = [ast.keyword(arg=None, value=ast.Call(
            func=_h("dstar"), args=[k.value], keywords=[]))
                if k.arg is None else k for k in node.keywords]
        return ast.copy_location(
            ast.Call(func=_h("call"), args=[node.func] + args,
                     keywords=keys), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op = node.ops[0]
        a, b = node.left, node.comparators[0]
        if isinstance(op, (ast.In, ast.NotIn)):
            new = ast.Call(func=_h("in_"), args=[a, b], keywords=[])
        elif isinstance(op, (ast.Is, ast.IsNot)):
            new = ast.Call(func=_h("is_"), args=[a, b], keywords=[])
        else:
            return node
        if isinstance(op, (ast.NotIn, ast.IsNot)):
            new = ast.Call(func=_h("not_"), args=[new], keywords=[])
        return ast.copy_location(new, node)

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if not self.qual or self.inclass[-1] or self.hasfor[-1] or any(
                isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield,
                               ast.YieldFrom)) for x in ast.walk(node)):
            return node
        return ast.copy_location(ast.Call(
            func=_h("boolop"),
            args=[ast.Constant(value=isinstance(node.op, ast.And))] + [
                ast.Lambda(args=ast.arguments(
                    posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                    defaults=[]), body=v) for v in node.values],
            keywords=[]), node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(
                ast.Call(func=_h("not_"), args=[node.operand], keywords=[]),
                node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        idx = node.slice
        if isinstance(idx, ast.Slice):
            n = lambda x: x if x is not None else ast.Constant(value=None)
            idx = ast.Call(func=_h("slice"), args=[n(idx.lower), n(idx.upper),
                                                   n(idx.step)], keywords=[])
        elif isinstance(idx, ast.Tuple) and any(
                isinstance(e, (ast.Slice, ast.Starred)) for e in idx.elts):
            n = lambda x: x if x is not None else ast.Constant(value=None)
            idx = ast.Tuple(elts=[
                ast.Call(func=_h("slice"), args=[n(e.lower), n(e.upper),
                                                 n(e.step)], keywords=[])
                if isinstance(e, ast.Slice) else e for e in idx.elts],
                ctx=ast.Load())
        return ast.copy_location(
            ast.Call(func=_h("getitem"), args=[node.value, idx], keywords=[]),
            node)

    def visit_JoinedStr(self, node):
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            else:
                spec = v.format_spec
                if spec is not None:
                    spec = self.visit_JoinedStr(spec) if isinstance(
                        spec, ast.JoinedStr) else self.visit(spec)
                else:
                    spec = ast.Constant(value="")
                args.append(ast.Tuple(elts=[
                    self.visit(v.value), ast.Constant(value=v.conversion),
                    spec], ctx=ast.Load()))
        return ast.copy_location(
            ast.Call(func=_h("fstr"), args=args, keywords=[]), node)

    def _loopid(self):
        k = self.loops[-1]
        self.loops[-1] += 1
        return [ast.Constant(value=".".join(self.qual)), ast.Constant(value=k)]

    def visit_For(self, node):
        sets = sorted({n.id for b in [node.target, *node.body]
                       for n in ast.walk(b) if isinstance(n, ast.Name)
                       and isinstance(n.ctx, (ast.Store, ast.Del))})
        lid = self._loopid() + [ast.Tuple(elts=[ast.Constant(value=n) for n
                                                in sets], ctx=ast.Load())]
        node.iter = self.visit(node.iter)
        node.target = self.visit(node.target)
        for f in ("body", "orelse"):
            out = []
            for s in getattr(node, f):
                r = self.visit(s)
                out.extend(r if isinstance(r, list) else [r])
            setattr(node, f, out)
        node.iter = ast.copy_location(
            ast.Call(func=_h("loop"), args=[node.iter] + lid, keywords=[]),
            node.iter)
        return node

    def visit_While(self, node):
        if node.orelse:
            return self.generic_visit(node)
        sets = sorted({n.id for b in node.body for n in ast.walk(b)
                       if isinstance(n, ast.Name)
                       and isinstance(n.ctx, (ast.Store, ast.Del))})
        k = self.whiles[-1]
        self.whiles[-1] += 1
        test = self.visit(node.test)
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        stop = ast.copy_location(ast.If(test=ast.UnaryOp(
            op=ast.Not(), operand=test), body=[ast.Break()], orelse=[]), node)
        return ast.copy_location(ast.For(
            target=ast.Name(id="__vc_w__", ctx=ast.Store()),
            iter=ast.Call(func=_h("whiles"), args=[
                ast.Constant(value=".".join(self.qual)),
                ast.Constant(value=k),
                ast.Tuple(elts=[ast.Constant(value=n) for n in sets],
                          ctx=ast.Load())], keywords=[]),
            body=[stop, *body], orelse=[]), node)

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.iter = ast.copy_location(
            ast.Call(func=_h("comp"), args=[node.iter], keywords=[]),
            node.iter)
        return node

    def visit_ListComp(self, node):
        g = node.generators[0]
        names = [g.target] if isinstance(g.target, ast.Name) else (
            list(g.target.elts) if isinstance(g.target, ast.Tuple) else [None])
        if len(node.generators) > 1 or g.ifs or g.is_async or not all(
                isinstance(n, ast.Name) for n in names) or any(
                isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield,
                               ast.YieldFrom)) for x in ast.walk(node.elt)) \
                or (self.inclass and self.inclass[-1]):
            return self.generic_visit(node)
        it, elt = self.visit(g.iter), self.visit(node.elt)
        f = ast.Lambda(args=ast.arguments(
            posonlyargs=[], args=[ast.arg(arg=n.id) for n in names],
            kwonlyargs=[], kw_defaults=[], defaults=[]), body=elt)
        return ast.copy_location(ast.Call(
            func=_h("listcomp"), args=[it, f, ast.Constant(
                value=None if isinstance(g.target, ast.Name)
                else len(names))], keywords=[]), node)

    def visit_Try(self, node):
        self.generic_visit(node)
        out = []
        for h in node.handlers:
            if h.type is None or (isinstance(h.type, ast.Name)
                                  and h.type.id == "BaseException"):
                out.append(ast.ExceptHandler(
                    type=_h("Control"), name=None, body=[ast.Raise()]))
            out.append(h)
        node.handlers = out
        return node


def instrument(source, filename):
    tree = ast.parse(source, filename)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)
