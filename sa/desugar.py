"""Source-level normalisation done once when a module is parsed, so that the
interpreter needs no rule for generators, match statements or async syntax."""
import ast


def _own_yields(fn):
    """Yield expressions of this function (not of nested functions)."""
    out = []

    def visit(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                              ast.AsyncFunctionDef)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                out.append(c)
            visit(c)
    for s in fn.body:
        visit(ast.Module(body=[s], type_ignores=[]))
    return out


class _Gen(ast.NodeTransformer):
    """yield x -> %gen.append(x); return -> return %gen."""

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

    def call(self, n, meth, arg):
        c = ast.Call(func=ast.Attribute(value=ast.Name(id="%gen", ctx=ast.Load()),
                                        attr=meth, ctx=ast.Load()),
                     args=[arg], keywords=[])
        return ast.fix_missing_locations(ast.copy_location(c, n))

    def visit_Yield(self, n):
        self.generic_visit(n)
        return self.call(n, "append", n.value or ast.copy_location(
            ast.Constant(value=None), n))

    def visit_YieldFrom(self, n):
        self.generic_visit(n)
        return self.call(n, "extend", n.value)

    def visit_Return(self, n):
        return ast.copy_location(ast.Return(value=ast.copy_location(
            ast.Name(id="%gen", ctx=ast.Load()), n)), n)


class Desugar(ast.NodeTransformer):
    def visit_AsyncFunctionDef(self, n):
        f = ast.FunctionDef(name=n.name, args=n.args, body=n.body,
                            decorator_list=n.decorator_list, returns=n.returns,
                            type_comment=None, type_params=[])
        return self.visit_FunctionDef(ast.copy_location(f, n))

    def visit_AsyncFor(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.For(target=n.target, iter=n.iter, body=n.body,
                                         orelse=n.orelse, type_comment=None), n)

    def visit_AsyncWith(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.With(items=n.items, body=n.body,
                                          type_comment=None), n)

    def visit_TryStar(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Try(body=n.body, handlers=n.handlers,
                                         orelse=n.orelse, finalbody=n.finalbody), n)

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if _own_yields(n):
            t = _Gen()
            body = [t.visit(s) for s in n.body]
            first = ast.copy_location(ast.Assign(
                targets=[ast.Name(id="%gen", ctx=ast.Store())],
                value=ast.List(elts=[], ctx=ast.Load())), n)
            last = ast.copy_location(ast.Return(
                value=ast.Name(id="%gen", ctx=ast.Load())), n)
            n.body = [first] + body + [last]
            ast.fix_missing_locations(n)
        return n

    # ---- match ------------------------------------------------------------
    def visit_Match(self, n):
        self.generic_visit(n)
        self.k = getattr(self, "k", 0) + 1
        tmp = "%%match%d" % self.k

        def name(ctx=ast.Load):
            return ast.Name(id=tmp, ctx=ctx())

        def cond(p, subj):
            """(condition expr or None for 'always', bindings)"""
            if isinstance(p, ast.MatchValue):
                return ast.Compare(left=subj(), ops=[ast.Eq()], comparators=[p.value]), []
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(left=subj(), ops=[ast.Is()],
                                   comparators=[ast.Constant(value=p.value)]), []
            if isinstance(p, ast.MatchAs):
                if p.pattern is None:
                    return None, ([(p.name, subj)] if p.name else [])
                c, b = cond(p.pattern, subj)
                return c, b + ([(p.name, subj)] if p.name else [])
            if isinstance(p, ast.MatchOr):
                cs = [cond(q, subj) for q in p.patterns]
                if any(c is None for c, _ in cs):
                    return None, []
                return ast.BoolOp(op=ast.Or(), values=[c for c, _ in cs]), []
            if isinstance(p, ast.MatchSequence) and not any(
                    isinstance(q, ast.MatchStar) for q in p.patterns):
                cs = [ast.Compare(left=ast.Call(
                    func=ast.Name(id="len", ctx=ast.Load()), args=[subj()], keywords=[]),
                    ops=[ast.Eq()], comparators=[ast.Constant(value=len(p.patterns))])]
                bs = []
                for i, q in enumerate(p.patterns):
                    def sub(i=i):
                        return ast.Subscript(value=subj(), slice=ast.Constant(value=i),
                                             ctx=ast.Load())
                    c, b = cond(q, sub)
                    if c is not None:
                        cs.append(c)
                    bs += b
                return (ast.BoolOp(op=ast.And(), values=cs) if len(cs) > 1 else cs[0]), bs
            if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
                return ast.Call(func=ast.Name(id="isinstance", ctx=ast.Load()),
                                args=[subj(), p.cls], keywords=[]), []
            # unknown pattern: unknown condition, unknown bindings
            bs = [(m.name, subj) for m in ast.walk(p)
                  if isinstance(m, (ast.MatchAs, ast.MatchStar)) and m.name]
            return ast.Call(func=ast.Name(id="bool", ctx=ast.Load()),
                            args=[subj()], keywords=[]), bs

        orelse = []
        for case in reversed(n.cases):
            c, binds = cond(case.pattern, name)
            bstm = [ast.Assign(targets=[ast.Name(id=k, ctx=ast.Store())], value=s())
                    for k, s in binds]
            body = bstm + case.body
            if case.guard is not None:
                if bstm:
                    c2 = c if c is not None else ast.Constant(value=True)
                    inner = ast.If(test=case.guard, body=case.body, orelse=orelse)
                    orelse = [ast.If(test=c2, body=bstm + [inner], orelse=orelse)]
                    continue
                c = case.guard if c is None else ast.BoolOp(op=ast.And(),
                                                            values=[c, case.guard])
            if c is None:
                orelse = body
            else:
                orelse = [ast.If(test=c, body=body, orelse=orelse)]
        out = [ast.Assign(targets=[name(ast.Store)], value=n.subject)] + orelse
        for s in out:
            ast.copy_location(s, n)
            for m in ast.walk(s):
                if "lineno" in getattr(m, "_attributes", ()) and not hasattr(m, "lineno"):
                    ast.copy_location(m, n)
            ast.fix_missing_locations(s)
        return out


def desugar(tree):
    tree = Desugar().visit(tree)
    ast.fix_missing_locations(tree)
    return tree
