"""Whole-package name resolution (every function body, reached or not)."""
import ast
import builtins

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__",
                                 "__package__", "__spec__", "__class__"}


class Scope(object):
    def __init__(self, kind, node, parent):
        self.kind = kind
        self.node = node
        self.parent = parent
        self.names = set()
        self.globals = set()
        self.nonlocals = set()
        self.star = False


def bind_targets(t, out):
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)


def collect(body, sc):
    """Names bound in one scope (not descending into nested scopes)."""
    stk = list(body)
    while stk:
        n = stk.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            sc.names.add(n.name)
            stk.extend(n.decorator_list)
            if not isinstance(n, ast.ClassDef):
                stk.extend(n.args.defaults)
                stk.extend(d for d in n.args.kw_defaults if d is not None)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    sc.names.add(w.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            sc.names.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                if al.name == "*":
                    sc.star = True
                else:
                    sc.names.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.Global):
            sc.globals.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            sc.nonlocals.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            sc.names.add(n.name)
        elif isinstance(n, ast.MatchAs) and n.name:
            sc.names.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            sc.names.add(n.name)
        stk.extend(ast.iter_child_nodes(n))


def unresolved(mod):
    """Yield (function qualname, name, line) for every unresolvable load."""
    out = []
    msc = Scope("module", mod.tree, None)
    collect(mod.tree.body, msc)
    # names declared global inside functions are module names
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Global):
            msc.names.update(n.names)

    counts = {"functions": 0, "loads": 0}

    def resolve(name, sc):
        first = True
        s = sc
        while s is not None:
            if s.star:
                return True
            if s.kind == "class" and not first:
                s = s.parent
                continue
            if name in s.names:
                return True
            first = False
            s = s.parent
        return name in BUILTINS

    def visit(n, sc, qual):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = n.args
            for d in list(a.defaults) + [x for x in a.kw_defaults if x is not None]:
                visit(d, sc, qual)
            if not isinstance(n, ast.Lambda):
                for d in n.decorator_list:
                    visit(d, sc, qual)
                for x in a.posonlyargs + a.args + a.kwonlyargs:
                    if x.annotation is not None:
                        visit(x.annotation, sc, qual)
            f = Scope("function", n, sc)
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                f.names.add(x.arg)
            if a.vararg:
                f.names.add(a.vararg.arg)
            if a.kwarg:
                f.names.add(a.kwarg.arg)
            q = "%s.%s" % (qual, getattr(n, "name", "<lambda>")) if qual else \
                getattr(n, "name", "<lambda>")
            counts["functions"] += 1
            if isinstance(n, ast.Lambda):
                visit(n.body, f, q)
            else:
                collect(n.body, f)
                for s in n.body:
                    visit(s, f, q)
            return
        if isinstance(n, ast.ClassDef):
            for b in n.bases + [k.value for k in n.keywords] + n.decorator_list:
                visit(b, sc, qual)
            c = Scope("class", n, sc)
            collect(n.body, c)
            q = "%s.%s" % (qual, n.name) if qual else n.name
            for s in n.body:
                visit(s, c, q)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            c = Scope("function", n, sc)
            for g in n.generators:
                bind_targets(g.target, c.names)
            first = True
            for g in n.generators:
                visit(g.iter, sc if first else c, qual)
                first = False
                for i in g.ifs:
                    visit(i, c, qual)
            if isinstance(n, ast.DictComp):
                visit(n.key, c, qual)
                visit(n.value, c, qual)
            else:
                visit(n.elt, c, qual)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            counts["loads"] += 1
            if not resolve(n.id, sc):
                out.append((qual or "<module>", n.id, n.lineno))
            return
        for c in ast.iter_child_nodes(n):
            visit(c, sc, qual)
    for s in mod.tree.body:
        visit(s, msc, "")
    return out, counts


def tuple_raises(mod):
    out = []
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Raise) and isinstance(n.exc, (ast.Tuple, ast.Constant,
                                                           ast.JoinedStr)):
            out.append(n.lineno)
    return out
