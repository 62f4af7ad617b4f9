"""Interprocedural abstract interpreter over the Python syntax tree.

Builds the value graph (ir.py) of a synthetic client program analysed together
with the sources of /repo/legume.  The analysed code is never imported or run:
numbers are symbolic nodes, branches on unknown conditions are joined with phi
nodes, loops are iterated to a fixpoint with mu nodes, and only finite option
values (strings / booleans / None given by the client) are constants.
"""
import ast
import os

from .desugar import desugar
from .ir import Graph, Node, pp

MAX_UNROLL = 48
MAX_RANGE = 12
MAX_ORACLE = 40            # extents declared by the client
ITER_OPS = {"sym", "index", "call", "meth", "attr", "add", "sub", "mul", "div", "pow", "neg",
            "store", "phi", "part"}
MAX_FIX = 12
MAX_DEPTH = 60


class AnalysisError(Exception):
    """The machinery cannot analyse the tree (not a verdict)."""


# --------------------------------------------------------------------------
# program loading
# --------------------------------------------------------------------------
class Module(object):
    def __init__(self, name, path, rel, tree, is_pkg, src):
        self.name = name
        self.path = path
        self.rel = rel
        self.tree = tree
        self.is_pkg = is_pkg
        self.src = src


class Program(object):
    """All modules of the analysed package, parsed from the working tree."""

    def __init__(self, root="/repo", package="legume"):
        self.root = root
        self.modules = {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisError("package directory %s not found" % base)
        for dirpath, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dirpath, f)
                rel = os.path.relpath(p, root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    tree = desugar(ast.parse(src, p))
                except SyntaxError as e:
                    raise AnalysisError("cannot parse %s: %s" % (rel, e))
                self.modules[name] = Module(name, p, rel, tree, is_pkg, src)

    def functions(self):
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    yield m, n


class FuncInfo(object):
    def __init__(self, name, qual, node, module, closure, defaults, kwdefaults,
                 cls):
        self.name = name
        self.qual = qual
        self.node = node
        self.module = module
        self.closure = closure      # env location
        self.defaults = defaults    # {argname: Node}
        self.cls = cls              # defining class location (or None)


_locals_cache = {}


def local_names(fn):
    r = _locals_cache.get(fn)
    if r is not None:
        return r
    names, glob, nonl = set(), set(), set()
    a = fn.args
    for x in list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs):
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)

    def visit(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                names.add(c.name)
                for d in c.decorator_list:
                    visit(d)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp,
                              ast.DictComp, ast.GeneratorExp)):
                # walrus inside comprehensions binds outside
                for w in ast.walk(c):
                    if isinstance(w, ast.NamedExpr):
                        names.add(w.target.id)
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                names.add(c.id)
            elif isinstance(c, ast.Global):
                glob.update(c.names)
            elif isinstance(c, ast.Nonlocal):
                nonl.update(c.names)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for al in c.names:
                    names.add((al.asname or al.name).split(".")[0])
            elif isinstance(c, ast.ExceptHandler) and c.name:
                names.add(c.name)
            visit(c)
    if isinstance(fn, ast.FunctionDef):
        for s in fn.body:
            visit(ast.Module(body=[s], type_ignores=[]))
    r = (names - glob - nonl, glob, nonl)
    _locals_cache[fn] = r
    return r


# --------------------------------------------------------------------------
# abstract state
# --------------------------------------------------------------------------
class HObj(object):
    __slots__ = ("kind", "cls", "attrs", "elems", "summ", "tag", "owner")

    def __init__(self, kind, cls=None, tag=None, owner=None):
        self.kind = kind
        self.cls = cls
        self.attrs = {}
        self.elems = None
        self.summ = None
        self.tag = tag
        self.owner = owner

    def clone(self, owner):
        h = HObj(self.kind, self.cls, self.tag, owner)
        h.attrs = dict(self.attrs)
        h.elems = list(self.elems) if self.elems is not None else None
        h.summ = self.summ
        return h


class PC(object):
    __slots__ = ("parent", "cond", "pol", "site", "depth")

    def __init__(self, parent, cond, pol, site):
        self.parent = parent
        self.cond = cond
        self.pol = pol
        self.site = site
        self.depth = (parent.depth if parent else 0) + 1


def pc_list(pc):
    r = []
    while pc is not None:
        r.append((pc.cond, pc.pol, pc.site))
        pc = pc.parent
    return r[::-1]


def pc_common(a, b):
    while a is not b:
        da = a.depth if a else 0
        db = b.depth if b else 0
        if da > db:
            a = a.parent
        elif db > da:
            b = b.parent
        else:
            a = a.parent
            b = b.parent
    return a


class State(object):
    __slots__ = ("heap", "pc", "dead", "tok")

    def __init__(self, heap=None, pc=None):
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self.dead = False
        self.tok = object()

    def fork(self):
        s = State(dict(self.heap), self.pc)
        s.dead = self.dead
        self.tok = object()
        return s

    def become(self, o):
        self.heap = o.heap
        self.pc = o.pc
        self.dead = o.dead
        self.tok = object()

    def get(self, loc):
        return self.heap[loc]

    def w(self, loc):
        h = self.heap[loc]
        if h.owner is not self.tok:
            h = h.clone(self.tok)
            self.heap[loc] = h
        return h


class Flow(object):
    def __init__(self):
        self.rets = []
        self.brks = []
        self.conts = []


class Event(object):
    __slots__ = ("kind", "data", "site", "pc", "stack", "node")

    def __init__(self, kind, data, site, pc, stack, node=None):
        self.kind = kind
        self.data = data
        self.site = site
        self.pc = pc
        self.stack = stack
        self.node = node


EXC_PARENTS = {
    "ValueError": {"ValueError", "Exception", "BaseException"},
    "TypeError": {"TypeError", "Exception", "BaseException"},
    "AttributeError": {"AttributeError", "Exception", "BaseException"},
    "RuntimeError": {"RuntimeError", "Exception", "BaseException"},
    "NotImplementedError": {"NotImplementedError", "RuntimeError", "Exception",
                            "BaseException"},
    "KeyError": {"KeyError", "LookupError", "Exception", "BaseException"},
    "IndexError": {"IndexError", "LookupError", "Exception", "BaseException"},
    "NameError": {"NameError", "Exception", "BaseException"},
    "UnboundLocalError": {"UnboundLocalError", "NameError", "Exception",
                          "BaseException"},
    "ImportError": {"ImportError", "Exception", "BaseException"},
    "AssertionError": {"AssertionError", "Exception", "BaseException"},
    "Exception": {"Exception", "BaseException"},
    "LookupError": {"LookupError", "Exception", "BaseException"},
}

# external array constructors: every call yields a new array object
ALLOC = {"zeros", "ones", "empty", "full", "array", "zeros_like", "ones_like",
         "empty_like", "full_like", "copy", "arange", "linspace", "eye",
         "hstack", "vstack", "concatenate", "tile", "repeat", "sort", "append",
         "outer", "stack", "meshgrid", "cumsum", "diff"}
ARRAYISH = ALLOC | {"sqrt", "exp", "abs", "square", "real", "imag", "conj",
                    "where", "argsort", "dot", "matmul", "cross", "reshape",
                    "transpose", "triu", "tril", "diag", "inv", "roll", "sin",
                    "cos", "asarray", "argwhere", "unique"}

CANON_PREFIX = (("autograd.numpy.linalg.", ""), ("autograd.numpy.", ""),
                ("autograd.scipy.", "scipy."), ("numpy.linalg.", ""),
                ("numpy.", ""))


def canon(name):
    for p, r in CANON_PREFIX:
        if name.startswith(p):
            return r + name[len(p):]
    return name


NEG = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt",
       "is": "isnot", "isnot": "is", "in": "notin", "notin": "in"}
BINOPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div",
          ast.Pow: "pow", ast.Mod: "mod", ast.FloorDiv: "fdiv",
          ast.MatMult: "matmul", ast.BitAnd: "band", ast.BitOr: "bor",
          ast.BitXor: "bxor", ast.LShift: "shl", ast.RShift: "shr"}
CMPOPS = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le",
          ast.Gt: "gt", ast.GtE: "ge", ast.Is: "is", ast.IsNot: "isnot",
          ast.In: "in", ast.NotIn: "notin"}

BUILTIN_NAMES = {
    "len", "range", "enumerate", "zip", "list", "dict", "tuple", "set", "max",
    "min", "abs", "getattr", "setattr", "hasattr", "isinstance", "issubclass",
    "type", "str", "print", "sorted", "map", "filter", "all", "any", "float",
    "int", "super", "staticmethod", "classmethod", "property", "sum", "round",
    "repr", "bool", "complex", "iter", "next", "reversed", "object", "id",
    "callable", "vars", "dir", "frozenset", "open", "slice", "pow", "divmod",
    "ord", "chr", "hash", "format", "bytes", "input", "globals", "locals",
    "delattr", "__import__", "NotImplemented", "Ellipsis", "__name__", "__file__", "__doc__"}
import builtins as _b
ALL_BUILTINS = set(dir(_b)) | BUILTIN_NAMES


class Interp(object):
    def __init__(self, program, max_unroll=MAX_UNROLL, ag=False, trace_attrs=True):
        self.program = program
        self.g = Graph()
        self.events = []
        self.ctxs = {}
        self.ctx = self.intern(("root",))
        self.ctx_stack = []
        self.modlocs = {}
        self.raise_sinks = [[]]
        self.stack = []            # inlining stack of (qual, site)
        self.funcs = []            # FuncInfo stack
        self.cur_line = 0
        self.cur_mod = None
        self.max_unroll = max_unroll
        self.NONE = self.g.const(None)
        self.TRUE = self.g.const(True)
        self.FALSE = self.g.const(False)
        self.UNDEF = self.g.mk("undef")
        self.inlined = {}          # qual -> count
        self.internal = []         # constructs the machinery could not model
        self.callsites = set()
        self.loop_warn = 0
        self.hooks = {}            # qual -> callable(interp, fi, args, kw, st)
        self.opaque = {}           # qual -> callable returning Node (or None)
        self.site_of = {}
        self.finfo = {}
        self.n_stmts = 0
        self.handled_sites = set()
        self.tags = {}             # loc -> ("default", function, argument)
        self.default_nodes = {}    # node id -> (function, argument)
        self.client_ctx = self.ctx
        self.subclasses = {}
        self.oracle = None         # extents of arrays known to the client (sa.alg)
        self.nonempty = False      # for-loops over unknown data run at least once

    # ---- contexts ---------------------------------------------------------
    def intern(self, t):
        r = self.ctxs.get(t)
        if r is None:
            r = self.ctxs[t] = len(self.ctxs) + 1
        return r

    def push_ctx(self, x):
        self.ctx_stack.append(self.ctx)
        self.ctx = self.intern((self.ctx, x))

    def pop_ctx(self):
        self.ctx = self.ctx_stack.pop()

    def site(self, node=None):
        ln = getattr(node, "lineno", None) or self.cur_line
        rel = self.cur_mod.rel if self.cur_mod is not None else "<client>"
        fn = self.funcs[-1].qual if self.funcs else "<module>"
        return (rel, ln, fn)

    def ev(self, kind, data, st, ast_node=None, node=None):
        self.events.append(Event(kind, data, self.site(ast_node),
                                 st.pc if st is not None else None,
                                 tuple(q for q, _ in self.stack), node))

    def mk(self, op, *args, **k):
        kw = k.get("kw", ())
        return self.g.mk(op, args, kw, k.get("val"), self.site(), k.get("extra"))

    def const(self, v):
        return self.g.const(v, self.site())

    # ---- heap helpers -----------------------------------------------------
    def alloc(self, st, kind, key, cls=None, tag=None):
        loc = (kind, key, self.ctx)
        h = HObj(kind, cls, tag, st.tok)
        st.heap[loc] = h
        return loc

    def ref(self, loc):
        n = self.g.mk("ref", val=loc if isinstance(loc, tuple) else (loc,))
        return n

    def new_list(self, st, elems, key=None, kind="list", summ=None, known=True):
        loc = self.alloc(st, kind, key if key is not None else ("l", self.cur_line))
        h = st.heap[loc]
        if known:
            h.elems = list(elems)
        h.summ = summ
        return self.ref(loc)

    def new_dict(self, st, items, key=None, summ=None):
        loc = self.alloc(st, "dict", key if key is not None else ("d", self.cur_line))
        h = st.heap[loc]
        h.attrs = dict(items)
        h.summ = summ
        return self.ref(loc)

    def hobj(self, n, st):
        return st.heap.get(n.val) if n.op == "ref" else None

    def alts(self, n, _seen=None):
        """Flatten phi/mu/join of heap references or callables."""
        if n.op not in ("phi", "mu", "join"):
            return [n]
        out, seen, stk = [], set(), [n]
        while stk:
            x = stk.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "phi":
                stk.extend(x.args[1:])
            elif x.op == "join":
                stk.extend(x.args)
            elif x.op == "mu":
                stk.extend(i for i in x.inputs if i is not None)
            elif x.op == "undef":
                continue
            else:
                out.append(x)
        out.sort(key=lambda z: z.id)
        return out

    def heapish(self, n):
        """Does n (possibly) denote heap objects / callables?"""
        if n.op in ("ref", "func", "class", "bound", "ext", "module", "builtin", "extmeth"):
            return True
        if n.op in ("phi", "mu", "join"):
            return any(a.op in ("ref", "func", "class", "bound", "module",
                                "ext", "builtin")
                       for a in self.alts(n))
        return False

    def join_nodes(self, ns):
        flat = []
        for n in ns:
            if n is None:
                continue
            if n.op == "join":
                flat.extend(n.args)
            else:
                flat.append(n)
        u = {n.id: n for n in flat if n.op != "undef"}
        if not u:
            return None
        if len(u) == 1:
            return next(iter(u.values()))
        return self.g.mk("join", [u[k] for k in sorted(u)])

    # ---- state joins ------------------------------------------------------
    def join2(self, a, b, cond):
        """Join two live states under a condition node (a when true)."""
        if a is None or a.dead:
            return b
        if b is None or b.dead:
            return a
        out = State(dict(a.heap), pc_common(a.pc, b.pc))

        def ph(x, y):
            if x is y:
                return x
            return self.g.mk("phi", (cond, x, y))
        for loc, hb in b.heap.items():
            ha = a.heap.get(loc)
            if ha is hb:
                continue
            if ha is None:
                out.heap[loc] = hb
                continue
            out.heap[loc] = self.join_h(ha, hb, ph, out.tok)
        return out

    def join_h(self, ha, hb, ph, tok):
        h = HObj(ha.kind, ha.cls, ha.tag or hb.tag, tok)
        if ha.cls is not hb.cls and ha.cls != hb.cls:
            h.cls = ha.cls
        U = self.UNDEF
        soft = ha.kind in ("dict",)
        ks = list(ha.attrs)
        ks += [k for k in hb.attrs if k not in ha.attrs]
        for k in ks:
            x = ha.attrs.get(k)
            y = hb.attrs.get(k)
            if x is y:
                h.attrs[k] = x
            else:
                h.attrs[k] = ph(x if x is not None else U,
                                y if y is not None else U)
        if ha.elems is not None and hb.elems is not None and \
                len(ha.elems) == len(hb.elems):
            h.elems = [x if x is y else ph(x, y)
                       for x, y in zip(ha.elems, hb.elems)]
            if ha.summ is not None or hb.summ is not None:
                h.summ = self.join_nodes([ha.summ, hb.summ])
        elif ha.elems is None and hb.elems is None:
            if ha.summ is hb.summ:
                h.summ = ha.summ
            elif ha.summ is None or hb.summ is None:
                h.summ = ha.summ if hb.summ is None else hb.summ
            else:
                h.summ = self.join_nodes([ha.summ, hb.summ])
        else:
            h.elems = None
            h.summ = self.join_nodes(
                (ha.elems or []) + (hb.elems or []) + [ha.summ, hb.summ])
        return h

    def join_many(self, items, base_pc):
        """items: list of (state, value-or-None).  Returns (state, value)."""
        items = [(s, v) for s, v in items if s is not None and not s.dead]
        if not items:
            return None, None
        s, v = items[0]
        for s2, v2 in items[1:]:
            c = pc_common(s.pc, s2.pc)
            cond = self.pc_cond(s.pc, c) or self.pc_cond(s2.pc, c) or \
                self.g.mk("somecond")
            if v is not v2:
                if v is None or v2 is None:
                    v = v or v2
                else:
                    v = self.g.mk("phi", (cond, v, v2))
            s = self.join2(s, s2, cond)
        return s, v

    @staticmethod
    def pc_cond(pc, upto):
        r = None
        while pc is not upto and pc is not None:
            r = pc.cond
            pc = pc.parent
        return r

    def loop_join(self, head, back, key, writes):
        """Merge back-edge state into the loop head; returns changed flag."""
        changed = False
        U = self.UNDEF
        for loc, hb in back.heap.items():
            ha = head.heap.get(loc)
            if ha is hb:
                continue
            if ha is None:
                head.heap[loc] = hb
                continue
            if loc in writes["fresh"]:
                head.heap[loc] = hb
                continue
            h = ha.clone(head.tok)
            ch = False
            for k in list(dict.fromkeys(list(ha.attrs) + list(hb.attrs))):
                x = ha.attrs.get(k, U)
                y = hb.attrs.get(k, U)
                if x is y:
                    continue
                mk = (key, loc, k)
                if x.op == "mu" and x.extra == mk:
                    if x.inputs[1] is not y:
                        x.inputs[1] = y
                        ch = True
                    continue
                m = self.g.mu(mk, self.site())
                m.inputs = [x, y]
                h.attrs[k] = m
                ch = True
            # sequences
            if ha.kind in ("list", "set", "dict"):
                if ha.elems is not None and hb.elems is not None and \
                        len(ha.elems) == len(hb.elems):
                    for i, (x, y) in enumerate(zip(ha.elems, hb.elems)):
                        if x is y:
                            continue
                        mk = (key, loc, ("e", i))
                        if x.op == "mu" and x.extra == mk:
                            if x.inputs[1] is not y:
                                x.inputs[1] = y
                                ch = True
                            continue
                        m = self.g.mu(mk, self.site())
                        m.inputs = [x, y]
                        h.elems[i] = m
                        ch = True
                else:
                    if ha.elems is not None:
                        x = self.join_nodes(ha.elems + [ha.summ])
                        h.elems = None
                        ch = True
                    else:
                        x = ha.summ
                    if hb.elems is not None:
                        y = self.join_nodes(hb.elems + [hb.summ])
                    else:
                        y = hb.summ
                    mk = (key, loc, "summ")
                    if x is y:
                        h.summ = x
                    elif x is not None and x.op == "mu" and x.extra == mk:
                        if y is not None and x.inputs[1] is not y:
                            x.inputs[1] = y
                            ch = True
                        h.summ = x
                    elif y is None:
                        h.summ = x
                    else:
                        m = self.g.mu(mk, self.site())
                        if m.inputs[0] is not x or m.inputs[1] is not y:
                            ch = True
                        m.inputs = [x if x is not None else U, y]
                        h.summ = m
                        ch = True
            if ch:
                head.heap[loc] = h
                changed = True
        return changed

    # ---- modules ----------------------------------------------------------
    def load_module(self, name, st):
        loc = self.modlocs.get(name)
        if loc is not None and loc in st.heap:
            return loc
        mod = self.program.modules.get(name)
        if mod is None:
            return None
        loc = ("module", name)
        self.modlocs[name] = loc
        h = HObj("module", mod, None, st.tok)
        st.heap[loc] = h
        h.attrs["__name__"] = self.const(name)
        # load parents first
        if "." in name:
            par = name.rsplit(".", 1)[0]
            self.load_module(par, st)
        save = (self.cur_mod, self.funcs, self.ctx, self.ctx_stack, self.cur_line,
                self.raise_sinks, self.stack)
        self.cur_mod, self.funcs = mod, []
        self.ctx, self.ctx_stack = self.intern(("mod", name)), []
        self.raise_sinks = [[]]
        self.stack = [("<module %s>" % name, None)]
        fl = Flow()
        old_pc = st.pc
        r = self.exec_block(mod.tree.body, st, fl, ("module", name))
        if r is not None and r is not st:
            st.become(r)
        if r is None:
            self.ev("module_failed", name, st)
            st.dead = False
        st.pc = old_pc
        (self.cur_mod, self.funcs, self.ctx, self.ctx_stack, self.cur_line,
         self.raise_sinks, self.stack) = save
        return loc

    def mod_attr(self, loc, name, st, imp=False):
        h = st.heap.get(loc)
        v = h.attrs.get(name) if h is not None else None
        if v is not None:
            return v
        sub = "%s.%s" % (loc[1], name)
        if sub in self.program.modules and (imp or ("module", sub) in st.heap):
            self.load_module(sub, st)
            return self.g.mk("module", val=sub)
        return None

    def import_from(self, modname, name, st, node):
        if modname.split(".")[0] in self.program_roots():
            loc = self.load_module(modname, st)
            if loc is None:
                self.ev("import_error", modname, st, node)
                return self.mk("unknown", val="import %s" % modname)
            v = self.mod_attr(loc, name, st, True)
            if v is None:
                self.ev("import_error", "%s.%s" % (modname, name), st, node)
                return self.mk("unknown", val="import %s.%s" % (modname, name))
            return v
        return self.ext("%s.%s" % (modname, name))

    def program_roots(self):
        return {m.split(".")[0] for m in self.program.modules}

    EXT_CONST = {"numpy.newaxis": None, "autograd.numpy.newaxis": None,
                 "typing.TYPE_CHECKING": False}

    def ext(self, name):
        if name in self.EXT_CONST:
            return self.const(self.EXT_CONST[name])
        if name in ("numpy.pi", "autograd.numpy.pi", "math.pi", "scipy.pi",
                    "scipy.constants.pi"):
            return self.g.mk("pi")
        return self.g.mk("ext", val=name)

    # ---- environments -----------------------------------------------------
    def lookup(self, name, st, env, node):
        e = env
        while e is not None:
            h = st.heap.get(e)
            if h is None:
                break
            if name in h.attrs:
                v = h.attrs[name]
                return self.check_undef(v, name, st, node)
            if h.kind == "env":
                fi = h.cls
                if fi is not None and fi.node is not None and not h.tag == "comp":
                    loc, _, _ = local_names(fi.node)
                    if name in loc:
                        self.ev("unbound", name, st, node)
                        self.do_raise(st, "UnboundLocalError", node, implicit=True)
                        return self.UNDEF
                e = h.attrs.get("%parent")
                e = e.val if e is not None else None
            elif h.kind == "class":
                e = h.attrs.get("%parent")
                e = e.val if e is not None else None
            else:
                break
        if name == "__SYM__":
            return self.g.mk("ext", val="SYM")
        if name == "__VJP__":
            return self.g.mk("ext", val="client.VJP")
        if name in ALL_BUILTINS:
            if name in ("True", "False", "None"):
                return self.const({"True": True, "False": False, "None": None}[name])
            if name == "__name__":
                return self.const("module")
            return self.g.mk("builtin", val=name)
        self.ev("undefined", name, st, node)
        self.do_raise(st, "NameError", node, implicit=True)
        return self.UNDEF

    def strip_undef(self, v, _seen=None):
        if v.op == "phi":
            a, b = v.args[1], v.args[2]
            if a.op == "undef":
                return self.strip_undef(b)
            if b.op == "undef":
                return self.strip_undef(a)
            a2, b2 = self.strip_undef(a), self.strip_undef(b)
            if a2 is a and b2 is b:
                return v
            if a2.op == "undef":
                return b2
            if b2.op == "undef":
                return a2
            return self.g.mk("phi", (v.args[0], a2, b2))
        return v

    def has_undef(self, v):
        """'no' | 'loop' (only through a loop head) | 'yes' | 'all'"""
        if v.op == "undef":
            return "all"
        res, seen, stk, any_def = "no", set(), [(v, False)], False
        while stk:
            x, thru = stk.pop()
            if (x.id, thru) in seen:
                continue
            seen.add((x.id, thru))
            if x.op == "undef":
                if thru:
                    res = res if res == "yes" else "loop"
                else:
                    res = "yes"
            elif x.op == "phi":
                stk.extend((y, thru) for y in x.args[1:])
            elif x.op == "mu":
                stk.extend((y, True) for y in x.inputs if y is not None)
            else:
                any_def = True
        if res != "no" and not any_def:
            return "all"
        return res

    def check_undef(self, v, name, st, node):
        if v.op not in ("undef", "phi", "mu"):
            return v
        u = self.has_undef(v)
        if u == "no":
            return v
        if u == "yes":
            v2 = self.under_pc(v, st.pc)
            if v2 is not v:
                return self.check_undef(v2, name, st, node)
        if u == "all":
            self.ev("unbound", name, st, node)
            self.do_raise(st, "UnboundLocalError", node, implicit=True)
            return self.UNDEF
        self.ev("maybe_unbound" if u == "yes" else "maybe_unbound_loop",
                name, st, node, v)
        return self.strip_undef(v)

    def under_pc(self, v, pc):
        """Select phi operands whose condition is decided by the path."""
        known = {}
        while pc is not None:
            for c, p in self.implied(pc.cond, pc.pol):
                known.setdefault(c.id, p)
            pc = pc.parent
        n = 0
        while v.op == "phi" and n < 50:
            n += 1
            c, p = v.args[0], True
            while c.op == "not":
                c, p = c.args[0], not p
            k = known.get(c.id)
            if k is None and c.op == "cmp" and c.val in NEG:
                m = self.g.mk("cmp", c.args, val=NEG[c.val])
                k = known.get(m.id)
                k = None if k is None else not k
            if k is None:
                break
            v = v.args[1] if k == p else v.args[2]
        return v

    @staticmethod
    def implied(c, p):
        out = []
        stk = [(c, p)]
        while stk:
            c, p = stk.pop()
            out.append((c, p))
            if c.op == "not":
                stk.append((c.args[0], not p))
            elif c.op == "and" and p:
                stk.extend((x, True) for x in c.args)
            elif c.op == "or" and not p:
                stk.extend((x, False) for x in c.args)
        return out

    def assign_name(self, name, v, st, env):
        h = st.heap[env]
        if h.kind == "env" and h.cls is not None and h.tag != "comp":
            loc, glob, nonl = local_names(h.cls.node)
            if name in glob:
                mloc = ("module", h.cls.module.name)
                st.w(mloc).attrs[name] = v
                self.ev("global_write", (h.cls.module.name, name), st)
                return
            if name in nonl:
                e = h.attrs.get("%parent")
                e = e.val if e is not None else None
                while e is not None and name not in st.heap[e].attrs:
                    p = st.heap[e].attrs.get("%parent")
                    e = p.val if p is not None else None
                if e is not None:
                    st.w(e).attrs[name] = v
                    return
        st.w(env).attrs[name] = v

    # ---- statements -------------------------------------------------------
    def exec_block(self, stmts, st, fl, env):
        """Executes in place; returns st (live) or None when control leaves."""
        for s in stmts:
            self.n_stmts += 1
            self.cur_line = getattr(s, "lineno", self.cur_line)
            r = self.exec_stmt(s, st, fl, env)
            if r is None or r.dead:
                return None
            if r is not st:
                st.become(r)
        return st

    def exec_stmt(self, s, st, fl, env):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.internal.append(("unsupported %s" % type(s).__name__, self.site(s)))
            return st
        save = (self.ctx, len(self.ctx_stack), len(self.stack), len(self.funcs),
                self.cur_mod, len(self.raise_sinks))
        try:
            return m(s, st, fl, env)
        except (AnalysisError, RecursionError, MemoryError):
            raise
        except Exception as e:
            # a construct the machinery mishandles is skipped and reported as
            # an unmodelled statement in the evidence, never as a verdict
            if os.environ.get("SA_STRICT"):
                raise
            self.ctx, self.cur_mod = save[0], save[4]
            del self.ctx_stack[save[1]:]
            del self.stack[save[2]:]
            del self.funcs[save[3]:]
            del self.raise_sinks[save[5]:]
            self.internal.append(("%s: %s" % (type(e).__name__, e), self.site(s)))
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and \
                        isinstance(s, (ast.Assign, ast.AugAssign, ast.For, ast.With,
                                       ast.If, ast.While, ast.Try)):
                    self.assign_name(n.id, self.mk("unknown", val="unmodelled",
                                                   extra=id(n)), st, env)
            return None if st.dead else st

    def live(self, st):
        return None if st.dead else st

    def s_Expr(self, s, st, fl, env):
        if isinstance(s.value, ast.Constant):
            return st
        self.eval(s.value, st, env)
        return self.live(st)

    def s_Pass(self, s, st, fl, env):
        return st

    def s_Global(self, s, st, fl, env):
        return st

    s_Nonlocal = s_Global

    def s_Assign(self, s, st, fl, env):
        v = self.eval(s.value, st, env)
        if st.dead:
            return None
        for t in s.targets:
            self.assign(t, v, st, env)
            if st.dead:
                return None
        return st

    def s_AnnAssign(self, s, st, fl, env):
        if s.value is None:
            return st
        v = self.eval(s.value, st, env)
        if st.dead:
            return None
        self.assign(s.target, v, st, env)
        return self.live(st)

    def s_AugAssign(self, s, st, fl, env):
        t = s.target
        op = BINOPS.get(type(s.op), "binop")
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, st, env, t)
            if st.dead:
                return None
            v = self.eval(s.value, st, env)
            if st.dead:
                return None
            h = self.hobj(old, st)
            if h is not None and h.kind == "list" and op == "add":
                self.list_extend(old, v, st, s)
                return st
            new = self.binop(op, old, v, st, s, inplace=True)
            self.augstore(old, new, st, s, env)
            self.assign_name(t.id, new, st, env)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st, env)
            if st.dead:
                return None
            old = self.getattr(base, t.attr, st, t)
            if st.dead:
                return None
            v = self.eval(s.value, st, env)
            if st.dead:
                return None
            h = self.hobj(old, st)
            if h is not None and h.kind == "list" and op == "add":
                self.list_extend(old, v, st, s)
                return st
            new = self.binop(op, old, v, st, s, inplace=True)
            self.augstore(old, new, st, s, env)
            self.setattr(base, t.attr, new, st, t)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st, env)
            if st.dead:
                return None
            idx = self.eval_index(t.slice, st, env)
            if st.dead:
                return None
            old = self.getitem(base, idx, st, t)
            v = self.eval(s.value, st, env)
            if st.dead:
                return None
            new = self.binop(op, old, v, st, s, inplace=True)
            self.setitem(base, idx, new, st, t, env, t.value)
        return self.live(st)

    def augstore(self, old, new, st, s, env):
        """x op= v mutates in place when x is an array."""
        if old.op in ("const", "undef", "pi"):
            return
        self.ev("augassign", None, st, s, old)
        if self.is_array(old):
            self.replace_all(old, new, st)

    def is_array(self, n):
        x = n
        for _ in range(8):
            while x.op == "primres":
                x = x.args[0]
            if x.op == "call":
                return x.val.split(".")[-1] in ARRAYISH
            if x.op in ("store", "seq", "sumseq"):
                return True
            if x.op in ("add", "sub", "mul", "div") and x.args:
                a = [y for y in x.args if y.op not in ("const", "pi")]
                if not a:
                    return False
                return any(self.is_array(y) for y in a) if _ < 3 else False
            if x.op == "meth" and x.val in ("ravel", "reshape", "transpose",
                                            "flatten", "astype", "copy"):
                return True
            if x.op == "sym":
                return x.extra in ("array", "kpoints")
            return False
        return False

    def replace_all(self, old, new, st):
        if old is new or old.op in ("const", "undef", "pi", "ext"):
            return
        for loc, h in list(st.heap.items()):
            hit = False
            for v in h.attrs.values():
                if v is old:
                    hit = True
                    break
            if not hit and h.elems is not None:
                hit = any(v is old for v in h.elems)
            if not hit and h.summ is not old:
                continue
            w = st.w(loc)
            for k, v in list(w.attrs.items()):
                if v is old:
                    w.attrs[k] = new
            if w.elems is not None:
                w.elems = [new if v is old else v for v in w.elems]
            if w.summ is old:
                w.summ = new

    def s_Return(self, s, st, fl, env):
        v = self.eval(s.value, st, env) if s.value is not None else self.NONE
        if st.dead:
            return None
        fl.rets.append((st.fork(), v))
        return None

    def s_Break(self, s, st, fl, env):
        fl.brks.append(st.fork())
        return None

    def s_Continue(self, s, st, fl, env):
        fl.conts.append(st.fork())
        return None

    def s_Delete(self, s, st, fl, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.w(env).attrs[t.id] = self.UNDEF
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st, env)
                for a in self.alts(b):
                    h = self.hobj(a, st)
                    if h is not None and h.kind == "obj":
                        st.w(a.val).attrs[t.attr] = self.UNDEF
                        self.ev("hmut", (a.val, "delattr " + t.attr), st, s, a)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st, env)
                self.ev("mutate", "del", st, s, b)
                for a in self.alts(b):
                    h = self.hobj(a, st)
                    if h is not None:
                        self.ev("hmut", (a.val, "del"), st, s, a)
                        self.to_summary(a, st)
        return self.live(st)

    def s_Assert(self, s, st, fl, env):
        c = self.eval(s.test, st, env)
        if st.dead:
            return None
        t = self.truth(c, st)
        if t is False:
            self.do_raise(st, "AssertionError", s)
            return None
        if t is None:
            f = st.fork()
            self.refine(f, c, False, s)
            self.do_raise(f, "AssertionError", s)
            st.pc = PC(st.pc, c, True, self.site(s))
        return st

    def s_Raise(self, s, st, fl, env):
        name, v = "Exception", None
        if s.exc is not None:
            v = self.eval(s.exc, st, env)
            if st.dead:
                return None
            if v.op == "builtin":
                name = v.val
            elif v.op == "exc":
                name = v.val
            elif v.op == "tuple":
                name = "TypeError"
                self.ev("raise_nonexc", None, st, s)
            else:
                name = "Exception"
        self.do_raise(st, name, s, v)
        return None

    def do_raise(self, st, name, node, v=None, implicit=False):
        self.ev("raise", (name, implicit), st, node, v)
        f = st.fork()
        f.dead = False
        self.raise_sinks[-1].append((f, name, self.site(node), implicit))
        st.dead = True

    def s_If(self, s, st, fl, env):
        c = self.eval(s.test, st, env)
        if st.dead:
            return None
        t = self.truth(c, st)
        if t is True:
            return self.exec_block(s.body, st, fl, env)
        if t is False:
            return self.exec_block(s.orelse, st, fl, env)
        a, b = st.fork(), st.fork()
        self.refine(a, c, True, s)
        self.refine(b, c, False, s)
        ra = None if a.dead else self.exec_block(s.body, a, fl, env)
        rb = None if b.dead else self.exec_block(s.orelse, b, fl, env)
        if ra is None:
            return rb
        if rb is None:
            return ra
        out = self.join2(ra, rb, c)
        return out

    def refine(self, st, c, pol, node):
        st.pc = PC(st.pc, c, pol, self.site(node))

    def s_FunctionDef(self, s, st, fl, env):
        f = self.make_func(s, st, env)
        for d in reversed(s.decorator_list):
            dn = self.eval(d, st, env)
            f = self.decorate(dn, f, st, d)
        self.assign_name(s.name, f, st, env)
        return self.live(st)

    def decorate(self, dn, f, st, node):
        if dn.op == "builtin" and dn.val in ("property",):
            return self.g.mk("property", (f,))
        if dn.op == "builtin" and dn.val == "staticmethod":
            return self.g.mk("static", (f,))
        if dn.op == "builtin" and dn.val == "classmethod":
            return self.g.mk("clsmeth", (f,))
        if dn.op == "propset":
            return self.g.mk("property", (dn.args[0].args[0], f))
        return self.call(dn, [f], {}, st, node)

    def make_func(self, s, st, env):
        a = s.args
        pos = list(a.posonlyargs) + list(a.args)
        defaults = {}
        for arg, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            v = self.eval(d, st, env)
            if v.op == "ref" and v.val in st.heap:
                st.w(v.val).tag = ("default", getattr(s, "name", "<lambda>"), arg.arg)
                self.tags[v.val] = st.w(v.val).tag
            elif v.op == "call":
                self.default_nodes[v.id] = (getattr(s, "name", "<lambda>"), arg.arg)
            defaults[arg.arg] = v
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                v = self.eval(d, st, env)
                if v.op == "ref" and v.val in st.heap:
                    st.w(v.val).tag = ("default", getattr(s, "name", "<lambda>"),
                                       arg.arg)
                    self.tags[v.val] = st.w(v.val).tag
                defaults[arg.arg] = v
        name = getattr(s, "name", "<lambda>")
        h = st.heap.get(env)
        cls = env if h is not None and h.kind == "class" else None
        if cls is not None:
            qual = "%s.%s" % (h.attrs["__name__"].val, name)
        elif self.funcs:
            qual = "%s.%s" % (self.funcs[-1].qual, name)
        else:
            qual = name
        qual2 = "%s:%s" % (self.cur_mod.name if self.cur_mod else "client", qual) \
            if not self.funcs else qual
        closure = env
        if cls is not None:
            # class scopes are not visible from methods
            p = h.attrs.get("%parent")
            closure = p.val if p is not None else None
        key = (id(s), closure, tuple(sorted((k, v.id) for k, v in defaults.items())))
        fi = self.finfo.get(key)
        if fi is None:
            fi = FuncInfo(name, qual2, s, self.cur_mod, closure, defaults, None, cls)
            self.finfo[key] = fi
        return self.g.mk("func", val=fi)

    def s_ClassDef(self, s, st, fl, env):
        bases = [self.eval(b, st, env) for b in s.bases]
        loc = ("class", "%s.%s" % (self.cur_mod.name if self.cur_mod else "client",
                                   s.name))
        h = HObj("class", None, None, st.tok)
        h.attrs["__name__"] = self.const(s.name)
        h.attrs["%parent"] = self.ref(env)
        h.elems = bases
        st.heap[loc] = h
        f2 = Flow()
        self.exec_block(s.body, st, f2, loc)
        c = self.g.mk("class", val=loc, extra=s.name)
        for d in reversed(s.decorator_list):
            dn = self.eval(d, st, env)
            if dn.op not in ("ext", "unknown"):
                c = self.call(dn, [c], {}, st, d)
        self.assign_name(s.name, c, st, env)
        return self.live(st)

    def s_Import(self, s, st, fl, env):
        for al in s.names:
            if al.name.split(".")[0] in self.program_roots():
                self.load_module(al.name, st)
                if al.asname:
                    v = self.g.mk("module", val=al.name)
                    self.assign_name(al.asname, v, st, env)
                else:
                    top = al.name.split(".")[0]
                    self.load_module(top, st)
                    self.assign_name(top, self.g.mk("module", val=top), st, env)
            else:
                if al.asname:
                    self.assign_name(al.asname, self.ext(al.name), st, env)
                else:
                    top = al.name.split(".")[0]
                    self.assign_name(top, self.ext(top), st, env)
        return st

    def s_ImportFrom(self, s, st, fl, env):
        mod = s.module or ""
        if s.level:
            base = self.cur_mod.name.split(".")
            if not self.cur_mod.is_pkg:
                base = base[:-1]
            if s.level > 1:
                base = base[:-(s.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        for al in s.names:
            if al.name == "*":
                if mod.split(".")[0] in self.program_roots():
                    loc = self.load_module(mod, st)
                    for k, v in list(st.heap[loc].attrs.items()):
                        if not k.startswith("_"):
                            self.assign_name(k, v, st, env)
                continue
            v = self.import_from(mod, al.name, st, s)
            self.assign_name(al.asname or al.name, v, st, env)
        return st

    def s_With(self, s, st, fl, env):
        for it in s.items:
            v = self.eval(it.context_expr, st, env)
            if st.dead:
                return None
            if it.optional_vars is not None:
                self.assign(it.optional_vars, self.mk("enter", v), st, env)
        return self.exec_block(s.body, st, fl, env)

    def s_Try(self, s, st, fl, env):
        sink = []
        self.raise_sinks.append(sink)
        snaps = []
        cur = st
        bodyst = st.fork()
        live = bodyst
        evmark = len(self.events)
        has_import = any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in s.body)
        for x in s.body:
            if not isinstance(x, (ast.Import, ast.ImportFrom, ast.Pass)):
                snaps.append(live.fork())
            self.cur_line = getattr(x, "lineno", self.cur_line)
            r = self.exec_stmt(x, live, fl, env)
            if r is None or r.dead:
                live = None
                break
            live = r
        self.raise_sinks.pop()
        if live is not None and s.orelse:
            live = self.exec_block(s.orelse, live, fl, env)
        outs = []
        if live is not None and not live.dead:
            outs.append((live, None))
        remaining = list(sink)
        for hd in s.handlers:
            names = self.handler_names(hd, st, env)
            caught = [r for r in remaining if names is None or
                      EXC_PARENTS.get(r[1], {r[1], "Exception", "BaseException"}) & names]
            remaining = [r for r in remaining if r not in caught]
            # implicit exceptions of unmodelled operations reach only generic
            # handlers
            generic = names is None or names & {"Exception", "BaseException"} or \
                (names & {"KeyError", "IndexError", "TypeError", "ValueError",
                          "LookupError"})
            ins = [(c[0], None) for c in caught]
            for c in caught:
                # the raise is handled: drop its event
                pass
            if generic and not has_import and self.site(s)[0] != "<client>":
                maybe = self.g.mk("mayraise", val=("%s:%d" % (self.site(s)[0], s.lineno)))
                for sn in snaps:
                    f = sn.fork()
                    f.pc = PC(f.pc, maybe, True, self.site(hd))
                    ins.append((f, None))
            if not ins:
                continue
            for c in caught:
                self.ev("handled", (c[1], c[2]), st, hd)
                self.handled_sites.add((c[1], c[2]))
            hs, _ = self.join_many(ins, st.pc)
            if hd.name:
                self.assign_name(hd.name, self.mk("exc", val="caught"), hs, env)
            r = self.exec_block(hd.body, hs, fl, env)
            if r is not None:
                outs.append((r, None))
        for r in remaining:
            self.raise_sinks[-1].append(r)
        out, _ = self.join_many(outs, st.pc)
        if s.finalbody:
            # returns inside try also run the finally block
            if out is not None:
                out = self.exec_block(s.finalbody, out, fl, env)
            else:
                tmp = st.fork()
                self.exec_block(s.finalbody, tmp, Flow(), env)
        return out

    def handler_names(self, hd, st, env):
        if hd.type is None:
            return None
        v = self.eval(hd.type, st, env)
        if v.op == "tuple":
            return {x.val for x in v.args if x.op == "builtin"}
        if v.op == "builtin":
            return {v.val}
        return {"Exception"} if v.op == "ext" else {"?"}

    # ---- loops ------------------------------------------------------------
    def s_For(self, s, st, fl, env):
        it = self.eval(s.iter, st, env)
        if st.dead:
            return None
        seq = self.concrete_iter(it, st)
        if seq is not None and len(seq) <= self.max_unroll:
            brks = []
            cur = st
            for i, v in enumerate(seq):
                self.push_ctx(("u", id(s), i))
                self.assign(s.target, v, cur, env)
                sub = Flow()
                sub.rets = fl.rets
                r = self.exec_block(s.body, cur, sub, env)
                self.pop_ctx()
                brks += sub.brks
                ins = ([(r, None)] if r is not None else []) + \
                    [(c, None) for c in sub.conts]
                cur, _ = self.join_many(ins, st.pc)
                if cur is None:
                    break
            if cur is not None and s.orelse:
                cur = self.exec_block(s.orelse, cur, fl, env)
            outs = ([(cur, None)] if cur is not None else []) + \
                [(b, None) for b in brks]
            out, _ = self.join_many(outs, st.pc)
            return out
        return self.fix_loop(s, st, fl, env, it)

    def s_While(self, s, st, fl, env):
        brks = []
        if not isinstance(s.test, ast.Constant):
            # a loop whose conditions are known is a straight line
            pc = st.pc
            start, ev0, cur = st, len(self.events), st.fork()
            nret, nrai = len(fl.rets), len(self.raise_sinks[-1])
            done = False
            for i in range(MAX_RANGE if self.oracle is not None
                           else min(self.max_unroll, MAX_RANGE)):
                ev = len(self.events)
                probe = cur.fork()
                t = self.truth(self.eval(s.test, probe, env), probe)
                del self.events[ev:]
                if t is not True or probe.dead:
                    done = t is False
                    break
                self.push_ctx(("u", id(s), i))
                self.eval(s.test, cur, env)
                sub = Flow()
                sub.rets = fl.rets
                r = self.exec_block(s.body, cur, sub, env)
                self.pop_ctx()
                brks += sub.brks
                ins = ([(r, None)] if r is not None else []) + \
                    [(c, None) for c in sub.conts]
                cur, _ = self.join_many(ins, pc)
                if cur is None:
                    done = True
                    break
            if not done and self.oracle is None:
                brks, cur = [], start
                del self.events[ev0:], fl.rets[nret:]
                del self.raise_sinks[-1][nrai:]
            if cur is None:
                out, _ = self.join_many([(b, None) for b in brks], pc)
                return out
            out = self.fix_loop(s, cur, fl, env, None)
            if not brks:
                return out
            out, _ = self.join_many(([(out, None)] if out is not None else []) +
                                    [(b, None) for b in brks], pc)
            return out
        return self.fix_loop(s, st, fl, env, None)

    def fix_loop(self, s, st, fl, env, it):
        key = (id(s), self.ctx)
        head = st.fork()
        evmark = len(self.events)
        known = set(st.heap)
        base_pc = st.pc
        for itn in range(MAX_FIX):
            del self.events[evmark:]
            sub = Flow()
            sink = []
            self.raise_sinks.append(sink)
            cur = head.fork()
            cur.pc = base_pc
            exits = []
            if it is None:
                c = self.eval(s.test, cur, env)
                t = None if cur.dead else self.truth(c, cur)
                if cur.dead:
                    self.raise_sinks.pop()
                    self.raise_sinks[-1].extend(sink)
                    return None
                if t is not True:
                    e = cur.fork()
                    exits.append(e)
                if t is False and itn == 0:
                    self.raise_sinks.pop()
                    self.raise_sinks[-1].extend(sink)
                    if s.orelse:
                        return self.exec_block(s.orelse, cur, fl, env)
                    return cur
                lc = c
            else:
                lc = self.g.mk("loopcond", (self.snapshot(it, head),), extra=key)
                e = cur.fork()
                exits.append(e)
            cur.pc = PC(base_pc, lc, True, self.site(s))
            if it is not None:
                self.push_ctx(("b", id(s)))
                v = self.iter_elem(it, cur, key, s)
                self.assign(s.target, v, cur, env)
                r = self.exec_block(s.body, cur, sub, env)
                self.pop_ctx()
            else:
                self.push_ctx(("b", id(s)))
                r = self.exec_block(s.body, cur, sub, env)
                self.pop_ctx()
            self.raise_sinks.pop()
            ins = ([(r, None)] if r is not None else []) + \
                [(c2, None) for c2 in sub.conts]
            back, _ = self.join_many(ins, base_pc)
            if back is None:
                if self.nonempty and it is not None:
                    exits = []
                break
            fresh = {l for l in back.heap if l not in known}
            if not self.loop_join(head, back, key, {"fresh": fresh}):
                break
        else:
            self.loop_warn += 1
        fl.rets.extend(sub.rets)
        self.raise_sinks[-1].extend(sink)
        for e in exits:
            e.pc = base_pc
        outs = [(e, None) for e in exits]
        if s.orelse and outs:
            o, _ = self.join_many(outs, base_pc)
            r = self.exec_block(s.orelse, o, fl, env)
            outs = [(r, None)] if r is not None else []
        # variables bound only inside the body: treat the zero-iteration case
        outs += [(b, None) for b in sub.brks]
        out, _ = self.join_many(outs, base_pc)
        if out is not None:
            out.pc = base_pc
        return out

    def concrete_iter(self, it, st):
        """List of element nodes when the iterable is precisely known."""
        if it.op == "tuple":
            return list(it.args)
        if it.op == "const" and isinstance(it.val, (str, tuple)):
            return [self.const(c) for c in it.val]
        if it.op == "ref":
            h = st.heap.get(it.val)
            if h is None:
                return None
            if h.kind in ("list", "set") and h.elems is not None and h.summ is None:
                return list(h.elems)
            if h.kind == "dict" and h.summ is None:
                if all(self.has_undef(v) == "no" for v in h.attrs.values()):
                    return [self.const(k) for k in h.attrs]
                return None
            if h.kind == "obj" and h.attrs.get("%iter") is not None:
                return None
        if it.op == "range":
            vals = [a.val if a.op == "const" else None for a in it.args]
            if self.oracle is not None:
                vals = [self.oracle.cint(a, st) if v is None else v
                        for v, a in zip(vals, it.args)]
            if all(isinstance(v, int) for v in vals):
                r = range(*vals)
                if len(r) <= MAX_RANGE:
                    return [self.const(i) for i in r]
            return None
        if it.op == "seq":
            return list(it.args)
        if it.op == "call" and it.val in ("numpy.array", "autograd.numpy.array") and \
                it.args and it.args[0].op == "seq":
            return list(it.args[0].args)
        if it.op == "index" and len(it.args) == 2 and it.args[1].op == "slice" and \
                all(a.op == "const" and (a.val is None or isinstance(a.val, int))
                    for a in it.args[1].args):
            xs = self.concrete_iter(it.args[0], st)
            if xs is not None:
                return xs[slice(*[a.val for a in it.args[1].args])]
        if it.op == "pyiter":
            kind = it.extra
            subs = [self.concrete_iter(a, st) for a in it.args]
            if any(x is None for x in subs):
                return None
            if kind == "enumerate":
                return [self.g.mk("tuple", (self.const(i), v))
                        for i, v in enumerate(subs[0])]
            if kind == "zip":
                return [self.g.mk("tuple", t) for t in zip(*subs)]
            if kind == "reversed":
                return subs[0][::-1]
        if self.oracle is not None and it.op in ITER_OPS and \
                not (it.op == "phi" and self.heapish(it)):
            n = self.oracle.length(it, st)
            if n is not None and n <= MAX_ORACLE:
                return [self.g.mk("index", (it, self.const(i)), site=it.site) for i in range(n)]
        return None

    def iter_elem(self, it, st, key, node=None):
        """Symbolic element of an iterable."""
        idx = self.g.mk("iteridx", extra=key, site=self.site(node))
        return self.elem_at(it, idx, st, key)

    def elem_at(self, it, idx, st, key):
        if it.op == "range":
            a = it.args
            if len(a) == 1:
                return self.g.mk("rangeidx", (self.const(0), a[0], self.const(1), idx))
            if len(a) == 2:
                return self.g.mk("rangeidx", (a[0], a[1], self.const(1), idx))
            return self.g.mk("rangeidx", (a[0], a[1], a[2], idx))
        if it.op == "pyiter":
            if it.extra == "enumerate":
                return self.g.mk("tuple", (idx, self.elem_at(it.args[0], idx, st, key)))
            if it.extra == "zip":
                return self.g.mk("tuple", [self.elem_at(a, idx, st, key)
                                           for a in it.args])
            if it.extra == "reversed":
                return self.elem_at(it.args[0],
                                    self.g.mk("revidx", (idx,)), st, key)
            if it.extra == "ziplongest*":
                inner = self.elem_at(self.elem_at(it.args[0],
                                                  self.g.mk("anyidx"), st, key),
                                     idx, st, key)
                return self.new_list(st, [], ("zl", key), summ=inner, known=False)
            if it.extra == "filter":
                return self.elem_at(it.args[0], idx, st, key)
        if it.op == "tuple" or it.op == "seq":
            j = self.join_nodes(it.args)
            return self.g.mk("item", (j, idx)) if j is not None and \
                not self.heapish(j) else (j or self.UNDEF)
        if it.op == "ref":
            h = st.heap.get(it.val)
            if h is not None and h.kind in ("list", "set"):
                j = self.join_nodes((h.elems or []) + [h.summ])
                if j is None:
                    return self.mk("unknown", val="elem of empty list")
                if self.heapish(j) or j.op == "tuple":
                    return j
                return self.g.mk("item", (j, idx))
            if h is not None and h.kind == "dict":
                return self.g.mk("dictkey", (it, idx))
            if h is not None and h.kind == "obj":
                return self.mk("unknown", val="iter obj")
        if it.op in ("phi", "mu", "join") and self.heapish(it):
            return self.join_nodes([self.elem_at(a, idx, st, key)
                                    for a in self.alts(it)]) or self.UNDEF
        return self.g.mk("item", (it, idx))

    # ---- assignment targets ----------------------------------------------
    def assign(self, t, v, st, env):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, st, env)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st, env)
            if st.dead:
                return
            self.setattr(b, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st, env)
            if st.dead:
                return
            idx = self.eval_index(t.slice, st, env)
            if st.dead:
                return
            self.setitem(b, idx, v, st, t, env, t.value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            parts = self.unpack(v, n, st, t) if not star else None
            if star:
                seq = self.concrete_iter(v, st)
                i = star[0]
                if seq is not None and len(seq) >= n - 1:
                    k = len(seq) - (n - 1)
                    mid = self.new_list(st, seq[i:i + k], ("star", id(t)))
                    parts = seq[:i] + [mid] + seq[i + k:]
                else:
                    parts = [self.elem_at(v, self.const(j), st, None)
                             for j in range(n)]
            for e, p in zip(t.elts, parts):
                self.assign(e.value if isinstance(e, ast.Starred) else e, p, st, env)
                if st.dead:
                    return
        else:
            self.internal.append(("assign target %s" % type(t).__name__, self.site(t)))

    def unpack(self, v, n, st, node):
        if v.op in ("phi",) and any(a.op == "tuple" or a.op == "ref"
                                    for a in self.alts(v)):
            if v.args[1].op == "undef":
                return self.unpack(v.args[2], n, st, node)
            if v.args[2].op == "undef":
                return self.unpack(v.args[1], n, st, node)
            a = self.unpack(v.args[1], n, st, node)
            b = self.unpack(v.args[2], n, st, node)
            return [x if x is y else self.g.mk("phi", (v.args[0], x, y))
                    for x, y in zip(a, b)]
        if v.op in ("join", "mu") and any(a.op == "tuple" for a in self.alts(v)):
            cols = [self.unpack(a, n, st, node) for a in self.alts(v)
                    if a.op == "tuple"]
            return [self.join_nodes(c) for c in zip(*cols)]
        seq = self.concrete_iter(v, st)
        if seq is not None:
            if len(seq) != n:
                self.ev("unpack_mismatch", (len(seq), n), st, node)
                seq = (seq + [self.mk("unknown", val="unpack")] * n)[:n]
            return seq
        out = []
        for i in range(n):
            out.append(self.getitem(v, self.const(i), st, node, unpack=True))
        return out

    # ---- attribute access -------------------------------------------------
    def mro(self, cloc, st):
        out, stk = [], [cloc]
        while stk:
            c = stk.pop(0)
            if c in out:
                continue
            out.append(c)
            h = st.heap.get(c)
            if h is None:
                continue
            for b in (h.elems or []):
                if b.op == "class":
                    stk.append(b.val)
        return out

    def class_attr(self, cloc, name, st):
        for c in self.mro(cloc, st):
            h = st.heap.get(c)
            if h is not None and name in h.attrs and not name.startswith("%"):
                return h.attrs[name], c
        return None, None

    def has_ext_base(self, cloc, st):
        for c in self.mro(cloc, st):
            h = st.heap.get(c)
            for b in (h.elems or []) if h is not None else []:
                if b.op in ("ext", "unknown"):
                    return True
        return False

    def getattr(self, b, name, st, node, default=None):
        if b.op in ("phi", "mu", "join") and self.heapish(b):
            al = [a for a in self.alts(b) if not (a.op == "const" and a.val is None)] \
                or self.alts(b)
            vs = []
            for a in al:
                f = st
                v = self.getattr(a, name, st, node, default)
                if st.dead:
                    # only some alternatives fail
                    st.dead = False
                    continue
                vs.append(v)
            if not vs:
                st.dead = True
                return self.UNDEF
            if b.op == "phi" and len(vs) == 2 and len(al) == 2 and \
                    b.args[1] is al[0] and b.args[2] is al[1]:
                return vs[0] if vs[0] is vs[1] else \
                    self.g.mk("phi", (b.args[0], vs[0], vs[1]))
            if b.op == "phi" and len(vs) == 2 and len(al) == 2 and \
                    b.args[1] is al[1] and b.args[2] is al[0]:
                return vs[0] if vs[0] is vs[1] else \
                    self.g.mk("phi", (b.args[0], vs[1], vs[0]))
            return self.join_nodes(vs)
        if b.op == "ref":
            h = st.heap.get(b.val)
            if h is None:
                return self.mk("unknown", val="dangling")
            if h.kind == "obj":
                return self.obj_getattr(b, h, name, st, node, default)
            if h.kind == "module":
                b = self.g.mk("module", val=b.val[1])
            elif h.kind in ("list", "dict", "set"):
                return self.g.mk("cmeth", (b,), val=name)
        if b.op == "module":
            v = self.mod_attr(("module", b.val), name, st)
            if v is None:
                self.ev("missing_attr", ("module " + b.val, name), st, node)
                self.do_raise(st, "AttributeError", node, implicit=True)
                return self.UNDEF
            return self.check_undef(v, name, st, node)
        if b.op == "class":
            if name == "__name__":
                return self.const(b.extra)
            v, c = self.class_attr(b.val, name, st)
            if v is None:
                if default is not None:
                    return default
                self.ev("missing_attr", (b.extra, name), st, node)
                self.do_raise(st, "AttributeError", node, implicit=True)
                return self.UNDEF
            if v.op == "static":
                return v.args[0]
            if v.op == "clsmeth":
                return self.g.mk("bound", (v.args[0], b))
            return v
        if b.op == "ext":
            return self.ext("%s.%s" % (b.val, name))
        if b.op == "superobj":
            selfn, cls = b.args
            h = st.heap.get(selfn.val)
            mro = self.mro(h.cls, st)
            i = mro.index(cls.val) if cls.val in mro else -1
            for c in mro[i + 1:]:
                hc = st.heap.get(c)
                if hc is not None and name in hc.attrs:
                    v = hc.attrs[name]
                    if v.op == "func":
                        return self.g.mk("bound", (v, selfn))
                    return v
            if name == "__init__":
                return self.g.mk("builtin", val="object.__init__")
            self.ev("missing_attr", ("super", name), st, node)
            return self.mk("unknown", val="super." + name)
        if b.op in ("func", "bound", "builtin"):
            if name == "__name__":
                return self.const(b.val.name if b.op == "func" else "f")
            if b.op == "func":
                v = self.func_attr(b, st).get(name)
                if v is not None:
                    return v
            return self.g.mk("attr", (b,), val=name)
        if b.op == "property" and name == "setter":
            return self.g.mk("propset", (b,))
        if b.op == "const" and isinstance(b.val, str):
            return self.g.mk("smeth", (b,), val=name)
        if b.op == "const" and b.val is None:
            if default is not None:
                return default
            self.ev("none_attr", name, st, node)
            self.do_raise(st, "AttributeError", node, implicit=True)
            return self.UNDEF
        if b.op == "tuple":
            return self.g.mk("cmeth", (b,), val=name)
        if name == "T":
            return self.g.mk("call", (self.snapshot(b, st),), val="numpy.transpose",
                             site=self.site(node))
        if name in ("real", "imag"):
            return self.g.mk("call", (self.snapshot(b, st),), val="numpy." + name,
                             site=self.site(node))
        return self.g.mk("attr", (b,), val=name, site=self.site(node))

    def func_attr(self, f, st):
        loc = ("fattr", id(f.val))
        h = st.heap.get(loc)
        return h.attrs if h is not None else {}

    def obj_getattr(self, b, h, name, st, node, default=None):
        if name == "__class__":
            c = h.cls
            return self.g.mk("class", val=c,
                             extra=st.heap[c].attrs["__name__"].val)
        if name == "__dict__":
            return self.new_dict(st, dict(h.attrs), ("dict", b.val))
        v = h.attrs.get(name)
        cv, c = self.class_attr(h.cls, name, st) if h.cls is not None else (None, None)
        if cv is not None and cv.op == "property":
            return self.call(self.g.mk("bound", (cv.args[0], b)), [], {}, st, node)
        if v is not None:
            self.ev("attr_read", (b.val, name), st, node, v)
            u = self.has_undef(v) if v.op in ("undef", "phi", "mu") else "no"
            if u == "no":
                return v
            if u == "all":
                v = None
            else:
                if default is not None:
                    return self.join_nodes([self.strip_undef(v), default])
                self.ev("maybe_attr" if u == "yes" else "maybe_attr_loop",
                        (b.val, name), st, node, v)
                f = st.fork()
                f.pc = PC(f.pc, self.g.mk("attrmissing", (v,)), True, self.site(node))
                self.raise_sinks[-1].append((f, "AttributeError", self.site(node), True))
                return self.strip_undef(v)
        if cv is not None:
            if cv.op == "func":
                return self.g.mk("bound", (cv, b))
            if cv.op == "static":
                return cv.args[0]
            if cv.op == "clsmeth":
                return self.g.mk("bound", (cv.args[0],
                                           self.g.mk("class", val=h.cls)))
            self.ev("cattr_read", (c, name), st, node, cv)
            return cv
        if default is not None:
            return default
        if h.cls is not None and self.class_attr(h.cls, "__getattr__", st)[0] is not None:
            return self.mk("unknown", val="__getattr__")
        if h.cls is not None and self.has_ext_base(h.cls, st):
            return self.g.mk("attr", (b,), val=name)
        if name in ("__init__",):
            return self.g.mk("builtin", val="object.__init__")
        if name.startswith("__") and name.endswith("__"):
            return self.g.mk("attr", (b,), val=name)
        self.ev("missing_attr", (self.clsname(h, st), name), st, node)
        self.do_raise(st, "AttributeError", node, implicit=True)
        return self.UNDEF

    def clsname(self, h, st):
        if h.cls is None:
            return h.kind
        return st.heap[h.cls].attrs["__name__"].val

    def setattr(self, b, name, v, st, node):
        al = self.alts(b)
        refs = [a for a in al if a.op == "ref"]
        for a in al:
            if a.op == "ref":
                h = st.heap.get(a.val)
                if h is None:
                    continue
                if h.kind == "module":
                    st.w(a.val).attrs[name] = v
                    self.ev("global_write", (a.val[1], name), st, node)
                    continue
                if name == "__class__":
                    if v.op == "class":
                        w = st.w(a.val)
                        w.cls = v.val
                    self.ev("class_write", (a.val,), st, node, v)
                    continue
                cv, c = self.class_attr(h.cls, name, st) if h.cls else (None, None)
                if cv is not None and cv.op == "property":
                    if len(cv.args) > 1:
                        self.call(self.g.mk("bound", (cv.args[1], a)), [v], {},
                                  st, node)
                        if st.dead:
                            return
                    else:
                        self.ev("set_readonly", (self.clsname(h, st), name), st, node)
                        self.do_raise(st, "AttributeError", node, implicit=True)
                        return
                    continue
                self.ev("attr_write", (a.val, name), st, node, v)
                w = st.w(a.val)
                if len(refs) > 1:
                    old = w.attrs.get(name, self.UNDEF)
                    w.attrs[name] = old if old is v else \
                        self.g.mk("phi", (self.g.mk("whichobj", (b,)), v, old))
                else:
                    w.attrs[name] = v
            elif a.op == "module":
                st.w(("module", a.val)).attrs[name] = v
                self.ev("global_write", (a.val, name), st, node)
            elif a.op == "class":
                st.w(a.val).attrs[name] = v
                self.ev("global_write", (a.extra, name), st, node)
            elif a.op in ("func", "bound"):
                f = a if a.op == "func" else a.args[0]
                loc = ("fattr", id(f.val))
                if loc not in st.heap:
                    st.heap[loc] = HObj("obj", None, None, st.tok)
                st.w(loc).attrs[name] = v
                self.ev("global_write", ("function " + f.val.qual, name), st, node)
            elif a.op == "ext":
                self.ev("global_write", (a.val, name), st, node)
            else:
                self.ev("mutate", "setattr " + name, st, node, a)

    # ---- subscripts -------------------------------------------------------
    def eval_index(self, sl, st, env):
        if isinstance(sl, ast.Slice):
            parts = []
            for x in (sl.lower, sl.upper, sl.step):
                parts.append(self.eval(x, st, env) if x is not None else self.NONE)
                if st.dead:
                    return self.UNDEF
            return self.g.mk("slice", parts)
        if isinstance(sl, ast.Tuple):
            parts = []
            for x in sl.elts:
                parts.append(self.eval_index(x, st, env))
                if st.dead:
                    return self.UNDEF
            return self.g.mk("tuple", parts)
        v = self.eval(sl, st, env)
        return v

    def getitem(self, b, idx, st, node, unpack=False):
        if b.op in ("phi", "mu", "join") and (self.heapish(b) or
                                              any(a.op == "tuple" for a in self.alts(b))):
            al = [a for a in self.alts(b) if a.op in ("ref", "tuple")]
            rest = [a for a in self.alts(b) if a.op not in ("ref", "tuple", "undef")
                    and not (a.op == "const" and a.val is None)]
            vs = [self.getitem(a, idx, st, node, unpack) for a in al + rest]
            if b.op == "phi" and len(vs) == 2 and not rest:
                if b.args[1] is al[0] and b.args[2] is al[1]:
                    return vs[0] if vs[0] is vs[1] else \
                        self.g.mk("phi", (b.args[0], vs[0], vs[1]))
                if b.args[1] is al[1] and b.args[2] is al[0]:
                    return vs[0] if vs[0] is vs[1] else \
                        self.g.mk("phi", (b.args[0], vs[1], vs[0]))
            return self.join_nodes(vs) or self.UNDEF
        if b.op == "ref":
            h = st.heap.get(b.val)
            if h is not None and h.kind == "dict":
                return self.dict_get(b, h, idx, st, node)
            if h is not None and h.kind in ("list", "set"):
                return self.list_get(b, h, idx, st, node)
            if h is not None and h.kind == "obj" and h.cls is not None:
                m, _ = self.class_attr(h.cls, "__getitem__", st)
                if m is not None and m.op == "func":
                    return self.call(self.g.mk("bound", (m, b)), [idx], {}, st, node)
        if b.op in ("tuple", "seq"):
            r = self.seq_index(list(b.args), idx)
            if r is not None:
                return r if isinstance(r, Node) else self.g.mk("tuple", r)
            if b.op == "tuple":
                j = self.join_nodes(b.args)
                return j if j is not None else self.UNDEF
        if b.op == "const" and isinstance(b.val, str):
            if idx.op == "const" and isinstance(idx.val, int) and \
                    -len(b.val) <= idx.val < len(b.val):
                return self.const(b.val[idx.val])
        idx = self.snapshot(idx, st)
        if self.oracle is not None and b.op == "call" and canon(b.val) == "array" and \
                b.args and b.args[0].op == "seq" and len(b.args) == 1:
            r = self.seq_index(list(b.args[0].args), idx)
            if isinstance(r, Node) and r.op == "const":
                return r            # number stored in a literal array
        if unpack:
            return self.g.mk("part", (b,), val=idx.val, site=self.site(node))
        return self.g.mk("index", (self.snapshot(b, st), idx), site=self.site(node))

    @staticmethod
    def seq_index(els, idx):
        if idx.op == "const" and isinstance(idx.val, int) and \
                not isinstance(idx.val, bool):
            if -len(els) <= idx.val < len(els):
                return els[idx.val]
            return None
        if idx.op == "neg" and idx.args[0].op == "const":
            v = -idx.args[0].val
            if -len(els) <= v < len(els):
                return els[v]
        if idx.op == "slice":
            vs = []
            for a in idx.args:
                if a.op == "const" and (a.val is None or isinstance(a.val, int)):
                    vs.append(a.val)
                else:
                    return None
            return els[slice(*vs)]
        return None

    def list_get(self, b, h, idx, st, node):
        if h.elems is not None and h.summ is None:
            r = self.seq_index(h.elems, idx)
            if r is not None:
                if isinstance(r, Node):
                    return r
                return self.new_list(st, r, ("sl", id(node)))
            if idx.op == "const" and isinstance(idx.val, int):
                self.ev("index_error", (b.val, idx.val), st, node)
        j = self.join_nodes((h.elems or []) + [h.summ])
        if j is None:
            return self.mk("unknown", val="item of empty list")
        if idx.op == "slice":
            return self.new_list(st, [], ("sl", id(node)), summ=j, known=False)
        if self.heapish(j) or j.op == "tuple":
            return j
        return self.g.mk("item", (j, self.snapshot(idx, st)), site=self.site(node))

    def dict_get(self, b, h, idx, st, node, default=None):
        if idx.op == "const":
            v = h.attrs.get(idx.val)
            if v is not None:
                u = self.has_undef(v)
                if u == "no":
                    return v
                if u != "all":
                    self.ev("maybe_key", (b.val, idx.val), st, node)
                    v = self.strip_undef(v)
                    return v if default is None else self.join_nodes([v, default])
            if h.summ is not None:
                return self.join_nodes([h.summ] + ([default] if default else []))
            if default is not None:
                return default
            self.ev("key_error", (b.val, idx.val), st, node)
            self.do_raise(st, "KeyError", node, implicit=True)
            return self.UNDEF
        vs = [self.strip_undef(v) for v in h.attrs.values()] + [h.summ, default]
        j = self.join_nodes(vs)
        if j is None:
            return self.mk("unknown", val="dict get")
        if self.heapish(j):
            return j
        return self.g.mk("ditem", (j, self.snapshot(idx, st)), site=self.site(node))

    def setitem(self, b, idx, v, st, node, env, basexpr):
        al = self.alts(b)
        many = len([a for a in al if a.op == "ref"]) > 1
        for a in al:
            if a.op == "ref":
                h = st.heap.get(a.val)
                if h is None:
                    continue
                self.ev("hmut", (a.val, "setitem"), st, node, a)
                if h.kind == "dict":
                    w = st.w(a.val)
                    if idx.op == "const":
                        if many:
                            old = w.attrs.get(idx.val, self.UNDEF)
                            w.attrs[idx.val] = self.g.mk(
                                "phi", (self.g.mk("whichobj", (b,)), v, old))
                        else:
                            w.attrs[idx.val] = v
                    else:
                        w.summ = self.join_nodes([w.summ, v])
                elif h.kind == "list":
                    w = st.w(a.val)
                    if w.elems is not None and idx.op == "const" and \
                            isinstance(idx.val, int) and \
                            -len(w.elems) <= idx.val < len(w.elems) and not many:
                        w.elems[idx.val] = v
                    else:
                        self.to_summary(a, st)
                        w = st.w(a.val)
                        w.summ = self.join_nodes([w.summ, v])
                elif h.kind == "obj" and h.cls is not None:
                    m, _ = self.class_attr(h.cls, "__setitem__", st)
                    if m is not None and m.op == "func":
                        self.call(self.g.mk("bound", (m, a)), [idx, v], {}, st, node)
            elif a.op in ("undef",):
                pass
            else:
                self.ev("mutate", "setitem", st, node, a)
                new = self.g.mk("store", (a, self.snapshot(idx, st),
                                          self.snapshot(v, st)), site=self.site(node))
                if a is b:
                    self.replace_all(a, new, st)
                    if isinstance(basexpr, ast.Name):
                        self.assign_name(basexpr.id, new, st, env)
        if b.op in ("phi", "mu") and not self.heapish(b):
            new = self.g.mk("store", (b, self.snapshot(idx, st),
                                      self.snapshot(v, st)), site=self.site(node))
            self.replace_all(b, new, st)
            if isinstance(basexpr, ast.Name):
                self.assign_name(basexpr.id, new, st, env)

    def to_summary(self, r, st):
        w = st.w(r.val)
        if w.kind == "dict":
            w.summ = self.join_nodes([self.strip_undef(x) for x in w.attrs.values()]
                                     + [w.summ])
            w.attrs = {}
        elif w.elems is not None:
            w.summ = self.join_nodes(w.elems + [w.summ])
            w.elems = None

    # ---- snapshots --------------------------------------------------------
    def snapshot(self, n, st, depth=0):
        if n is None:
            return self.NONE
        if n.op == "ref":
            h = st.heap.get(n.val)
            if h is None or depth > 6:
                return n
            if h.kind in ("list", "set"):
                if h.elems is not None and h.summ is None:
                    return self.g.mk("seq", [self.snapshot(e, st, depth + 1)
                                             for e in h.elems])
                j = self.join_nodes((h.elems or []) + [h.summ])
                return self.g.mk("sumseq", (self.snapshot(j, st, depth + 1),)
                                 if j is not None else ())
            if h.kind == "dict":
                ks = sorted(h.attrs, key=repr)
                return self.g.mk("dictsnap",
                                 [self.snapshot(self.strip_undef(h.attrs[k]), st,
                                                depth + 1) for k in ks] +
                                 ([self.snapshot(h.summ, st, depth + 1)]
                                  if h.summ is not None else []),
                                 extra=tuple(map(str, ks)))
            return n
        if n.op == "tuple":
            a = [self.snapshot(x, st, depth + 1) for x in n.args]
            if all(x is y for x, y in zip(a, n.args)):
                return n
            return self.g.mk("tuple", a)
        if n.op in ("phi", "join") and self.heapish(n) and depth <= 6:
            al = [self.snapshot(a, st, depth + 1) for a in self.alts(n)]
            if n.op == "phi" and len(al) == 2 and not any(
                    x.op in ("phi", "mu", "join") for x in n.args[1:]):
                return self.g.mk("phi", (n.args[0],
                                         self.snapshot(n.args[1], st, depth + 1),
                                         self.snapshot(n.args[2], st, depth + 1)))
            return self.join_nodes(al) or n
        if n.op == "mu" and self.heapish(n) and depth <= 6:
            al = [self.snapshot(a, st, depth + 1) for a in self.alts(n)]
            return self.join_nodes(al) or n
        return n

    # ---- truth ------------------------------------------------------------
    def truth(self, n, st, _d=0):
        if n.op == "const":
            return bool(n.val)
        if n.op == "tuple":
            return len(n.args) > 0
        if n.op in ("func", "class", "bound", "module", "ext", "builtin"):
            return True
        if n.op == "pi":
            return True
        if n.op == "ref":
            h = st.heap.get(n.val)
            if h is None:
                return None
            if h.kind in ("list", "set") and h.elems is not None:
                if len(h.elems) > 0:
                    return True
                return False if h.summ is None else None
            if h.kind == "dict" and h.summ is None:
                if not h.attrs:
                    return False
                if any(self.has_undef(v) == "no" for v in h.attrs.values()):
                    return True
                return None
            if h.kind == "obj":
                return True
            return None
        if n.op == "phi" and _d < 4:
            a = self.truth(n.args[1], st, _d + 1)
            b = self.truth(n.args[2], st, _d + 1)
            if a is not None and a == b:
                return a
        if n.op == "not":
            t = self.truth(n.args[0], st, _d + 1)
            return None if t is None else not t
        if self.oracle is not None and (n.op in ("cmp", "and", "or") or n.op == "call" and isinstance(n.val, str) and
                                        canon(n.val) in ("any", "all", "iscomplexobj")):
            return self.oracle.truth(n, st)
        return None

    # ---- expressions ------------------------------------------------------
    def eval(self, e, st, env):
        if e is None:
            return self.NONE
        ln = getattr(e, "lineno", None)
        if ln:
            self.cur_line = ln
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.internal.append(("unsupported %s" % type(e).__name__, self.site(e)))
            return self.mk("unknown", val="unmodelled", extra=id(e))
        return m(e, st, env)

    def e_Constant(self, e, st, env):
        return self.const(e.value)

    def e_Name(self, e, st, env):
        return self.lookup(e.id, st, env, e)

    def e_NamedExpr(self, e, st, env):
        v = self.eval(e.value, st, env)
        if not st.dead:
            self.assign(e.target, v, st, env)
        return v

    def e_Attribute(self, e, st, env):
        b = self.eval(e.value, st, env)
        if st.dead:
            return self.UNDEF
        return self.getattr(b, e.attr, st, e)

    def e_Subscript(self, e, st, env):
        b = self.eval(e.value, st, env)
        if st.dead:
            return self.UNDEF
        i = self.eval_index(e.slice, st, env)
        if st.dead:
            return self.UNDEF
        return self.getitem(b, i, st, e)

    def e_Slice(self, e, st, env):
        return self.eval_index(e, st, env)

    def e_Tuple(self, e, st, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, env)
                seq = self.concrete_iter(v, st)
                if seq is None:
                    out.append(self.mk("star", self.snapshot(v, st)))
                else:
                    out.extend(seq)
            else:
                out.append(self.eval(x, st, env))
            if st.dead:
                return self.UNDEF
        return self.g.mk("tuple", out)

    def e_List(self, e, st, env):
        t = self.e_Tuple(e, st, env)
        if st.dead:
            return self.UNDEF
        if any(x.op == "star" for x in t.args):
            j = self.join_nodes([x for x in t.args if x.op != "star"] +
                                [self.elem_at(x.args[0], self.g.mk("anyidx"), st, None)
                                 for x in t.args if x.op == "star"])
            return self.new_list(st, [], id(e), summ=j, known=False)
        return self.new_list(st, t.args, id(e))

    def e_Set(self, e, st, env):
        t = self.e_Tuple(e, st, env)
        if st.dead:
            return self.UNDEF
        return self.new_list(st, t.args, id(e), kind="set")

    def e_Dict(self, e, st, env):
        items, summ = {}, None
        for k, v in zip(e.keys, e.values):
            vn = self.eval(v, st, env)
            if st.dead:
                return self.UNDEF
            if k is None:
                h = self.hobj(vn, st)
                if h is not None and h.kind == "dict":
                    items.update(h.attrs)
                    summ = self.join_nodes([summ, h.summ])
                else:
                    summ = self.join_nodes([summ, vn])
                continue
            kn = self.eval(k, st, env)
            if st.dead:
                return self.UNDEF
            if kn.op == "const":
                items[kn.val] = vn
            else:
                summ = self.join_nodes([summ, vn])
        return self.new_dict(st, items, id(e), summ)

    def e_Lambda(self, e, st, env):
        return self.make_func(e, st, env)

    def e_IfExp(self, e, st, env):
        c = self.eval(e.test, st, env)
        if st.dead:
            return self.UNDEF
        t = self.truth(c, st)
        if t is True:
            return self.eval(e.body, st, env)
        if t is False:
            return self.eval(e.orelse, st, env)
        a, b = st.fork(), st.fork()
        self.refine(a, c, True, e)
        self.refine(b, c, False, e)
        va = self.eval(e.body, a, env)
        vb = self.eval(e.orelse, b, env)
        if a.dead and b.dead:
            st.dead = True
            return self.UNDEF
        pc = st.pc
        st.become(self.join2(a, b, c))
        st.pc = pc
        if a.dead:
            return vb
        if b.dead:
            return va
        return va if va is vb else self.g.mk("phi", (c, va, vb))

    def e_BoolOp(self, e, st, env):
        is_and = isinstance(e.op, ast.And)
        vals = []
        pc0 = st.pc
        cur = None
        for i, x in enumerate(e.values):
            if i and vals:
                # later operands are evaluated conditionally
                st.pc = PC(st.pc, vals[-1], is_and, self.site(x))
            v = self.eval(x, st, env)
            if st.dead:
                if vals:
                    # the earlier operand may short-circuit
                    st.dead = False
                    st.pc = pc0
                    break
                return self.UNDEF
            t = self.truth(v, st)
            if t is not None and not vals:
                if is_and and t is False:
                    st.pc = pc0
                    return v
                if not is_and and t is True:
                    st.pc = pc0
                    return v
                if i < len(e.values) - 1:
                    continue
                st.pc = pc0
                return v
            if t is not None and vals:
                if is_and and t is False:
                    st.pc = pc0
                    return self.FALSE if not self.heapish(v) else v
                if not is_and and t is True:
                    st.pc = pc0
                    if all(self.boolish(a) for a in vals):
                        return self.TRUE
                    vals.append(v)
                    break
                if i < len(e.values) - 1 or self.boolish(v):
                    continue
            vals.append(v)
        st.pc = pc0
        if len(vals) == 1:
            return vals[0]
        return self.g.mk("and" if is_and else "or",
                         [self.snapshot(v, st) if not self.heapish(v) else v
                          for v in vals], site=self.site(e))

    @staticmethod
    def boolish(n):
        return n.op in ("cmp", "not", "and", "or") or \
            (n.op == "const" and isinstance(n.val, bool))

    def e_UnaryOp(self, e, st, env):
        v = self.eval(e.operand, st, env)
        if st.dead:
            return self.UNDEF
        if isinstance(e.op, ast.Not):
            t = self.truth(v, st)
            if t is not None:
                return self.const(not t)
            return self.g.mk("not", (self.snapshot(v, st),))
        if v.op == "const" and isinstance(v.val, (int, float, complex)):
            if isinstance(e.op, ast.USub):
                return self.const(-v.val)
            if isinstance(e.op, ast.UAdd):
                return v
        if isinstance(e.op, ast.USub):
            return self.mk("neg", self.snapshot(v, st))
        if isinstance(e.op, ast.UAdd):
            return v
        return self.mk("invert", self.snapshot(v, st))

    def e_BinOp(self, e, st, env):
        a = self.eval(e.left, st, env)
        if st.dead:
            return self.UNDEF
        b = self.eval(e.right, st, env)
        if st.dead:
            return self.UNDEF
        return self.binop(BINOPS.get(type(e.op), "binop"), a, b, st, e)

    def binop(self, op, a, b, st, node, inplace=False):
        if a.op == "const" and b.op == "const":
            try:
                x, y = a.val, b.val
                ok = isinstance(x, (int, float, complex)) and \
                    isinstance(y, (int, float, complex))
                # (a root stays symbolic: folding it would turn an exact number
                # into a rounded one, which no longer cancels)
                if ok and not (op == "pow" and (abs(y) > 64 or y != y.real // 1)):
                    r = {"add": lambda: x + y, "sub": lambda: x - y,
                         "mul": lambda: x * y, "div": lambda: x / y,
                         "pow": lambda: x ** y, "mod": lambda: x % y,
                         "fdiv": lambda: x // y, "band": lambda: x & y,
                         "bor": lambda: x | y}.get(op)
                    if r is not None:
                        return self.const(r())
                if op == "add" and isinstance(x, str) and isinstance(y, str):
                    return self.const(x + y)
                if op == "mul" and isinstance(x, str) and isinstance(y, int):
                    return self.const(x * y)
                if op == "mod" and isinstance(x, str) and isinstance(y, (str, int)):
                    return self.const(x % y)
            except Exception:
                pass
        if op == "mod" and a.op == "const" and isinstance(a.val, str) and b.op == "tuple" and \
                all(x.op == "const" and isinstance(x.val, (str, int, float)) for x in b.args):
            try:
                return self.const(a.val % tuple(x.val for x in b.args))
            except Exception:
                pass
        ha, hb = self.hobj(a, st), self.hobj(b, st)
        if ha is not None and ha.kind == "obj" and ha.cls is not None:
            nm = {"add": "__add__", "sub": "__sub__", "mul": "__mul__",
                  "div": "__truediv__"}.get(op)
            m, _ = self.class_attr(ha.cls, nm, st) if nm else (None, None)
            if m is not None and m.op == "func":
                return self.call(self.g.mk("bound", (m, a)), [b], {}, st, node)
        if op == "matmul":
            return self.g.mk("call", (self.snapshot(a, st), self.snapshot(b, st)),
                             val="numpy.dot", site=self.site(node))
        if op == "add":
            la = self.listlike(a, st)
            lb = self.listlike(b, st)
            if la is not None and lb is not None:
                key = ("cat", id(node))
                if a.op == "tuple" and b.op == "tuple":
                    return self.g.mk("tuple", a.args + b.args)
                if la[0] is not None and lb[0] is not None:
                    return self.new_list(st, la[0] + lb[0], key)
                j = self.join_nodes((la[0] or []) + (lb[0] or []) + [la[1], lb[1]])
                return self.new_list(st, [], key, summ=j, known=False)
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                h = self.hobj(x, st)
                if h is not None and h.kind == "list":
                    if h.elems is not None and h.summ is None and y.op == "const" \
                            and isinstance(y.val, int) and \
                            len(h.elems) * max(y.val, 0) <= 64:
                        return self.new_list(st, h.elems * y.val, ("rep", id(node)))
                    j = self.join_nodes((h.elems or []) + [h.summ])
                    return self.new_list(st, [], ("rep", id(node)), summ=j, known=False)
        return self.g.mk(op, (self.snapshot(a, st), self.snapshot(b, st)),
                         site=self.site(node))

    def listlike(self, n, st):
        if n.op == "tuple":
            return (list(n.args), None)
        if n.op == "ref":
            h = st.heap.get(n.val)
            if h is not None and h.kind == "list":
                if h.elems is not None and h.summ is None:
                    return (list(h.elems), None)
                return (None, self.join_nodes((h.elems or []) + [h.summ]))
        if n.op in ("phi", "mu", "join") and self.heapish(n):
            ls = [self.listlike(a, st) for a in self.alts(n)]
            if all(x is not None for x in ls):
                j = self.join_nodes(sum([(x[0] or []) + [x[1]] for x in ls], []))
                return (None, j)
        return None

    def e_Compare(self, e, st, env):
        a = self.eval(e.left, st, env)
        if st.dead:
            return self.UNDEF
        parts = []
        for op, r in zip(e.ops, e.comparators):
            b = self.eval(r, st, env)
            if st.dead:
                return self.UNDEF
            parts.append(self.compare(CMPOPS[type(op)], a, b, st, e))
            a = b
        if len(parts) == 1:
            return parts[0]
        if all(p.op == "const" for p in parts):
            return self.const(all(p.val for p in parts))
        if any(p.op == "const" and not p.val for p in parts):
            return self.FALSE
        return self.g.mk("and", parts)

    NONNONE = {"add", "sub", "mul", "div", "pow", "call", "meth", "neg", "store",
               "seq", "sumseq", "tuple", "ref", "func", "class", "bound", "ext",
               "builtin", "module", "index", "cmp", "iteridx", "rangeidx", "pi",
               "superobj", "fstr"}

    def by_identity(self, n, st):
        """An instance of a library/client class that compares by identity."""
        if n.op != "ref":
            return False
        h = self.hobj(n, st)
        return h is not None and h.kind == "obj" and h.cls is not None and \
            self.class_attr(h.cls, "__eq__", st)[0] is None and \
            not self.has_ext_base(h.cls, st)

    def compare(self, op, a, b, st, node):
        if a.op == "const" and b.op == "const":
            x, y = a.val, b.val
            try:
                r = {"eq": lambda: x == y, "ne": lambda: x != y,
                     "lt": lambda: x < y, "le": lambda: x <= y,
                     "gt": lambda: x > y, "ge": lambda: x >= y,
                     "is": lambda: (x is y) if x is None or y is None or
                     isinstance(x, bool) else x == y,
                     "isnot": lambda: (x is not y) if x is None or y is None or
                     isinstance(x, bool) else x != y,
                     "in": lambda: x in y, "notin": lambda: x not in y}[op]()
                return self.const(bool(r))
            except Exception:
                pass
        if op in ("in", "notin"):
            seq = self.concrete_iter(b, st)
            if seq is not None:
                if a.op == "const" and all(x.op == "const" for x in seq):
                    r = any(type(x.val) == type(a.val) and x.val == a.val or
                            x.val == a.val for x in seq)
                    return self.const(r if op == "in" else not r)
                if a.op in ("class", "builtin", "ext") and \
                        all(x.op in ("class", "builtin", "ext") for x in seq):
                    r = any(x is a for x in seq)
                    return self.const(r if op == "in" else not r)
                if not seq:
                    return self.const(op == "notin")
                if self.by_identity(a, st) and all(
                        self.by_identity(x, st) for x in seq):
                    r = any(x is a for x in seq)
                    return self.const(r if op == "in" else not r)
            h = self.hobj(b, st)
            if h is not None and h.kind == "dict" and a.op == "const":
                if a.val in h.attrs:
                    if self.has_undef(h.attrs[a.val]) == "no":
                        return self.const(op == "in")
                elif h.summ is None:
                    return self.const(op == "notin")
            return self.g.mk("cmp", (self.snapshot(a, st), self.snapshot(b, st)),
                             val=op, site=self.site(node))
        if op in ("is", "isnot", "eq", "ne"):
            pos = op in ("is", "eq")
            for x, y in ((a, b), (b, a)):
                if y.op == "const" and y.val is None:
                    if x.op in self.NONNONE:
                        if op in ("is", "isnot") or x.op != "call":
                            return self.const(not pos)
                    if x.op in ("sym",) and x.extra != "maybe_none":
                        return self.const(not pos)
                    if x.op in ("phi", "join", "mu"):
                        al = self.alts(x)
                        isn = [z.op == "const" and z.val is None for z in al]
                        if al and all(isn):
                            return self.const(pos)
                        if al and not any(isn) and all(
                                z.op in self.NONNONE or z.op in ("const", "sym")
                                for z in al):
                            return self.const(not pos)
            if a.op in ("class", "builtin", "ext", "module", "func") and \
                    b.op in ("class", "builtin", "ext", "module", "func"):
                return self.const((a is b) == pos)
            if op in ("eq", "ne") and a.op == b.op == "tuple":
                if len(a.args) != len(b.args):
                    return self.const(not pos)
                rs = [self.compare("eq", x, y, st, node)
                      for x, y in zip(a.args, b.args)]
                if any(r.op == "const" and not r.val for r in rs):
                    return self.const(not pos)
                if all(r.op == "const" for r in rs):
                    return self.const(pos)
            la, lb = self.hobj(a, st), self.hobj(b, st)
            if la is not None and lb is not None and la.kind == lb.kind == "list" and \
                    op in ("eq", "ne"):
                if la.elems is not None and lb.elems is not None and \
                        la.summ is None and lb.summ is None and \
                        len(la.elems) != len(lb.elems):
                    return self.const(not pos)
                if la.elems == [] and lb.elems == [] and la.summ is None and \
                        lb.summ is None:
                    return self.const(pos)
            if op in ("is", "isnot") and a.op == "ref" and b.op == "ref":
                return self.const((a is b) == pos)
            if a is b and op in ("eq", "ne") and a.op not in ("mu", "phi"):
                pass
        return self.g.mk("cmp", (self.snapshot(a, st), self.snapshot(b, st)), val=op,
                         site=self.site(node))

    def e_JoinedStr(self, e, st, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(self.const(v.value))
            else:
                x = self.eval(v.value, st, env)
                if st.dead:
                    return self.UNDEF
                if v.format_spec is not None:
                    self.eval(v.format_spec, st, env)
                parts.append(x)
        if all(p.op == "const" for p in parts) and \
                not any(isinstance(v, ast.FormattedValue) and
                        (v.format_spec or v.conversion not in (-1, 115))
                        for v in e.values):
            return self.const("".join(str(p.val) for p in parts))
        return self.g.mk("fstr", [self.snapshot(p, st) for p in parts])

    def e_FormattedValue(self, e, st, env):
        return self.eval(e.value, st, env)

    def e_Starred(self, e, st, env):
        return self.eval(e.value, st, env)

    def e_Await(self, e, st, env):
        return self.eval(e.value, st, env)

    def e_Yield(self, e, st, env):
        if e.value is not None:
            self.eval(e.value, st, env)
        return self.mk("unknown", val="yield")

    # comprehensions
    def comp(self, e, elt, st, env, kind):
        key = (id(e), self.ctx)
        cloc = self.alloc(st, "env", ("comp", id(e)), None, "comp")
        h = st.heap[cloc]
        h.attrs["%parent"] = self.ref(env)
        out, summ, exact = [], None, True

        def rec(i, exact_here):
            nonlocal summ, exact
            if i == len(e.generators):
                if kind == "dict":
                    k = self.eval(elt[0], st, cloc)
                    if st.dead:
                        return
                    v = self.eval(elt[1], st, cloc)
                    if st.dead:
                        return
                    if exact_here and k.op == "const":
                        out.append((k.val, v))
                    else:
                        exact = exact and False
                        summ = self.join_nodes([summ, v])
                    return
                v = self.eval(elt, st, cloc)
                if st.dead:
                    return
                if exact_here:
                    out.append(v)
                else:
                    exact = False
                    summ = self.join_nodes([summ, v])
                return
            g = e.generators[i]
            it = self.eval(g.iter, st, cloc if i else env)
            if st.dead:
                return
            seq = self.concrete_iter(it, st)
            if seq is not None and len(seq) <= self.max_unroll:
                elems = [(("u", id(g), j), v, True) for j, v in enumerate(seq)]
            else:
                exact = False
                elems = [(("b", id(g)),
                          None, False)]
            for cx, v, ex in elems:
                self.push_ctx(cx)
                if v is None:
                    v = self.iter_elem(it, st, (key, i), e)
                self.assign(g.target, v, st, cloc)
                ok = ex and exact_here
                skip = False
                pc0 = st.pc
                for c in g.ifs:
                    cn = self.eval(c, st, cloc)
                    if st.dead:
                        break
                    t = self.truth(cn, st)
                    if t is False:
                        skip = True
                        break
                    if t is None:
                        ok = False
                        st.pc = PC(st.pc, cn, True, self.site(c))
                if not skip and not st.dead:
                    rec(i + 1, ok)
                st.pc = pc0
                self.pop_ctx()
                if st.dead:
                    return
        rec(0, True)
        if st.dead:
            return self.UNDEF
        if kind == "dict":
            if exact:
                return self.new_dict(st, dict(out), id(e))
            return self.new_dict(st, dict(out), id(e), summ)
        if exact:
            return self.new_list(st, out, id(e), kind="set" if kind == "set" else "list")
        return self.new_list(st, [], id(e), kind="set" if kind == "set" else "list",
                             summ=self.join_nodes(out + [summ]), known=False)

    def e_ListComp(self, e, st, env):
        return self.comp(e, e.elt, st, env, "list")

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st, env):
        return self.comp(e, e.elt, st, env, "set")

    def e_DictComp(self, e, st, env):
        return self.comp(e, (e.key, e.value), st, env, "dict")

    # ---- calls ------------------------------------------------------------
    def e_Call(self, e, st, env):
        f = self.eval(e.func, st, env)
        if st.dead:
            return self.UNDEF
        line = self.cur_line
        if f.op == "builtin" and f.val == "super":
            return self.do_super(e, st, env)
        args, kw, star = [], {}, False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, env)
                if st.dead:
                    return self.UNDEF
                seq = self.concrete_iter(v, st)
                if seq is None:
                    args.append(self.g.mk("star", (v,)))
                else:
                    args.extend(seq)
            else:
                args.append(self.eval(a, st, env))
            if st.dead:
                return self.UNDEF
        for k in e.keywords:
            v = self.eval(k.value, st, env)
            if st.dead:
                return self.UNDEF
            if k.arg is None:
                for al in self.alts(v):
                    h = self.hobj(al, st)
                    if h is not None and h.kind == "dict":
                        for kk, vv in h.attrs.items():
                            kw[kk] = self.strip_undef(vv)
                        if h.summ is not None:
                            kw["**"] = h.summ
                    else:
                        kw["**"] = v
            else:
                kw[k.arg] = v
        self.cur_line = line
        return self.call(f, args, kw, st, e)

    def do_super(self, e, st, env):
        # zero-argument super in a method
        en = env
        while en is not None and st.heap[en].kind == "env" and \
                (st.heap[en].cls is None or st.heap[en].cls.cls is None):
            p = st.heap[en].attrs.get("%parent")
            en = p.val if p is not None else None
        h = st.heap.get(en)
        fi = h.cls
        first = fi.node.args.args[0].arg
        selfn = h.attrs[first]
        return self.g.mk("superobj", (selfn, self.g.mk("class", val=fi.cls)))

    def call(self, f, args, kw, st, node):
        self.callsites.add((self.site(node), getattr(node, "col_offset", 0)))
        if f.op in ("phi", "mu", "join"):
            outs = []
            for a in self.alts(f):
                s2 = st.fork()
                v = self.call(a, args, kw, s2, node)
                if not s2.dead:
                    s2.pc = PC(st.pc, self.g.mk("whichfn", (f,)), True, self.site(node))
                    outs.append((s2, v))
            if not outs:
                st.dead = True
                return self.UNDEF
            pc = st.pc
            s3, v3 = self.join_many(outs, st.pc)
            st.become(s3)
            st.pc = pc
            return v3
        if f.op == "func":
            return self.inline(f.val, args, kw, st, node)
        if f.op == "bound":
            g = f.args[0]
            if g.op == "func":
                return self.inline(g.val, [f.args[1]] + args, kw, st, node)
            return self.call(g, [f.args[1]] + args, kw, st, node)
        if f.op == "class":
            return self.instantiate(f, args, kw, st, node)
        if f.op == "static":
            return self.call(f.args[0], args, kw, st, node)
        if f.op == "partial":
            return self.call(f.args[0], list(f.args[1:]) + args,
                             dict(list(f.kw) + list(kw.items())), st, node)
        if f.op == "prim":
            return self.call_prim(f, args, kw, st, node)
        if f.op == "builtin":
            return self.call_builtin(f.val, args, kw, st, node)
        if f.op == "ext":
            return self.call_ext(f.val, args, kw, st, node)
        if f.op == "smeth":
            return self.str_method(f.args[0], f.val, args, kw, st, node)
        if f.op == "cmeth":
            return self.cont_method(f.args[0], f.val, args, kw, st, node)
        if f.op == "attr":
            return self.call_method(f.args[0], f.val, args, kw, st, node)
        if f.op == "ref":
            h = st.heap.get(f.val)
            if h is not None and h.kind == "obj" and h.cls is not None:
                m, _ = self.class_attr(h.cls, "__call__", st)
                if m is not None and m.op == "func":
                    return self.inline(m.val, [f] + args, kw, st, node)
        if f.op == "const":
            self.ev("call_nonfunc", repr(f.val), st, node)
            self.do_raise(st, "TypeError", node, implicit=True)
            return self.UNDEF
        self.ev("unknown_call", pp(f, 3), st, node, f)
        for a in list(args) + list(kw.values()):
            self.ev("escape", None, st, node, a)
        return self.g.mk("ucall", [self.snapshot(f, st)] +
                         [self.snapshot(a, st) for a in args],
                         [(k, self.snapshot(v, st)) for k, v in sorted(kw.items())],
                         site=self.site(node))

    def instantiate(self, c, args, kw, st, node):
        loc = self.alloc(st, "obj", (id(node), c.val), c.val)
        r = self.ref(loc)
        m, _ = self.class_attr(c.val, "__init__", st)
        if m is not None and m.op == "func":
            self.inline(m.val, [r] + args, kw, st, node)
            if st.dead:
                return self.UNDEF
        return r

    def bind(self, fi, args, kw, st, node):
        a = fi.node.args
        pos = [x.arg for x in list(a.posonlyargs) + list(a.args)]
        kwonly = [x.arg for x in a.kwonlyargs]
        out, extra = {}, []
        unk = None
        if any(x.op == "star" for x in args):
            unk = self.g.mk("unknown", val="star arg")
            i = next(i for i, x in enumerate(args) if x.op == "star")
            starv = args[i].args[0]
            rest = args[i + 1:]
            args = list(args[:i])
            n = len(pos) - len(args) - len([k for k in kw if k in pos]) 
            if a.vararg:
                extra_star = starv
            j = 0
            while n > 0 and len(args) < len(pos) and pos[len(args)] not in kw:
                args.append(self.elem_at(starv, self.const(j), st, None))
                j += 1
                n -= 1
        for i, v in enumerate(args):
            if i < len(pos):
                out[pos[i]] = v
            else:
                extra.append(v)
        kwrest = {}
        for k, v in kw.items():
            if k == "**":
                unk = unk or self.g.mk("unknown", val="**kwargs")
                continue
            if k in pos or k in kwonly:
                if k in out:
                    self.ev("bad_call", (fi.qual, "multiple values for '%s'" % k),
                            st, node)
                out[k] = v
            else:
                kwrest[k] = v
        if extra and not a.vararg:
            self.ev("bad_call", (fi.qual, "takes %d positional arguments, %d given" %
                                 (len(pos), len(args))), st, node)
            self.do_raise(st, "TypeError", node, implicit=True)
            return None
        if kwrest and not a.kwarg:
            self.ev("bad_call", (fi.qual, "unexpected keyword %s" %
                                 sorted(kwrest)), st, node)
            self.do_raise(st, "TypeError", node, implicit=True)
            return None
        for k in pos + kwonly:
            if k not in out:
                if k in fi.defaults:
                    out[k] = fi.defaults[k]
                    if unk is not None and kw.get("**") is not None:
                        out[k] = self.join_nodes([out[k], kw["**"]])
                elif unk is not None:
                    out[k] = kw.get("**") or unk
                else:
                    self.ev("bad_call", (fi.qual, "missing argument '%s'" % k),
                            st, node)
                    self.do_raise(st, "TypeError", node, implicit=True)
                    return None
        if a.vararg:
            out[a.vararg.arg] = self.g.mk("tuple", extra)
        if a.kwarg:
            loc = self.alloc(st, "dict", ("kw", id(node)))
            st.heap[loc].attrs = kwrest
            if "**" in kw:
                st.heap[loc].summ = kw["**"]
            out[a.kwarg.arg] = self.ref(loc)
        return out

    def inline(self, fi, args, kw, st, node):
        op = self.opaque.get(fi.qual)
        if op is not None:
            r = op(self, fi, args, kw, st, node)
            if r is not None:
                return r
        if len(self.stack) > MAX_DEPTH or \
                sum(1 for q, _ in self.stack if q == fi.qual) >= 4:
            self.ev("recursion", fi.qual, st, node)
            return self.g.mk("unknown", [self.snapshot(a, st) for a in args],
                             val="recursive " + fi.qual)
        b = self.bind(fi, args, kw, st, node)
        if b is None:
            return self.UNDEF
        self.inlined[fi.qual] = self.inlined.get(fi.qual, 0) + 1
        hook = self.hooks.get(fi.qual)
        if hook is not None:
            hook(self, fi, b, st, node)
        self.ev("enter", (fi.qual, b), st, node)
        self.push_ctx((id(node), id(fi.node)))
        eloc = self.alloc(st, "env", ("fn", id(fi.node)), fi)
        h = st.heap[eloc]
        h.attrs = dict(b)
        if fi.closure is not None:
            h.attrs["%parent"] = self.ref(fi.closure)
        csite = self.site(node)
        self.stack.append((fi.qual, csite))
        self.funcs.append(fi)
        save_mod, save_line = self.cur_mod, self.cur_line
        self.cur_mod = fi.module
        fl = Flow()
        pc0 = st.pc
        if isinstance(fi.node, ast.Lambda):
            v = self.eval(fi.node.body, st, eloc)
            ok = not st.dead
        else:
            r = self.exec_block(fi.node.body, st, fl, eloc)
            items = list(fl.rets)
            if r is not None and not r.dead:
                items.append((r, self.NONE))
            s2, v = self.join_many(items, pc0)
            if s2 is None:
                ok = False
            else:
                ok = True
                if s2 is not st:
                    st.become(s2)
        self.funcs.pop()
        self.stack.pop()
        self.cur_mod, self.cur_line = save_mod, save_line
        self.pop_ctx()
        if not ok:
            st.dead = True
            return self.UNDEF
        # keep early-return refinements only inside the callee, except when the
        # callee raised on the other side (a guard): those refine the caller.
        st.pc = self.guard_pc(st.pc, pc0)
        if v.op in ("phi", "undef") and self.has_undef(v) == "all":
            v = self.UNDEF
        self.ev("exit", (fi.qual, v), st, node, v)
        return v

    def guard_pc(self, pc, base):
        return pc if pc is not None and self._extends(pc, base) else base

    @staticmethod
    def _extends(pc, base):
        while pc is not base and pc is not None:
            pc = pc.parent
        return pc is base

    def call_prim(self, f, args, kw, st, node):
        """autograd primitive wrapping a function: opaque differentiable op."""
        inner = f.args[0]
        if inner.op == "func":
            v = self.call(inner, args, kw, st, node)
            if st.dead:
                return self.UNDEF
            return self.g.mk("primres", [v] + [self.snapshot(a, st) for a in args],
                             val=inner.val.name, extra=f.id, site=self.site(node))
        v = self.call(inner, args, kw, st, node)
        if st.dead:
            return self.UNDEF
        return self.g.mk("primres", [v] + [self.snapshot(a, st) for a in args],
                         val=str(inner.val), extra=f.id, site=self.site(node))

    # ---- builtins ---------------------------------------------------------
    def call_builtin(self, name, args, kw, st, node):
        from .models import builtin_call
        return builtin_call(self, name, args, kw, st, node)

    def call_ext(self, name, args, kw, st, node):
        from .models import ext_call
        return ext_call(self, name, args, kw, st, node)

    def str_method(self, s, name, args, kw, st, node):
        if all(a.op == "const" for a in args) and not kw and \
                name in ("lower", "upper", "strip", "startswith", "endswith",
                         "replace", "split", "title", "capitalize", "casefold", "find",
                         "count", "format", "lstrip", "rstrip", "isdigit", "isalpha"):
            try:
                r = getattr(s.val, name)(*[a.val for a in args])
                if isinstance(r, list):
                    return self.new_list(st, [self.const(x) for x in r],
                                         ("str", id(node)))
                return self.const(r)
            except Exception:
                pass
        if name == "join" and args:
            seq = self.concrete_iter(args[0], st)
            if seq is not None and all(x.op == "const" for x in seq):
                return self.const(s.val.join(str(x.val) for x in seq))
        return self.g.mk("fstr", [s] + [self.snapshot(a, st) for a in args])

    def list_extend(self, lst, v, st, node):
        self.ev("hmut", (lst.val, "extend"), st, node, lst)
        seq = self.concrete_iter(v, st)
        w = st.w(lst.val)
        if seq is not None and w.elems is not None:
            w.elems = w.elems + seq
            return
        self.to_summary(lst, st)
        w = st.w(lst.val)
        if seq is not None:
            w.summ = self.join_nodes([w.summ] + seq)
        else:
            w.summ = self.join_nodes([w.summ,
                                      self.elem_at(v, self.g.mk("anyidx"), st, None)])

    def cont_method(self, b, name, args, kw, st, node):
        from .models import container_method
        return container_method(self, b, name, args, kw, st, node)

    MUTATING = {"sort", "fill", "resize", "put", "partition", "itemset",
                "setflags", "sort_indices", "update", "append", "clear"}

    def call_method(self, b, name, args, kw, st, node):
        """Method call on a numeric / unknown value."""
        if b.op in ("func", "bound", "builtin"):
            return self.g.mk("ucall", (b,), val=name)
        if name in self.MUTATING:
            self.ev("mutate", "." + name, st, node, b)
            if name in ("sort", "fill") and self.is_array(b):
                new = self.g.mk("meth", [b] + [self.snapshot(a, st) for a in args],
                                val=name, site=self.site(node))
                self.replace_all(b, new, st)
                return self.NONE
        for a in list(args) + list(kw.values()):
            if a.op == "ref" and st.heap.get(a.val) is not None and \
                    st.heap[a.val].kind == "obj":
                self.ev("escape", name, st, node, a)
        if name == "dot":
            return self.g.mk("call", [self.snapshot(b, st)] +
                             [self.snapshot(a, st) for a in args], val="numpy.dot",
                             site=self.site(node))
        sargs = [self.snapshot(a, st) for a in args]
        if name == "transpose" and not args:
            return self.g.mk("call", (self.snapshot(b, st),), val="numpy.transpose",
                             site=self.site(node))
        if name in ("conj", "conjugate"):
            return self.g.mk("call", (self.snapshot(b, st),), val="numpy.conj",
                             site=self.site(node))
        if name == "argsort":
            return self.g.mk("call", [self.snapshot(b, st)] + sargs,
                             val="numpy.argsort", site=self.site(node))
        if name in ("sum", "max", "min"):
            return self.g.mk("call", [self.snapshot(b, st)] + sargs,
                             [(k, self.snapshot(v, st)) for k, v in sorted(kw.items())],
                             val="numpy." + name, site=self.site(node))
        return self.g.mk("meth", [self.snapshot(b, st)] + sargs,
                         [(k, self.snapshot(v, st)) for k, v in sorted(kw.items())],
                         val=name, site=self.site(node))

    # ---- client programs ---------------------------------------------------
    def run_client(self, src, name="client"):
        """Analyse a synthetic client program; returns (state, env bindings)."""
        tree = ast.parse(src)
        mod = Module(name, "<client>", "<client>", tree, False, src)
        self.program.modules.setdefault  # the client is not part of the package
        st = State()
        loc = ("module", name)
        h = HObj("module", mod, None, st.tok)
        st.heap[loc] = h
        self.cur_mod = mod
        self.funcs = []
        fl = Flow()
        self.raise_sinks = [[]]
        self.client_ctx = self.ctx
        r = self.exec_block(tree.body, st, fl, loc)
        self.final = r
        fin = r if r is not None else st
        for l, h in fin.heap.items():
            if h.kind == "class":
                nm = h.attrs["__name__"].val
                for c in self.mro(l, fin):
                    hc = fin.heap.get(c)
                    if hc is not None:
                        self.subclasses.setdefault(nm, set()).add(
                            hc.attrs["__name__"].val)
        return r
