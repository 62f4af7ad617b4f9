"""Value-graph IR: hash-consed nodes produced by the abstract interpreter.

A node is an SSA-like value: an operator applied to operand nodes.  Control
joins are `phi(cond, a, b)`, loop-carried values are `mu` nodes with an initial
and a back-edge operand.  Nothing in here executes the analysed program.
"""
import sys

sys.setrecursionlimit(200000)


class Node(object):
    __slots__ = ("id", "op", "args", "kw", "val", "site", "inputs", "extra",
                 "__weakref__")

    def __init__(self, id, op, args, kw, val, site, extra):
        self.id = id
        self.op = op
        self.args = args
        self.kw = kw
        self.val = val
        self.site = site
        self.extra = extra
        self.inputs = None          # mu nodes only: [init, back]

    def __repr__(self):
        return "n%d:%s" % (self.id, self.op)

    def is_const(self):
        return self.op == "const"

    def operands(self):
        if self.op == "mu":
            return [x for x in self.inputs if x is not None]
        if self.kw:
            return list(self.args) + [v for _, v in self.kw]
        return list(self.args)


class Graph(object):
    def __init__(self):
        self.table = {}
        self.nodes = []

    def mk(self, op, args=(), kw=(), val=None, site=None, extra=None):
        if op == "const":
            key = ("const", type(val).__name__, repr(val))
        else:
            key = (op, tuple(a.id for a in args),
                   tuple((k, v.id) for k, v in kw), extra,
                   val if isinstance(val, (str, int, float, tuple)) or val is None
                   else id(val))
        n = self.table.get(key)
        if n is None:
            n = Node(len(self.nodes), op, tuple(args), tuple(kw), val, site, extra)
            self.nodes.append(n)
            self.table[key] = n
        return n

    def const(self, v, site=None):
        return self.mk("const", val=v, site=site)

    def mu(self, key, site=None):
        n = self.mk("mu", extra=key, site=site)
        if n.inputs is None:
            n.inputs = [None, None]
        return n


def walk(roots, stop=None):
    """All nodes reachable from roots through operands."""
    seen = {}
    st = list(roots)
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen[n.id] = n
        if stop is not None and stop(n):
            continue
        st.extend(n.operands())
    return seen.values()


def pp(n, depth=6, _d=0):
    """Pretty printer used in reports and for debugging."""
    if _d > depth:
        return "…"
    o = n.op
    if o == "const":
        return repr(n.val)
    if o in ("param", "ext", "sym"):
        return str(n.val)
    if o == "pi":
        return "pi"
    if o == "ref":
        return "&" + str(n.val)
    if o == "func":
        return "<func %s>" % n.val.name
    if o == "class":
        return "<class %s>" % n.extra
    if o == "mu":
        return "mu%d" % n.id
    if o == "iteridx":
        return "i%d" % n.id
    a = [pp(x, depth, _d + 1) for x in n.args]
    a += ["%s=%s" % (k, pp(v, depth, _d + 1)) for k, v in n.kw]
    sym = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**"}
    if o in sym and len(a) == 2:
        return "(%s %s %s)" % (a[0], sym[o], a[1])
    name = o if n.val is None or o != "call" else str(n.val)
    if o == "meth":
        name = "." + str(n.val)
    return "%s(%s)" % (name, ", ".join(a))
