"""Coinductive structural equivalence of two value graphs (bisimulation).

Two nodes are equivalent when their operators agree modulo the naming of the
numerical library (autograd.numpy = numpy, a primitive = the function it wraps)
and their operands are equivalent; loop-carried (mu) nodes, loop indices and
heap objects are assumed equivalent while their contents are compared."""
from .engine import canon

SYNONYM = {"true_divide": "divide", "absolute": "abs", "conjugate": "conj",
           "amax": "max", "amin": "min"}


def unwrap(n):
    while n.op == "primres":
        n = n.args[0]
    return n


def fname(v):
    if not isinstance(v, str):
        return v
    c = canon(v)
    return SYNONYM.get(c, c)


class Equiv(object):
    def __init__(self, I, st1, st2=None):
        self.I = I
        self.s1 = st1
        self.s2 = st2 or st1
        self.assumed = set()
        self.fwd, self.bwd = {}, {}
        self.diff = None
        self.pairs = 0

    def biject(self, a, b):
        """Loop indices / allocation identities correspond one to one."""
        x, y = self.fwd.get(a.id), self.bwd.get(b.id)
        if x is None and y is None:
            self.fwd[a.id], self.bwd[b.id] = b.id, a.id
            return True
        return x == b.id and y == a.id

    def fail(self, a, b, why):
        if self.diff is None:
            self.diff = (a, b, why)
        return False

    def eq(self, a, b):
        """Iterative worklist comparison."""
        stk = [(a, b)]
        while stk:
            a, b = stk.pop()
            a, b = unwrap(a), unwrap(b)
            if a is b or (a.id, b.id) in self.assumed:
                continue
            self.assumed.add((a.id, b.id))
            self.pairs += 1
            if a.op != b.op:
                return self.fail(a, b, "operator %s vs %s" % (a.op, b.op))
            o = a.op
            if o in ("const",):
                if a.val is not b.val and (type(a.val) is not type(b.val) or a.val != b.val):
                    return self.fail(a, b, "constant %r vs %r" % (a.val, b.val))
                continue
            if o == "clock":
                continue
            if o == "mu":
                for x, y in zip(a.inputs, b.inputs):
                    if (x is None) != (y is None):
                        return self.fail(a, b, "loop structure")
                    if x is not None:
                        stk.append((x, y))
                continue
            if o == "iteridx":
                if not self.biject(a, b):
                    return self.fail(a, b, "loop index")
                continue
            if o == "ref":
                ha, hb = self.s1.heap.get(a.val), self.s2.heap.get(b.val)
                if ha is None or hb is None or ha.kind != hb.kind:
                    return self.fail(a, b, "object kind")
                if ha.kind in ("module", "class", "env"):
                    if a.val != b.val:
                        return self.fail(a, b, "module or class")
                    continue
                if ha.cls != hb.cls:
                    return self.fail(a, b, "class of object")
                if ha.kind == "obj":
                    continue        # compared through the values actually read
                if set(ha.attrs) != set(hb.attrs):
                    return self.fail(a, b, "dictionary keys")
                for k in ha.attrs:
                    stk.append((ha.attrs[k], hb.attrs[k]))
                if (ha.elems is None) != (hb.elems is None) or \
                        (ha.elems is not None and len(ha.elems) != len(hb.elems)):
                    return self.fail(a, b, "list length")
                stk.extend(zip(ha.elems or [], hb.elems or []))
                if (ha.summ is None) != (hb.summ is None):
                    return self.fail(a, b, "list contents")
                if ha.summ is not None:
                    stk.append((ha.summ, hb.summ))
                continue
            if o in ("func", "class", "bound", "builtin", "lambda", "prim"):
                if o == "func" and a.val is not b.val and a.val.node is not b.val.node:
                    return self.fail(a, b, "function")
                stk.extend(zip(a.args, b.args))
                continue
            if fname(a.val) != fname(b.val):
                if not (isinstance(a.val, tuple) or isinstance(b.val, tuple)):
                    return self.fail(a, b, "%s %s vs %s" % (o, fname(a.val), fname(b.val)))
            if o in ("pyiter", "sym", "ext") and a.extra != b.extra:
                return self.fail(a, b, "%s kind" % o)
            if len(a.args) != len(b.args):
                return self.fail(a, b, "%s with %d vs %d operands" % (
                    fname(a.val) or o, len(a.args), len(b.args)))
            ka, kb = dict(a.kw), dict(b.kw)
            if set(ka) != set(kb):
                return self.fail(a, b, "keywords of %s" % fname(a.val))
            if o == "join":
                # order of alternatives is not significant
                xs, ys = list(a.args), list(b.args)
                stk.extend(zip(xs, ys))
                continue
            stk.extend(zip(a.args, b.args))
            stk.extend((ka[k], kb[k]) for k in ka)
        return True
