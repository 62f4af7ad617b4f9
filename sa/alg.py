"""Element-wise algebraic view of array expressions of a value graph.

`Alg.el(node, idx)` is the exact normal form (sa.nf) of one element of the array
denoted by a node, as a function of index terms: indexing, slicing, broadcasting,
outer/dot/sum/transpose/stack/store are resolved symbolically.  What has no rule
becomes an opaque atom; comparisons involving opaque atoms are inconclusive."""
import itertools
import math
from fractions import Fraction as Fr

from .engine import canon
from . import rnd
from .nf import Alg0, ONE_M, F0, F1, TooBig

TINY = 1e-6
ELEM1 = {"exp", "sin", "cos", "tan", "sqrt", "abs", "real", "imag", "conj", "square",
         "conjugate", "negative", "sinh", "cosh", "tanh", "log", "asarray", "j1", "special.j1",
         "scipy.special.j1", "autograd.scipy.special.j1", "array", "copy", "int_", "float_",
         "sqrt_ag", "ascontiguousarray", "sign", "angle", "arctan", "arccos", "arcsin", "sinc", "asanyarray",
         "floor", "ceil", "int32", "int64", "intp", "isnan", "logical_not", "round", "nan_to_num"}
ELEM2 = {"arctan2", "maximum", "minimum", "remainder", "mod", "hypot", "logical_and", "logical_or",
         "multiply", "divide", "add", "subtract", "power"}


# sparse matrices: the same elements as the dense ones
SPARSE = {"scipy.sparse.coo_matrix", "scipy.sparse.csr_matrix", "scipy.sparse.csc_matrix", "scipy.sparse.bsr_matrix",
          "coo_matrix", "csr_matrix", "csc_matrix", "bsr_matrix"}
# functions returning positions in an array
POSFN = {"argsort", "argmin", "argmax", "nonzero", "where", "flatnonzero", "argwhere", "searchsorted", "truepos"}
# functions of whole arrays: congruent, otherwise uninterpreted
AFN = {"eigh": True, "eigsh": True, "eigvalsh": True, "eig": False, "inv": False, "argsort": True,
       "argmin": True, "argmax": True, "sort": True, "unique": True, "nonzero": True, "where": True,
       "flatnonzero": True, "argwhere": True, "cumsum": True, "interp": False, "solve": False,
       "toeplitz_block": False, "amax": True, "amin": True, "max": True, "min": True,
       "scipy.sparse.eigsh": True, "builtins.sorted": True, "searchsorted": True, "extend": False}


class Unk(Exception):
    """no rule: the value is not understood at this point"""


PHYS = {"elementary_charge": "e", "Planck": "h", "speed_of_light": "c", "electron_mass": "m_e",
        "Boltzmann": "k"}


class Dim(object):
    """a symbolic array extent"""
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Dim) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return "<%s>" % (self.key,)


def same_dim(a, b):
    return a == b


class Alg(Alg0):
    def __init__(self, I, st, decl=None, assume=None, opaque_shapes=None):
        self.empties = []   # reductions without identity over no elements
        Alg0.__init__(self)
        self.I, self.st = I, st
        self.decl = decl or {}
        self.assume = assume or (lambda c: None)
        self.memo = {}
        self.smemo = {}
        self.PI = self.of_atom(self.atom(("pi",), True, "pi"))
        self.opaque_shapes = opaque_shapes or (lambda n: None)
        self.nvar = 0
        self.cur = []
        self.given = {}          # node id -> (shape, fn(idx)->form): named unknowns
        self.expand_inv = False  # explicit inverses of 2 x 2 matrices
        self.generic = False     # inputs compared with thresholds are generic
        self.positive = set()
        self.nonneg = set()
        self.assumed = {}
        self.TRUE = self.fid({ONE_M: (F1, F0)})

    def real_rnd(self, p):
        return rnd.real(self, p)

    # index terms ------------------------------------------------------------
    def int_(self, p):
        """int value of a form, or None"""
        if not p:
            return 0
        if len(p) == 1 and ONE_M in p:
            c = p[ONE_M]
            if c[1] == 0 and c[0].denominator == 1:
                return int(c[0])
        return None

    def ix(self, name):
        return self.of_atom(self.atom(("ix", name), True, "ix"))

    def K(self, v):
        return self.num(v)

    # selection ----------------------------------------------------------------
    def decide(self, c):
        if c.op == "const":
            return bool(c.val)
        r = self.assume(c)
        if r is not None:
            return r
        if c.op == "not":
            r = self.decide(c.args[0])
            return None if r is None else not r
        if c.op in ("and", "or"):
            rs = [self.decide(a) for a in c.args]
            if c.op == "and":
                return False if False in rs else (True if None not in rs else None)
            return True if True in rs else (False if None not in rs else None)
        if c.op == "phi":
            r = self.decide(c.args[0])
            if r is not None:
                return self.decide(c.args[1] if r else c.args[2])
        if c.op == "cmp" and c.val == "eq" and any(
                isinstance(a.val, str) and "ArrayBox" in a.val for a in c.args):
            return False        # plain value; a traced one has the same value
        if c.op == "cmp" and c.val in ("eq", "ne") and any(a.op == "const" and isinstance(a.val, bool) for a in c.args):
            a, b = c.args if c.args[1].op == "const" else c.args[::-1]
            if a.op in ("cmp", "not", "and", "or"):
                r = self.decide(a)
                if r is not None:
                    return (r == b.val) == (c.val == "eq")
        if c.op == "cmp" and c.val in ("in", "notin"):
            r = self.member(*c.args)
            return r if r is None or c.val == "in" else not r
        if c.op == "cmp" and c.val in ("eq", "ne", "lt", "le", "gt", "ge"):
            try:
                if self.rank(c.args[0]) == 0 and self.rank(c.args[1]) == 0:
                    d = self.sub(self.el(c.args[0], ()), self.el(c.args[1], ()))
                    if not d or (len(d) == 1 and ONE_M in d and d[ONE_M][1] == 0):
                        v = d[ONE_M][0] if d else F0
                        return {"eq": v == 0, "ne": v != 0, "lt": v < 0, "le": v <= 0,
                                "gt": v > 0, "ge": v >= 0}[c.val]
                    s = self.sign(d) if self.positive else None
                    if s:
                        return {"eq": False, "ne": True, "lt": s < 0, "le": s < 0,
                                "gt": s > 0, "ge": s > 0}[c.val]
            except (Unk, TooBig, ZeroDivisionError):
                pass
        if c.op == "call" and canon(c.val) == "iscomplexobj" and len(c.args) == 1:
            a = self.res(c.args[0])
            d = self.decl.get(a.val) if a.op == "sym" else None
            return None if d is None else d.get("real") is False
        if c.op == "call" and canon(c.val) in ("any", "all") and len(c.args) == 1 and not c.kw:
            return self.decide_any(c.args[0], canon(c.val))
        return None

    def decide_any(self, a, f):
        """any / all over the elements of an array of literal extents"""
        if self.is_mask(a):
            return None
        try:
            s = self.shape(a)
            if not all(isinstance(d, int) for d in s) or math.prod(s) > 64:
                return None
            fs = [self.el(a, tuple(self.num(i) for i in ix)) for ix in itertools.product(*map(range, s))]
        except (Unk, TooBig, ZeroDivisionError):
            return None
        vs = [False if not p else True if self.int_(p) is not None or len(p) == 1 and ONE_M in p or
              self.generic and self.isgeneric(p) else None for p in fs]
        if f == "any":
            return True if True in vs else None if None in vs else False
        return False if False in vs else None if None in vs else True

    def member(self, x, arr):
        """is a closed form among the elements of an array of closed forms"""
        try:
            s = self.shape(arr)
            if self.shape(x) or len(s) != 1 or not isinstance(s[0], int) or s[0] > 4096:
                return None
            p = self.el(x, ())
            out = False
            for k in range(s[0]):
                d = self.sub(p, self.el(arr, (self.num(k),)))
                if not d:
                    return True
                v = self.closed(d)
                if v is None:
                    return None
                if abs(v) < 1e-12:
                    out = None
            return out
        except (Unk, TooBig, ZeroDivisionError):
            return None

    def res(self, n):
        """resolve wrappers and decided selections"""
        while True:
            if n.op == "primres":
                n = n.args[0]
            elif n.op == "phi":
                c = self.decide(n.args[0])
                if c is None:
                    # a selection between identical values
                    a, b = self.res(n.args[1]), self.res(n.args[2])
                    if a is b:
                        return a
                    if a.op == "undef":
                        return b
                    if b.op == "undef":
                        return a
                    return n
                n = n.args[1] if c else n.args[2]
            elif n.op == "cast" and n.val in ("float", "complex", "list"):
                n = n.args[0]
            elif n.op == "call" and canon(n.val) in ("copy", "asarray", "ascontiguousarray", "asanyarray") \
                    and n.args and n.args[0].op not in ("seq", "tuple"):
                n = n.args[0]
            elif n.op == "call" and canon(n.val) == "array" and n.args and \
                    n.args[0].op not in ("seq", "tuple", "sumseq"):
                n = n.args[0]
            elif n.op == "meth" and n.val in ("astype", "copy"):
                n = n.args[0]
            elif n.op == "attr" and n.val == "_value":
                n = n.args[0]
            elif n.op == "part":
                m = self.res(n.args[0])
                if m.op in ("seq", "tuple") and isinstance(n.val, int) and n.val < len(m.args):
                    n = m.args[n.val]
                else:
                    return n
            elif n.op == "index":
                m = self.res(n.args[0])
                k = n.args[1]
                v = self.cint(k)
                if m.op in ("seq", "tuple") and v is not None and -len(m.args) <= v < len(m.args):
                    n = m.args[v]
                else:
                    return n
            else:
                return n

    def cint(self, n):
        n = self.res(n) if n.op in ("phi", "primres") else n
        if n.op == "const" and isinstance(n.val, int) and not isinstance(n.val, bool):
            return n.val
        if n.op == "neg":
            v = self.cint(n.args[0])
            return None if v is None else -v
        if n.op in ("add", "sub", "mul", "fdiv", "mod"):
            a, b = self.cint(n.args[0]), self.cint(n.args[1])
            if a is None or b is None:
                return None
            try:
                return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b,
                        "fdiv": lambda: a // b, "mod": lambda: a % b}[n.op]()
            except ZeroDivisionError:
                return None
        if n.op == "index" and n.args[1].op in ("const", "slice", "neg") and not self.busy:
            v = self.cint_index(n)
            if v is not None:
                return v
        if n.op == "attr" and n.val == "size":
            try:
                s = self.shape(n.args[0])
                if all(isinstance(d, int) for d in s):
                    return math.prod(s)
            except Unk:
                pass
        if n.op == "len":
            w = self.res(n.args[0])
            if w.op == "call" and canon(w.val) in ("where", "nonzero") and len(w.args) == 1:
                try:
                    return len(self.shape(w.args[0])) or 1
                except Unk:
                    return None
            try:
                d = self.shape(n.args[0])[0]
                return d if isinstance(d, int) else None
            except (Unk, IndexError):
                return None
        if n.op == "attr" and n.val in ("size", "ndim"):
            try:
                s = self.shape(n.args[0])
            except Unk:
                return None
            if n.val == "ndim":
                return len(s)
            r = 1
            for d in s:
                if not isinstance(d, int):
                    return None
                r *= d
            return r
        if n.op == "index" and n.args[0].op in ("attr", "call"):
            if n.args[1].op != "const" and self.sh_try(n) not in (None, ()):
                return None         # an array of positions
            d = self.dim_of(n)
            return d if isinstance(d, int) else None
        if n.op == "cast" and n.val == "int" or n.op == "call" and canon(n.val) in (
                "int_", "int32", "int64", "floor", "intp", "ceil"):
            try:
                return self.trunc(self.el(n.args[0], ()), canon(n.val) if n.op == "call" else "")
            except (Unk, TooBig, ZeroDivisionError, IndexError):
                return None
        if n.op in ("call", "meth") and self.as_call(n)[0] in ("argmin", "argmax"):
            return self.argbest(n)
        if n.op == "call" and canon(n.val) == "size" and len(n.args) == 1:
            try:
                s = self.shape(n.args[0])
            except Unk:
                return None
            r = 1
            for d in s:
                if not isinstance(d, int):
                    return None
                r *= d
            return r
        return None

    busy = False

    def cint_index(self, n):
        """integer element of an array of known numbers"""
        m = self.__dict__.setdefault("cints", {})
        if n.id not in m:
            m[n.id] = None
            self.busy = True
            try:
                s = self.shape(n.args[0])
                if len(s) == 1 and isinstance(s[0], int) and s[0] <= 4096 and n.args[1].op == "const" and \
                        isinstance(n.args[1].val, int):
                    k = n.args[1].val
                    p = self.el(n.args[0], (self.num(k % s[0] if s[0] else 0),))
                    m[n.id] = self.int_(p)
            except (Unk, TooBig, ZeroDivisionError, IndexError, RecursionError):
                pass
            finally:
                self.busy = False
        return m[n.id]

    def mask_of(self, p):
        """the mask whose positions are used as an index"""
        p = self.res(p)
        q = p
        if q.op == "part" and q.val == 0 or q.op == "index" and self.is_zero(q.args[1]):
            q = self.res(q.args[0])
        if q.op == "call" and canon(q.val) in ("where", "nonzero", "flatnonzero") and len(q.args) == 1 and \
                not q.kw and self.is_mask(q.args[0]):
            try:
                if len(self.shape(q.args[0])) == 1:
                    return self.res(q.args[0])
            except Unk:
                pass
        return p

    @staticmethod
    def is_zero(k):
        return k.op == "const" and k.val == 0 and k.val is not False

    def closed(self, p):
        """real value of a form without inputs, or None"""
        if any(X.kind in ("el", "ix", "sel", "opq", "where", "mask") or X.opaque
               for X in self.atoms_of(p).values()):
            return None
        try:
            v = [rnd.Rnd(self, s).form(p) for s in (1, 2)]
        except (rnd.NoVal, ZeroDivisionError, OverflowError, ValueError):
            return None
        if any(abs(x.imag) > 1e-9 for x in v) or abs(v[0] - v[1]) > 1e-9:
            return None
        return v[0].real

    def trunc(self, p, how=""):
        """integer part of a closed form"""
        k = self.int_(p)
        if k is not None:
            return k
        v = self.closed(p)
        if v is None or abs(v - round(v)) < 1e-6:
            return None
        return math.floor(v) if how == "floor" else math.ceil(v) if how == "ceil" else int(v)

    def argbest(self, n):
        """position of the least / greatest of an array of closed forms"""
        r = self.best(n)
        return None if r is None or len(r) != 1 else r[0]

    def best(self, n):
        f, A = self.as_call(n)
        if len(A) != 1 or n.kw:
            return None
        try:
            s = self.shape(A[0])
            if not 0 < len(s) <= 2 or not all(isinstance(d, int) for d in s):
                return None
            pos = list(itertools.product(*[range(d) for d in s]))
            if not 0 < len(pos) <= 4096:
                return None
            vs = []
            for k in pos:
                p = self.el(A[0], tuple(self.num(i) for i in k))
                v = self.closed(p) if p else 0.
                if v is None:
                    return None
                vs.append((v, self.fid(p)))
        except (Unk, TooBig, ZeroDivisionError):
            return None
        b = (min if f in ("argmin", "amin", "min") else max)(vs, key=lambda t: t[0])
        if any(abs(v - b[0]) < 1e-12 and q != b[1] for v, q in vs):
            return None
        return pos[vs.index(b)]

    def extreme(self, n):
        """the least / greatest element of an array of closed forms"""
        f, A = self.as_call(n)
        if f not in ("amax", "amin", "max", "min"):
            return None
        k = self.best(n)
        if k is not None:
            return self.el(A[0], tuple(self.num(i) for i in k))
        sh = self.sh_try(A[0])
        if sh and not n.kw and 0 in [d for d in sh if isinstance(d, int)]:
            self.empties.append(n)
            raise Unk("no values")
        if n.kw or not sh or not all(isinstance(d, int) for d in sh) or not 0 < math.prod(sh) <= 36:
            return None
        xs = [self.el(A[0], tuple(self.num(i) for i in k)) for k in itertools.product(*[range(d) for d in sh])]
        if any(self.sub(x, self.conj(x)) and self.compare(x, self.conj(x)) != "equal" for x in xs):
            return None
        return self.extreme_of("builtins.min" if f in ("amin", "min") else "builtins.max", xs)

    def extreme_of(self, nm, xs):
        """largest / smallest of some values, nested ones merged"""
        ids = set()
        for x in xs:
            X = None
            if len(x) == 1:
                (m, c), = x.items()
                if c == (F1, F0) and not m[1] and len(m[0]) == 1 and m[0][0][1] == 1:
                    X = self.atoms[m[0][0][0]]
            if X is not None and X.kind == "fn" and X.key[1] == nm:
                ids |= set(X.data)
            else:
                ids.add(self.fid(x))
        if len(ids) == 1:
            return xs[0]
        ids = tuple(sorted(ids))
        return self.of_atom(self.atom(("fn", nm) + ids, True, "fn", False, ids))

    # shapes ---------------------------------------------------------------------
    def rank(self, n):
        return len(self.shape(n))

    def dim_of(self, n):
        """the extent denoted by a size expression"""
        n = self.res(n)
        v = self.cint(n) if n.op != "index" else None
        if v is not None:
            return v
        try:
            if n.op == "index":
                b = self.res(n.args[0])
                if b.op == "attr" and b.val == "shape" or \
                        b.op == "call" and canon(b.val) == "shape":
                    k = self.cint(n.args[1])
                    if k is not None:
                        return self.shape(b.args[0])[k]
            if n.op == "len":
                return self.shape(n.args[0])[0]
            if n.op == "attr" and n.val == "size" or n.op == "call" and canon(n.val) == "size":
                s = self.shape(n.args[0])
                s = [d for d in s if d != 1]
                if len(s) == 1:
                    return s[0]
                if not s:
                    return 1
            if n.op == "cast" and n.val == "int":
                return self.dim_of(n.args[0])
            f = self.el(n, ())
            v = self.int_(f)
            if v is not None:
                return v
            return Dim(("f", self.fid(f)))
        except (Unk, TooBig):
            pass
        return Dim(("n", n.id))

    def shape_arg(self, n):
        n = self.res(n)
        if n.op in ("tuple", "seq"):
            return tuple(self.dim_of(a) for a in n.args)
        if n.op == "attr" and n.val == "shape" or n.op == "call" and canon(n.val) == "shape":
            return self.shape(n.args[0])
        return (self.dim_of(n),)

    def shape(self, n):
        n = self.res(n)
        s = self.smemo.get(n.id, 0)
        if s == 0:
            self.smemo[n.id] = None
            try:
                s = self.shape_(n)
            except Unk:
                s = None
            self.smemo[n.id] = s
        if s is None:
            raise Unk("shape of %r" % n)
        return s

    @staticmethod
    def bcast(ss):
        r = []
        for s in ss:
            for i, d in enumerate(reversed(s)):
                if i >= len(r):
                    r.append(d)
                elif r[i] == 1:
                    r[i] = d
                elif d != 1 and isinstance(d, int):
                    r[i] = d
        return tuple(reversed(r))

    def shape_(self, n):
        if n.id in self.given:
            return self.given[n.id][0]
        op = n.op
        if op in ("const", "pi", "len", "iteridx", "rangeidx", "revidx", "anyidx", "rootvar", "root"):
            return ()
        if op == "sym":
            d = self.decl.get(n.val)
            if d is not None and "shape" in d:
                return tuple(x if isinstance(x, int) else Dim(x) for x in d["shape"])
            if n.extra in (None, "int", "float"):
                return ()
            raise Unk()
        if op == "ext" and self.phys(n.val) is not None:
            return ()
        if op == "cmp" and n.val in ("in", "notin", "is", "isnot"):
            return ()
        if op in ("add", "sub", "mul", "div", "fdiv", "mod", "pow", "cmp", "and", "or", "band", "bor"):
            return self.bcast([self.shape(a) for a in n.args])
        if op in ("neg", "not", "invert", "cast"):
            return self.shape(n.args[0])
        if op == "phi":
            a, b = self.sh_try(n.args[1]), self.sh_try(n.args[2])
            if a is None or b is None:
                if a is None and b is None:
                    raise Unk()
                return a or b
            if len(a) != len(b):
                raise Unk()
            return tuple(x if x != 1 else y for x, y in zip(a, b))
        if op == "mu":
            return self.shape(n.inputs[0])
        if op == "range" and len(n.args) == 1:
            return (self.dim_of(n.args[0]),)
        if op in ("seq", "tuple"):
            if not n.args:
                return (0,)
            return (len(n.args),) + self.shape(n.args[0])
        if op == "store":
            return self.shape(n.args[0])
        if op == "attr":
            if n.val == "T":
                return tuple(reversed(self.shape(n.args[0])))
            if n.val in ("real", "imag"):
                return self.shape(n.args[0])
            if n.val in ("size", "ndim"):
                return ()
            if n.val == "shape":
                return (len(self.shape(n.args[0])),)
            raise Unk()
        if op == "index":
            return self.index_shape(n)
        if op == "item":
            s = self.shape(n.args[0])
            if not s:
                raise Unk()
            return s[1:]
        if op == "part":
            m = self.res(n.args[0])
            if m.op == "call":
                r = self.multi(m, n.val)
                if r is not None:
                    return r[0]
            s = self.shape(m)
            if not s:
                raise Unk()
            return s[1:]
        if op == "meth":
            return self.meth_shape(n)
        if op == "call":
            return self.call_shape(n)
        raise Unk()

    def sh_try(self, n):
        try:
            return self.shape(n)
        except Unk:
            return None

    def kw(self, n, name, pos=None):
        for k, v in n.kw:
            if k == name:
                return v
        if pos is not None and len(n.args) > pos:
            return n.args[pos]
        return None

    def axis(self, n, pos, rank):
        a = self.kw(n, "axis", pos)
        if a is None or (a.op == "const" and a.val is None):
            return None
        v = self.cint(a)
        if v is None:
            raise Unk("axis")
        return v % rank if rank else 0

    def as_call(self, n):
        """(canonical function name, arguments) of call and method nodes"""
        if n.op == "meth":
            return n.val, n.args
        return canon(n.val).split("linalg.")[-1], n.args

    def meth_shape(self, n):
        return self.fn_shape(n.val, n.args, n)

    def call_shape(self, n):
        return self.fn_shape(canon(n.val).split("linalg.")[-1], n.args, n)

    def dshape(self, a, b):
        if len(a) == 0 or len(b) == 0:
            return self.bcast([a, b])
        if len(b) == 1:
            return a[:-1]
        return a[:-1] + b[:-2] + b[-1:]

    def fn_shape(self, f, A, n):
        if f in ELEM1:
            return self.shape(A[0])
        if f in ELEM2:
            return self.bcast([self.shape(a) for a in A[:2]])
        if f == "where" and len(A) == 3:
            return self.bcast([self.shape(a) for a in A])
        if f == "outer":
            return tuple(self.flat_dim(self.shape(a)) for a in A[:2])
        if f in ("dot", "spdot", "inner", "vdot"):
            if f in ("inner", "vdot") and any(len(self.shape(a)) != 1 for a in A[:2]):
                raise Unk(f)
            return self.dshape(self.shape(A[0]), self.shape(A[1]))
        if f in ("transpose", "reshape", "ravel", "flatten", "squeeze", "expand_dims", "swapaxes", "repeat", "moveaxis"):
            return self.rearr(f, A, n)[0]
        if f in ("zeros", "ones", "empty"):
            return self.shape_arg(A[0])
        if f == "full":
            return self.shape_arg(A[0])
        if f in ("zeros_like", "ones_like", "empty_like", "full_like", "roll", "triu", "tril", "inv", "sort",
                 "fill_diagonal"):
            s = self.shape(A[0])
            return s * 2 if f in ("triu", "tril") and len(s) == 1 else s
        if f in ("eye", "identity"):
            d = self.dim_of(A[0])
            return (d, self.dim_of(A[1]) if len(A) > 1 and f == "eye" else d)
        if f in ("toeplitz", "scipy.linalg.toeplitz"):
            return (self.flat_dim(self.shape(A[0])), self.flat_dim(self.shape(A[-1])))
        if f == "diag":
            s = self.shape(A[0])
            return (s[0], s[0]) if len(s) == 1 else (s[0],)
        if f in ("sum", "mean", "amax", "amin", "max", "min", "prod", "builtins.sum", "norm"):
            s = self.shape(A[0])
            ax = self.axis(n, 2 if f == "norm" else 1, len(s))
            if ax is None:
                return () if f != "builtins.sum" else s[1:]
            k = self.kw(n, "keepdims")
            if k is not None and k.op == "const" and k.val:
                return s[:ax] + (1,) + s[ax + 1:]
            return s[:ax] + s[ax + 1:]
        if f in ("hstack", "concatenate", "vstack", "append", "column_stack", "stack"):
            return self.stack(f, A, n)[0]
        if f in SPARSE:
            c = self.coo_parts(n, A)
            if c is None:
                return self.shape(A[0])
            return c[3]
        if f == "block_diag" and not n.kw:
            ss = [self.shape(a) for a in A]
            if not all(len(x) == 2 and all(isinstance(d, int) for d in x) for x in ss):
                raise Unk("block_diag")
            return (sum(x[0] for x in ss), sum(x[1] for x in ss))
        if f == "tile" and len(A) == 2:
            s, reps = self.shape(A[0]), self.tile_reps(A)
            k = max(len(s), len(reps))
            s, reps = (1,) * (k - len(s)) + s, (1,) * (k - len(reps)) + reps
            return tuple(a if b == 1 else b if a == 1 else a * b if isinstance(a, int) and isinstance(b, int)
                         else Dim(("tile", str(a), str(b))) for a, b in zip(s, reps))
        if f == "arange":
            v = [self.cint(a) for a in A]
            if len(v) >= 2 and None not in v and (len(v) == 2 or v[2]):
                return (len(range(*v)),)
            return (Dim(("arange",) + tuple(a.id for a in A)),) if not (
                len(A) == 1 and self.cint(A[0]) is not None) else (self.cint(A[0]),)
        if f == "linspace":
            k = self.kw(n, "num", 2)
            return (self.dim_of(k) if k is not None else 50,)
        if f == "cumsum" and len(A) == 1 and not n.kw:
            return (self.flat_dim(self.shape(A[0])),)
        if f == "diff" and self.kw(n, "n", 1) is None:
            s = list(self.shape(A[0]))
            ax = self.kw(n, "axis", 2)
            ax = (self.cint(ax) if ax is not None else -1)
            if ax is None or not isinstance(s[ax], int):
                raise Unk("diff")
            s[ax] -= 1
            return tuple(s)
        if f == "cross":
            return self.bcast([self.shape(a) for a in A[:2]])
        if f == "argsort":
            return self.shape(A[0])
        if f in ("argwhere", "flatnonzero"):
            t = self.truepos(n)
            if t is not None:
                return (len(t), 1) if f == "argwhere" else (len(t),)
        if f == "argwhere":
            return (Dim(("aw", n.id)), len(self.shape(A[0])) or 1)
        if f in ("argmin", "argmax") and self.kw(n, "axis", 1) is None:
            return ()
        if f in ("size", "ndim", "len", "builtins.max", "builtins.min", "builtins.max1", "any", "all",
                 "builtins.any", "builtins.all", "allclose", "array_equal", "count_nonzero", "interp0"):
            return ()
        if f == "interp":
            return self.shape(A[0])
        if f == "searchsorted" and len(A) >= 2:
            return self.shape(A[1])
        if f == "solve" and len(A) == 2:
            return self.shape(A[1])
        if f == "shape":
            return (len(self.shape(A[0])),)
        s = self.opaque_shapes(n)
        if s is not None:
            return s
        raise Unk(f)

    def tile_reps(self, A):
        r = self.res(A[1])
        if r.op in ("seq", "tuple"):
            return tuple(self.dim_of(a) for a in r.args)
        if self.rank(r) == 1 and isinstance(self.shape(r)[0], int):
            v = [self.int_(self.el(r, (self.num(k),))) for k in range(self.shape(r)[0])]
            if None in v:
                raise Unk("tile")
            return tuple(v)
        return (self.dim_of(r),)

    def flat_dim(self, s):
        r = [d for d in s if d != 1]
        if not r:
            return 1
        if len(r) == 1:
            return r[0]
        raise Unk("ravel of a matrix")

    # rearrangements: (shape, function from new idx to old idx) ----------------------
    def reflat(self, s, new, order="C"):
        """positions under a general reshape between concrete shapes"""
        def g(idx):
            q = 0
            rng = range(len(new)) if order == "C" else reversed(range(len(new)))
            for k in rng:
                i = self.int_(idx[k])
                if i is None:
                    raise Unk("reshape")
                q = q * new[k] + i
            out = [None] * len(s)
            rng = reversed(range(len(s))) if order == "C" else range(len(s))
            for k in rng:
                q, out[k] = divmod(q, s[k])
            return tuple(self.num(i) for i in out)
        return new, g

    def rearr(self, f, A, n):
        s = self.shape(A[0])
        R = len(s)
        order = self.kw(n, "order", None) if f in ("ravel", "flatten", "reshape") else None
        order = "C" if order is None else order.val if order.op == "const" else None
        ints = all(isinstance(d, int) for d in s) and len([d for d in s if d != 1]) > 1
        if order not in ("C", "F"):
            raise Unk("order")
        if order == "F" and not ints:
            if len([d for d in s if d != 1]) > 1:
                raise Unk("order")
            order = "C"
        if f == "transpose":
            ax = self.kw(n, "axes", 1)
            if n.op == "meth" and len(A) > 2:
                axs = [self.cint(a) for a in A[1:]]
            elif ax is None or ax.op == "const" and ax.val is None:
                axs = list(range(R))[::-1]
            else:
                ax = self.res(ax)
                if ax.op not in ("seq", "tuple"):
                    raise Unk("transpose")
                axs = [self.cint(a) for a in ax.args]
            if any(a is None for a in axs) or len(axs) != R:
                raise Unk("transpose")

            def g(idx):
                r = [None] * R
                for k, a in enumerate(axs):
                    r[a] = idx[k]
                return tuple(r)
            return tuple(s[a] for a in axs), g
        if f == "swapaxes":
            a, b = self.cint(A[1]), self.cint(A[2])
            if a is None or b is None:
                raise Unk("swapaxes")
            axs = list(range(R))
            axs[a], axs[b] = axs[b], axs[a]

            def g(idx):
                r = [None] * R
                for k, x in enumerate(axs):
                    r[x] = idx[k]
                return tuple(r)
            return tuple(s[a] for a in axs), g
        if f == "repeat":
            k, ax = self.dim_of(A[1]), self.kw(n, "axis", 2)
            if not isinstance(k, int) or ax is None and R != 1:
                raise Unk("repeat")
            ax = 0 if ax is None or ax.op == "const" and ax.val is None else self.cint(ax) % R
            d = s[ax]
            if d != 1 and k != 1 and not isinstance(d, int):
                raise Unk("repeat")

            def g(idx):
                i = idx[ax]
                if d == 1:
                    i = {}
                elif k != 1:
                    i = self.int_(i)
                    if i is None:
                        raise Unk("repeat")
                    i = self.num(i // k)
                return tuple(idx[:ax]) + (i,) + tuple(idx[ax + 1:])
            return s[:ax] + (k if d == 1 else d * k if k != 1 else d,) + s[ax + 1:], g
        if f in ("ravel", "flatten"):
            if ints:
                return self.reflat(s, (math.prod(s),), order)
            new = (self.flat_dim(s),)
        elif f == "squeeze":
            new = tuple(d for d in s if d != 1)
        elif f == "expand_dims":
            ax = self.axis(n, 1, R + 1)
            new = s[:ax] + (1,) + s[ax:]
        elif f == "reshape":
            if n.op == "meth":
                t = self.shape_arg(A[1]) if len(A) == 2 else tuple(self.dim_of(a) for a in A[1:])
            else:
                t = self.shape_arg(self.kw(n, "shape", 1) or self.kw(n, "newshape"))
            if ints and all(isinstance(d, int) for d in t):
                if -1 in t:
                    k = t.index(-1)
                    m = math.prod(t[:k] + t[k + 1:])
                    t = t[:k] + (math.prod(s) // m if m else 0,) + t[k + 1:]
                if math.prod(t) != math.prod(s):
                    raise Unk("reshape")
                return self.reflat(s, t, order)
            if ints is False and all(isinstance(d, int) for d in tuple(s) + tuple(t)) and -1 not in t and \
                    math.prod(t) == math.prod(s):
                return self.reflat(s, t, order)
            if -1 in t:
                k = t.index(-1)
                others = [d for i, d in enumerate(t) if i != k and d != 1]
                src = [d for d in s if d != 1]
                for d in others:
                    if d in src:
                        src.remove(d)
                    else:
                        raise Unk("reshape")
                if len(src) > 1:
                    raise Unk("reshape")
                t = t[:k] + ((src[0] if src else 1),) + t[k + 1:]
            new = t
        else:
            raise Unk(f)
        # only insertion and removal of unit axes
        if [d for d in new if d != 1] != [d for d in s if d != 1]:
            if len(s) == len(new) and all(not (isinstance(a, int) and isinstance(b, int)) or a == b
                                          for a, b in zip(s, new)):
                return new, lambda idx: idx
            if len([d for d in new if d != 1]) == len([d for d in s if d != 1]) and \
                    all(not (isinstance(a, int) and isinstance(b, int)) or a == b for a, b in
                        zip([d for d in new if d != 1], [d for d in s if d != 1])):
                pass
            else:
                raise Unk("reshape")
        zero = {}

        def g(idx):
            vals = [i for i, d in zip(idx, new) if d != 1]
            out = []
            for d in s:
                out.append(zero if d == 1 else vals.pop(0))
            return tuple(out)
        return new, g

    def seq_items(self, n):
        n = self.res(n)
        if n.op in ("seq", "tuple"):
            return list(n.args)
        if n.op == "call" and canon(n.val) == "array" and n.args[0].op in ("seq", "tuple"):
            return list(n.args[0].args)
        raise Unk("parts")

    def stack(self, f, A, n):
        if f == "append":
            parts, ax = [A[0], A[1]], 0
        else:
            parts = self.seq_items(A[0])
            ax = self.kw(n, "axis", 1)
            ax = 0 if ax is None else self.cint(ax)
        shs = [self.shape(p) for p in parts]
        R = max(len(s) for s in shs) if shs else 0
        if f == "stack":
            ax = ax % (R + 1)
            return shs[0][:ax] + (len(parts),) + shs[0][ax:], ("stack", parts, ax, shs)
        if f == "vstack":
            shs = [(1,) + s if len(s) == 1 else (1, 1) if not s else s for s in shs]
            ax = 0
        elif f == "hstack":
            shs = [(1,) if not s else s for s in shs]
            R = max(len(s) for s in shs)
            ax = 0 if R == 1 else 1
        elif f == "column_stack":
            raise Unk(f)
        elif f in ("append", "concatenate"):
            shs = [(1,) if not s else s for s in shs]
        tot = 0
        for s in shs:
            d = s[ax]
            if isinstance(tot, int) and isinstance(d, int):
                tot += d
            else:
                tot = Dim(("cat", tuple(p.id for p in parts), ax))
                break
        s0 = max(shs, key=len)
        return s0[:ax] + (tot,) + s0[ax + 1:], ("cat", parts, ax, shs)

    def multi(self, m, k):
        """(shape, element function) of one result of a multi-valued call"""
        f = canon(m.val).split("linalg.")[-1]
        if f == "meshgrid" and isinstance(k, int):
            a = m.args
            order = self.kw(m, "indexing")
            if order is not None and order.op != "const" or self.kw(m, "sparse") is not None:
                raise Unk("meshgrid")
            swap = len(a) > 1 and not (order is not None and order.val == "ij")
            sh = [self.flat_dim(self.shape(x)) for x in a]
            ax = k
            if swap:
                sh[:2] = sh[1::-1]
                ax = {0: 1, 1: 0}.get(k, k)
            return tuple(sh), lambda idx: self.el(a[k], (idx[ax],) if self.shape(a[k]) else ())
        if f in ("eigh", "eig", "eigsh", "scipy.sparse.eigsh") and isinstance(k, int):
            s = self.sh_try(m.args[0])
            d = s[0] if s else Dim(("eig", m.id))
            return ((d,) if k == 0 else (d, d)), lambda idx: self.array_fn(m, idx, k)
        if f in ("where", "nonzero") and k == 0:
            t = self.truepos(m)
            if t is not None:
                return (len(t),), lambda idx: self.nth(t, idx)
        if f in ("where", "nonzero", "flatnonzero") and len(m.args) == 1 and isinstance(k, int):
            return (Dim(("nz", m.id)),), lambda idx: self.array_fn(m, idx, k, True)
        if f == "unique" and isinstance(k, int) and any(q.startswith("return") for q, _ in m.kw):
            u = self.unique(m)
            if u is not None and k < len(u):
                v = u[k]
                sh = (len(v),) if not v or not isinstance(v[0], tuple) else (len(v), len(v[0]))

                def g(idx, v=v):
                    for i in idx:
                        q = self.int_(i)
                        if q is None:
                            raise Unk("position in unique values")
                        v = v[q]
                    return v if isinstance(v, dict) else self.num(v)
                return sh, g
            return (Dim(("uq", m.id)),) if k == 0 else (Dim(("uqi", m.id, k)),), \
                lambda idx: self.array_fn(m, idx, k, True)
        return None

    def unique(self, m):
        """numpy.unique of an array of concrete numbers"""
        kw = dict(m.kw)
        names = ("return_index", "return_inverse", "return_counts")
        if set(kw) - set(names) - {"axis"} or len(m.args) != 1:
            return None
        flag = {}
        for k, v in kw.items():
            if v.op != "const":
                return None
            flag[k] = v.val
        try:
            s = self.shape(m.args[0])
        except Unk:
            return None
        ax = flag.get("axis")
        if any(not isinstance(d, int) or d > 4096 for d in s) or len(s) not in (1, 2) or \
                (len(s) == 2) != (ax is not None):
            return None

        forms = {}

        def at(*i):
            p = self.el(m.args[0], tuple(self.num(x) for x in i))
            v = self.int_(p)
            if v is None:
                v = self.closed(p) if p else 0.
                if v is None:
                    raise Unk("value")
                v = round(v, 9) + 0.
                forms.setdefault(v, p)
            return v
        try:
            if len(s) == 1:
                items = [at(i) for i in range(s[0])]
            elif ax % 2 == 1:
                items = [tuple(at(i, j) for i in range(s[0])) for j in range(s[1])]
            else:
                items = [tuple(at(i, j) for j in range(s[1])) for i in range(s[0])]
        except (Unk, TooBig, ZeroDivisionError):
            return None
        u = sorted(set(items))
        if any(isinstance(v, float) for x in u for v in (x if isinstance(x, tuple) else (x,))):
            # neighbours that only rounding could separate are not decided
            for x, y in zip(u, u[1:]):
                d = [abs(a - b) for a, b in zip(*((x, y) if isinstance(x, tuple) else ((x,), (y,))))]
                if 0 < max(d) < 1e-6:
                    return None
        pos = {x: k for k, x in enumerate(u)}
        first, cnt = {}, {}
        for k, x in enumerate(items):
            first.setdefault(x, k)
            cnt[x] = cnt.get(x, 0) + 1
        out = [[tuple(c) for c in zip(*u)] if len(s) == 2 and ax % 2 == 1 else u]
        if forms:
            f = lambda v: forms.get(v, v)
            out[0] = [tuple(f(v) for v in x) if isinstance(x, tuple) else f(x) for x in out[0]]
        if flag.get("return_index"):
            out.append([first[x] for x in u])
        if flag.get("return_inverse"):
            out.append([pos[x] for x in items])
        if flag.get("return_counts"):
            out.append([cnt[x] for x in u])
        return out

    # indexing --------------------------------------------------------------------------
    def parse_index(self, n):
        """list of axis operators for index(base, key)"""
        base, key = n.args
        s = self.shape(base)
        key = self.mask_of(key)
        parts = list(key.args) if key.op == "tuple" else [key]
        if len(parts) == 1 and parts[0].op == "call" and canon(parts[0].val) == "ix_":
            adv = list(parts[0].args)
            if len(adv) == 2:
                return s, [("ix", adv[0], 0), ("ix", adv[1], 1)], "ix"
        out = []
        nreal = 0
        for p in parts:
            if not (p.op == "const" and (p.val is None or p.val is Ellipsis)):
                nreal += 1
        ax = 0
        for p in parts:
            p = self.mask_of(p)
            if p.op == "const" and p.val is None:
                out.append(("new",))
                continue
            if p.op == "const" and p.val is Ellipsis:
                for _ in range(len(s) - nreal):
                    out.append(("slice", 0, 1, ax, s[ax]))
                    ax += 1
                continue
            if ax >= len(s):
                raise Unk("too many indices")
            d = s[ax]
            if p.op == "slice":
                out.append(self.parse_slice(p, d, ax))
            else:
                v = self.cint(p)
                if v is not None:
                    if v < 0:
                        if isinstance(d, int):
                            v += d
                        else:
                            out.append(("last", v, ax, d))
                            ax += 1
                            continue
                    out.append(("int", self.num(v), ax))
                else:
                    ps = self.shape(p)
                    if self.is_mask(p):
                        v = self.positions(p, ps)
                        if v is None:
                            # positions of an undecided mask: a function of the mask alone
                            if len(ps) != 1:
                                raise Unk("mask")
                            v = self.cond_el(p, (self.ix("bound0"),))
                            out.append(("adv", ("truepos", v), (Dim(("nzm", v, str(d))),), ax))
                            ax += 1
                            continue
                        out.append(("adv", v, (len(v),), ax))
                        ax += 1
                        continue
                    if ps == ():
                        out.append(("int", self.el(p, ()), ax))
                    else:
                        out.append(("adv", p, ps, ax))
            ax += 1
        while ax < len(s):
            out.append(("slice", 0, 1, ax, s[ax]))
            ax += 1
        return s, out, None

    def is_mask(self, p):
        p = self.res(p)
        if p.op == "mul":
            return all(self.is_mask(a) for a in p.args)
        return p.op in ("cmp", "not", "invert", "band", "bor", "and", "or") or \
            p.op == "call" and canon(p.val) in ("isclose", "logical_and", "logical_or", "isnan")

    def parse_slice(self, p, d, ax):
        lo, hi, stp = (self.res(a) for a in p.args)
        none = lambda a: a.op == "const" and a.val is None
        k = 1 if none(stp) else self.cint(stp)
        if k is None:
            raise Unk("slice step")
        if k == -1 and none(lo) and none(hi):
            if isinstance(d, int):
                return ("slice", d - 1, -1, ax, d)
            return ("rev", ax, d)
        if k < 0:
            lv = None if none(lo) else self.cint(lo)
            hv = None if none(hi) else self.cint(hi)
            if not isinstance(d, int) or lv is None and not none(lo) or hv is None and not none(hi):
                raise Unk("slice step")
            r = range(*slice(lv, hv, k).indices(d))
            return ("slice", r.start, k, ax, len(r))
        if k < 1:
            raise Unk("slice step")
        a = 0 if none(lo) else self.cint(lo)
        if a is None:
            if not none(hi):
                return ("fslice", self.el(lo, ()), ax, Dim(("sl", p.id)))
            return ("fslice", self.el(lo, ()), ax, Dim(("sl", p.id)))
        if a < 0:
            if not isinstance(d, int):
                raise Unk("slice from the end")
            a = max(0, a + d)
        if none(hi):
            if isinstance(d, int):
                return ("slice", a, k, ax, max(0, -(-(d - a) // k)))
            if a == 0 and k == 1:
                return ("slice", 0, 1, ax, d)
            return ("slice", a, k, ax, Dim(("sl", d.key, a, k)))
        b = self.cint(hi)
        if b is None:
            return ("slice", a, k, ax, Dim(("sl", p.id)) if not (
                a == 0 and k == 1) else self.dim_of(hi))
        if isinstance(d, int):
            b = b + d if b < 0 else min(b, d)
            return ("slice", a, k, ax, max(0, -(-(b - a) // k)))
        if b >= 0:
            return ("slice", a, k, ax, max(0, -(-(b - a) // k)))
        return ("slice", a, k, ax, Dim(("sl", d.key, a, b, k)))

    def index_shape(self, n):
        b = self.res(n.args[0])
        if b.op == "call" and n.args[1].op == "const":
            r = self.multi(b, n.args[1].val)
            if r is not None:
                return r[0]
        s, ops, kind = self.parse_index(n)
        if kind == "ix":
            return tuple(self.flat_dim(self.shape(o[1])) for o in ops)
        advs = [o for o in ops if o[0] == "adv"]
        ash = self.bcast([o[2] for o in advs]) if advs else ()
        out, done = [], False
        for o in ops:
            if o[0] == "new":
                out.append(1)
            elif o[0] in ("slice",):
                out.append(o[4])
            elif o[0] == "fslice":
                out.append(o[3])
            elif o[0] == "rev":
                out.append(o[2])
            elif o[0] == "adv" and not done:
                out.extend(ash)
                done = True
        return tuple(out)

    def index_el(self, n, idx):
        b = self.res(n.args[0])
        if b.op == "call" and n.args[1].op == "const":
            r = self.multi(b, n.args[1].val)
            if r is not None:
                if r[1] is not None:
                    return r[1](idx)
                return self.opaque(n, idx)
        s, ops, kind = self.parse_index(n)
        if kind == "ix":
            base_idx = [self.el1(o[1], idx[o[2]]) for o in ops]
            return self.el(n.args[0], tuple(base_idx) + tuple(idx[2:]))
        advs = [o for o in ops if o[0] == "adv"]
        ash = self.bcast([o[2] for o in advs]) if advs else ()
        pos, aidx = 0, None
        out = []
        for o in ops:
            if o[0] == "new":
                pos += 1
            elif o[0] == "slice":
                i = idx[pos]
                pos += 1
                v = self.scale(i, (Fr(o[2]), F0)) if o[2] != 1 else i
                out.append(self.add(v, self.num(o[1])) if o[1] else v)
            elif o[0] == "fslice":
                out.append(self.add(idx[pos], o[1]))
                pos += 1
            elif o[0] == "rev":
                raise Unk("reversed")
            elif o[0] == "last":
                a = self.atom(("fromend", str(o[3]), o[1]), True, "ix")
                out.append(self.of_atom(a))
            elif o[0] == "int":
                out.append(o[1])
            elif o[0] == "adv":
                if aidx is None:
                    aidx = idx[pos:pos + len(ash)]
                    pos += len(ash)
                if isinstance(o[1], list):
                    q = self.int_(aidx[0])
                    if q is None or not 0 <= q < len(o[1]):
                        raise Unk("position in a mask")
                    out.append(self.num(o[1][q]))
                    continue
                if isinstance(o[1], tuple):
                    i = self.bidx(aidx, ash, o[2])
                    out.append(self.of_atom(self.atom(("opq", ("truepos", (1, o[1][1])), self.fid(i[0])), True, "opq",
                                                      True, (self.fid(i[0]),))))
                    continue
                out.append(self.el(o[1], self.bidx(aidx, ash, o[2])))
        return self.el(n.args[0], tuple(out))

    def positions(self, p, ps):
        """the true positions of a mask whose elements are all decided"""
        if len(ps) != 1 or not isinstance(ps[0], int) or ps[0] > 4096:
            return None
        r = []
        try:
            for k in range(ps[0]):
                c = self.cond_el(p, (self.num(k),))
                if c == self.TRUE:
                    r.append(k)
                elif c != 0:
                    return None
        except (Unk, TooBig, ZeroDivisionError):
            return None
        return r

    def stack_pick(self, n, idx, ax, d):
        """element of a stack at a position computed by a search"""
        at = []
        if len(idx[ax]) == 1:
            (m, _), = idx[ax].items()
            at = [self.atoms[a] for a, q in m[0] if q == 1] if not m[1] else []
        if len(at) != 1 or not isinstance(d, int) or d > 12 or not (
                at[0].kind == "opq" and isinstance(at[0].key[1], tuple) and at[0].key[1][0] in POSFN):
            raise Unk("symbolic index into a stack")
        r = {}
        for k in range(d):
            i = self.num(k)
            r = self.add(r, self.mul(self.delta(idx[ax], i), self.el(n, tuple(idx[:ax]) + (i,) + tuple(idx[ax + 1:]))))
        return r

    def coo_parts(self, n, A):
        """(data, rows, columns, shape) of a sparse matrix built from coordinates"""
        t = self.res(A[0])
        if t.op != "tuple":
            return None
        kw = dict(n.kw)
        if len(t.args) != 2 or self.res(t.args[1]).op != "tuple" or len(self.res(t.args[1]).args) != 2:
            raise Unk("sparse")
        pos = []
        for a in self.res(t.args[1]).args:
            s = self.shape(a)
            if len(s) != 1 or not isinstance(s[0], int):
                raise Unk("sparse")
            v = [self.int_(self.el(a, (self.num(k),))) for k in range(s[0])]
            if None in v:
                raise Unk("sparse")
            pos.append(v)
        sh = kw.get("shape", A[1] if len(A) > 1 else None)
        sh = self.res(sh) if sh is not None else None
        if sh is None or sh.op != "tuple":
            raise Unk("sparse")
        sh = tuple(self.cint(a) for a in sh.args)
        if None in sh or len(sh) != 2:
            raise Unk("sparse")
        return t.args[0], pos[0], pos[1], sh

    def rat(self, p):
        """rational value of a constant form"""
        if not p:
            return F0
        if len(p) == 1 and ONE_M in p and p[ONE_M][1] == 0:
            return p[ONE_M][0]
        return None

    def floormod(self, op, a, b):
        x, y = self.rat(a), self.rat(b)
        if x is not None and y:
            return self.num(x // y if op == "fdiv" else x % y)
        return self.fn(op, [a, b], True)

    def truepos(self, n):
        """positions selected by where / nonzero / argwhere of a decided mask"""
        m = self.__dict__.setdefault("truepos_memo", {})
        if n.id not in m:
            m[n.id] = None
            if len(n.args) == 1 and not n.kw and self.is_mask(n.args[0]):
                try:
                    m[n.id] = self.positions(n.args[0], self.shape(n.args[0]))
                except (Unk, TooBig, ZeroDivisionError):
                    pass
        return m[n.id]

    def nth(self, t, idx):
        q = self.int_(idx[0])
        if q is None or not -len(t) <= q < len(t):
            raise Unk("position in a selection")
        return self.num(t[q])

    def el1(self, n, i):
        """element of an array that is one-dimensional up to unit axes"""
        s = self.shape(n)
        return self.el(n, tuple({} if d == 1 else i for d in s)) if any(d != 1 for d in s) \
            else self.el(n, tuple({} for _ in s))

    @staticmethod
    def bidx(idx, sh, sub):
        """index into an operand of shape `sub` broadcast to `sh`"""
        r = []
        k = len(sub)
        for d, i in zip(sub, idx[len(idx) - k:] if k else ()):
            r.append({} if d == 1 else i)
        return tuple(r)

    # elements -----------------------------------------------------------------------------
    def el(self, n, idx):
        n = self.res(n)
        key = (n.id, tuple(self.fid(i) for i in idx))
        r = self.memo.get(key)
        if r is None:
            if key in self.cur:
                raise Unk("cycle")
            self.cur.append(key)
            try:
                r = self.el_(n, idx)
            except IndexError:
                raise Unk("rank")
            finally:
                self.cur.pop()
            self.memo[key] = r
        return r

    def opaque(self, n, idx, real=False):
        ids = tuple(self.fid(i) for i in idx)
        return self.of_atom(self.atom(("opq", n.id) + ids, real, "opq", True, ids))

    def array_fn(self, n, idx, part=None, real=None):
        """element of a function of whole arrays: equal for element-wise equal arguments"""
        f, A = self.as_call(n)
        if f not in AFN:
            return self.opaque(n, idx)
        key = [f, part]
        shift = None
        try:
            for a in list(A) + [v for k, v in sorted(n.kw, key=lambda t: t[0])]:
                a = self.res(a)
                if a.op == "const" and (a.val is None or isinstance(a.val, (bool, str))):
                    key.append(("c", a.val))
                    continue
                r = self.rank(a)
                e = self.el(a, tuple(self.ix("bound%d" % k) for k in range(r)))
                if f == "eigh" and r == 2 and len(key) == 2:
                    c, e = self.unshift(e)
                    shift = c if part == 0 else None
                key.append((r, self.fid(e)))
            key.append(tuple(sorted(k for k, _ in n.kw)))
        except (Unk, TooBig, ZeroDivisionError):
            return self.opaque(n, idx)
        real = AFN[f] and part in (None, 0) if real is None else real
        ids = tuple(self.fid(i) for i in idx)
        r = self.of_atom(self.atom(("opq", tuple(key)) + ids, real, "opq", True, ids))
        return self.add(r, {ONE_M: shift}) if shift else r

    def unshift(self, e):
        """M + c 1 has the eigenvectors of M and its eigenvalues plus c"""
        d, = self.delta(self.ix("bound0"), self.ix("bound1"))
        c = e.get(d)
        if c is None or c[1] != 0 or len(e) < 2:
            return None, e
        return c, {m: v for m, v in e.items() if m != d}

    def bin_el(self, n, idx, k):
        a = n.args[k]
        s = self.shape(a)
        return self.el(a, self.bidx(idx, None, s))

    @staticmethod
    def tiny(n):
        if n.op == "neg":
            return Alg.tiny(n.args[0])
        return n.op == "const" and isinstance(n.val, (int, float, complex)) and \
            not isinstance(n.val, bool) and 0 < abs(n.val) <= TINY

    def fn(self, name, args, real=False):
        ids = tuple(self.fid(a) for a in args)
        return self.of_atom(self.atom(("fn", name) + ids, real, "fn", False, ids))

    def phys(self, name):
        """physical constants as positive unknowns"""
        if not name.startswith("scipy.constants."):
            return None
        nm = PHYS.get(name[16:], name[16:])
        if nm == "hbar":
            return self.mul(self.phys("scipy.constants.h"), self.power(self.mul(self.num(2), self.PI), -1))
        if nm not in ("h", "c", "e", "epsilon_0", "m_e", "k"):
            return None
        p = self.elatom("scipy.constants." + nm, (), True)
        self.positive.add(list(p)[0][0][0][0])
        return p

    def conj_fn(self, A):
        args = [self.conj(self.forms[i]) for i in A.data]
        return self.fn(A.key[1], args)

    def subst_fn(self, A, env, memo):
        args = [self.subst(self.forms[i], env, memo) for i in A.data]
        if A.key[1] == "abs":
            return self.absval(args[0])
        return self.fn(A.key[1], args, A.real)

    def subst_el(self, A, env, memo):
        ids = [self.subst(self.forms[i], env, memo) for i in A.data]
        return self.elatom(A.key[1], ids, A.real, A.opaque)

    def subst_opq(self, A, env, memo):
        ids = tuple(self.fid(self.subst(self.forms[i], env, memo)) for i in A.data)
        return self.of_atom(self.atom(("opq", A.key[1]) + ids, A.real, "opq", True, ids))

    def subst_where(self, A, env, memo):
        c, a, b = A.data
        c = self.fid(self.subst(self.forms[c], env, memo))
        return self.where(c, self.subst(self.forms[a], env, memo), self.subst(self.forms[b], env, memo))

    def conj_where(self, A):
        c, a, b = A.data
        return self.where(c, self.conj(self.forms[a]), self.conj(self.forms[b]))

    def elatom(self, name, idx, real=False, opaque=False):
        ids = tuple(self.fid(i) for i in idx)
        return self.of_atom(self.atom(("el", name) + ids, real, "el", opaque, ids))

    def where(self, c, a, b):
        """c: form id of a condition"""
        if a == b:
            return a
        cf = self.forms[c]
        if not cf:
            return b
        if self.int_(cf) is not None:
            return a
        if len(cf) == 1:
            (m, _), = cf.items()
            if len(m[0]) == 1 and self.atoms[m[0][0][0]].kind == "not":
                return self.where(self.atoms[m[0][0][0]].data[0], b, a)
        # common scalar factors stay inside: the atom is compared as a whole
        real = self.is_real(a) and self.is_real(b)
        ids = (c, self.fid(a), self.fid(b))
        return self.of_atom(self.atom(("where",) + ids, real, "where", False, ids))

    CN = {"lt": ("lt", 1), "gt": ("lt", -1), "le": ("le", 1), "ge": ("le", -1)}

    def sign(self, p):
        """1, -1, 0 or None for a real form"""
        r = self.sign_(p)
        if r is None and len(p) < 12:
            v = self.closed(p)
            if v is not None and abs(v) > 1e-9:
                return 1 if v > 0 else -1
        return r

    def sign_(self, p):
        if not p:
            return 0
        r = None
        for m, c in p.items():
            if c[1] != 0 or m[1]:
                return None
            for a, q in m[0]:
                A = self.atoms[a]
                if A.kind in ("dim", "prime", "pi") or A.id in self.positive:
                    continue
                if q.denominator == 1 and q.numerator % 2 == 0 and A.real:
                    continue
                return None
            t = 1 if c[0] > 0 else -1
            if r is None:
                r = t
            elif r != t:
                c = p.get(ONE_M, (F0, F0))[0]
                if self.generic and abs(c) >= 10**9 and all(abs(v[0]) < 10**6 for k, v in p.items() if k != ONE_M):
                    return 1 if c > 0 else -1       # inputs are far below the stand-ins of infinity
                return None
        return r

    def isgeneric(self, d):
        """a form of inputs only, with at least one input"""
        at = self.atoms_of(d).values()
        return any(X.kind == "el" for X in at) and not any(
            X.opaque and X.kind == "opq" and isinstance(X.key[1], tuple) and X.key[1][0] in POSFN for X in at)

    def truth_of(self, nm, d):
        """truth of d < 0 / d <= 0 / d == 0, or None"""
        if self.generic and self.isgeneric(d):
            c = d.get(ONE_M)
            rest = {m: v for m, v in d.items() if m != ONE_M}
            if rest and c is not None and c[1] == 0 and 0 < abs(c[0]) <= TINY and \
                    nm in ("lt", "le"):
                # |x| compared with a threshold: x is generic
                if self.mag(rest) or self.sign(rest) == 1:
                    return c[0] > 0 and None
                if self.mag(self.scale(rest, (Fr(-1), F0))) and c[0] > 0:
                    return True
            if nm == "eq" and d and self.sign(d) is None:
                return False
        if not d:
            return nm in ("le", "eq")
        s = self.sign(d)
        if s is None:
            return None
        return {"lt": s < 0, "le": s <= 0, "eq": s == 0}[nm]

    def mag(self, p):
        """a sum of magnitudes: absolute values, roots of squares, even powers"""
        for m, c in p.items():
            if c[1] != 0 or c[0] <= 0 or m[1]:
                return False
            for a, q in m[0]:
                A = self.atoms[a]
                if A.id in self.positive or A.id in self.nonneg or A.kind in ("dim", "prime", "pi", "big"):
                    continue
                if A.real and q.denominator == 1 and q.numerator % 2 == 0:
                    continue
                if A.kind == "fn" and A.key[1] in ("abs", "norm"):
                    continue
                if A.kind == "fn" and A.key[1] in ("amax", "max", "amin", "min", "sum") and \
                        len(A.data) == 1 and self.mag(self.forms[A.data[0]]):
                    continue
                return False
        return bool(p)

    def cond_atom(self, nm, d):
        r = self.truth_of(nm, d)
        if nm in ("lt", "le") and self.generic and r is None and self.isgeneric(d):
            c = d.get(ONE_M)
            rest = {m: v for m, v in d.items() if m != ONE_M}
            if rest and c is not None and c[1] == 0 and -TINY <= c[0] < 0 and self.mag(rest):
                r = False
        if r is None:
            A = self.atom(("cond", nm, self.fid(d)), True, "cond", False, (self.fid(d),))
            f = self.fid(self.of_atom(A))
            if f in self.assumed:
                r = self.assumed[f]
            else:
                return f
        return self.TRUE if r else 0

    def cond_el(self, n, idx):
        """condition element as form id (0: false)"""
        n = self.res(n)
        r = self.decide(n) if not idx else None
        if r is not None:
            return self.TRUE if r else 0
        if n.op == "cmp" and n.val in ("lt", "le", "gt", "ge", "eq", "ne"):
            a = self.bin_el(n, idx, 0)
            b = self.bin_el(n, idx, 1)
            d = self.sub(a, b)
            if n.val in self.CN:
                nm, sg = self.CN[n.val]
                if sg == -1:
                    d = self.scale(d, (Fr(-1), F0))
                # one spelling:  d <= 0  is  not (-d < 0)
                if nm == "le":
                    return self.cnot(self.cond_atom("lt", self.scale(d, (Fr(-1), F0))))
                return self.cond_atom(nm, d)
            d2 = self.scale(d, (Fr(-1), F0))
            d = d if self.fid(d) < self.fid(d2) else d2
            f = self.cond_atom("eq", d)
            return f if n.val == "eq" else self.cnot(f)
        if n.op in ("not", "invert") or n.op == "call" and canon(n.val) == "logical_not":
            return self.cnot(self.cond_el(n.args[0], idx))
        if n.op in ("and", "or", "band", "bor") or n.op == "mul" and all(
                self.is_mask(a) for a in n.args):
            cs = sorted(set(self.cond_el(a, self.bidx(idx, None, self.shape(a))) for a in n.args))
            nm = "and" if n.op in ("and", "band", "mul") else "or"
            return self.cjoin(nm, cs)
        f = self.el(n, idx)
        if not f:
            return 0
        if self.int_(f) is not None:
            return self.TRUE
        return self.as_cond(f)

    def as_cond(self, f):
        """truth of a value that is a condition, a product or a selection of them"""
        if not f:
            return 0
        if self.int_(f) is not None:
            return self.TRUE
        if len(f) == 1:
            (m, c), = f.items()
            if c == (1, 0) and not m[1] and m[0] and all(
                    self.atoms[a].kind in ("cond", "not", "where") for a, _ in m[0]):
                cs = []
                for a, _ in m[0]:
                    A = self.atoms[a]
                    if A.kind == "where":
                        w, x, y = A.data
                        x, y = self.as_cond(self.forms[x]), self.as_cond(self.forms[y])
                        cs.append(self.cjoin("or", sorted([
                            self.cjoin("and", sorted([w, x])),
                            self.cjoin("and", sorted([self.cnot(w), y]))])))
                    else:
                        cs.append(self.fid(self.of_atom(A)))
                return self.cjoin("and", sorted(set(cs)))
        i = self.fid(f)
        A = self.atom(("cond", "truth", i), True, "cond", True, (i,))
        return self.fid(self.of_atom(A))

    def cjoin(self, nm, cs):
        out = []
        for c in cs:
            if c == 0:
                if nm == "and":
                    return 0
            elif c == self.TRUE:
                if nm == "or":
                    return self.TRUE
            elif c not in out:
                out.append(c)
        for c in out:
            if self.cnot(c) in out:
                return 0 if nm == "and" else self.TRUE
        if not out:
            return self.TRUE if nm == "and" else 0
        if len(out) == 1:
            return out[0]
        A = self.atom(("cond", nm) + tuple(out), True, "cond", False, tuple(out))
        return self.fid(self.of_atom(A))

    def cnot(self, c):
        if c == 0:
            return self.TRUE
        if c == self.TRUE:
            return 0
        cf = self.forms[c]
        (m, _), = cf.items()
        A = self.atoms[m[0][0][0]]
        if A.kind == "not":
            return A.data[0]
        return self.fid(self.of_atom(self.atom(("not", c), True, "not", A.opaque, (c,))))

    def subst_cond(self, A, env, memo):
        ids = [self.fid(self.subst(self.forms[i], env, memo)) for i in A.data]
        nm = A.key[1]
        if nm in ("lt", "eq"):
            return self.forms[self.cond_atom(nm, self.forms[ids[0]])]
        if nm in ("and", "or"):
            return self.forms[self.cjoin(nm, sorted(ids))]
        return self.of_atom(self.atom(A.key[:2] + tuple(ids), True, "cond", A.opaque, tuple(ids)))

    def subst_not(self, A, env, memo):
        return self.forms[self.cnot(self.fid(self.subst(self.forms[A.data[0]], env, memo)))]

    def el_(self, n, idx):
        if n.id in self.given:
            return self.given[n.id][1](idx)
        op = n.op
        if op == "const":
            v = n.val
            if isinstance(v, bool):
                return self.num(int(v))
            if isinstance(v, (int, float, complex)):
                if v != v or abs(v) == float("inf"):
                    return self.opaque(n, ())
                return self.num(v)
            raise Unk("const %r" % (v,))
        if op == "pi":
            return self.PI
        if op == "ext":
            c = self.phys(n.val)
            if c is None:
                raise Unk("ext")
            return c
        if op == "sym":
            d = self.decl.get(n.val, {})
            if "value" in d:
                return d["value"](self, idx)
            a = self.elatom(n.val, idx, d.get("real", True))
            if d.get("positive"):
                self.positive.add(list(a)[0][0][0][0])
            if "square" in d:
                (m, _), = a.items()
                at = m[0][0][0]
                if at not in self.rules:
                    self.rules[at] = None
                    del self.rules[at]
                    self.rules[at] = d["square"](self, idx)
            return a
        if op == "range" and len(n.args) == 1 and len(idx) == 1:
            return idx[0]
        if op in ("iteridx", "rootvar", "anyidx"):
            return self.of_atom(self.atom(("ix", n.id), True, "ix"))
        if op == "rangeidx":
            a, _, s, i = n.args
            return self.add(self.el(a, ()), self.mul(self.el(s, ()), self.el(i, ())))
        if op in ("len",):
            v = self.cint(n)
            if v is not None:
                return self.num(v)
            d = self.dim_of_len(n)
            s = self.sh_try(n.args[0])
            return self.of_atom(self.atom(("dim", d), True, "dim", not s or isinstance(s[0], int) or not isinstance(s[0].key, str)))
        if op in ("add", "sub"):
            for k in (1, 0):
                if self.tiny(n.args[k]) and (k == 1 or op == "add"):
                    x = self.bin_el(n, idx, 1 - k)
                    return x if x else self.infinitesimal(n.args[k])
            a, b = self.bin_el(n, idx, 0), self.bin_el(n, idx, 1)
            return self.add(a, b) if op == "add" else self.sub(a, b)
        if op == "mul":
            a = self.bin_el(n, idx, 0)
            if not a:
                return {}
            return self.mul(a, self.bin_el(n, idx, 1))
        if op == "div":
            a, b = self.bin_el(n, idx, 0), self.bin_el(n, idx, 1)
            if not b:
                return self.opaque(n, idx)
            return self.mul(a, self.power(b, -1))
        if op == "pow":
            e = self.bin_el(n, idx, 1)
            b = self.bin_el(n, idx, 0)
            if not e or (len(e) == 1 and ONE_M in e and e[ONE_M][1] == 0):
                k = e[ONE_M][0] if e else F0
                if not b and k < 0:
                    return self.opaque(n, idx)
                return self.power(b, k)
            return self.fn("pow", [b, e])
        if op == "neg":
            return self.scale(self.el(n.args[0], idx), (Fr(-1), F0))
        if op in ("fdiv", "mod"):
            return self.floormod(op, self.bin_el(n, idx, 0), self.bin_el(n, idx, 1))
        if op == "cast":
            if n.val == "int":
                k = self.trunc(self.el(n.args[0], idx))
                if k is not None:
                    return self.num(k)
            return self.fn("cast_" + str(n.val), [self.el(n.args[0], idx)], True)
        if op == "phi":
            sa, sb = self.shape(n.args[1]), self.shape(n.args[2])
            a = self.el(n.args[1], self.bidx(idx, None, sa))
            b = self.el(n.args[2], self.bidx(idx, None, sb))
            if a == b:
                return a
            try:
                c = self.cond_el(n.args[0], ()) if self.rank(n.args[0]) == 0 else None
            except Unk:
                c = None
            if c is None:
                A = self.atom(("cond", "node", n.args[0].id), True, "cond", True, ())
                c = self.fid(self.of_atom(A))
            return self.where(c, a, b)
        if op in ("cmp", "not", "invert", "and", "or", "band", "bor"):
            return self.forms[self.cond_el(n, idx)]
        if op in ("seq", "tuple"):
            k = self.int_(idx[0])
            if k is None:
                vs = [self.el(a, idx[1:]) for a in n.args]
                if vs and all(v == vs[0] for v in vs):
                    return vs[0]
                return self.sel(idx[0], vs)
            return self.el(n.args[k], idx[1:])
        if op == "store":
            return self.store_el(n, idx)
        if op == "attr" and n.val == "shape" and len(idx) == 1:
            k = self.int_(idx[0])
            d = self.shape(n.args[0])[k] if k is not None else None
            if isinstance(d, int):
                return self.num(d)
        if op == "attr":
            if n.val == "T":
                return self.el(n.args[0], tuple(reversed(idx)))
            if n.val in ("real", "imag"):
                return self.reim(n.val, self.el(n.args[0], idx))
            if n.val in ("size", "ndim"):
                v = self.cint(n)
                if v is not None:
                    return self.num(v)
                return self.of_atom(self.atom(("size", str(self.shape(n.args[0]))), True, "dim"))
            return self.opaque(n, idx)
        if op == "index":
            b = self.res(n.args[0])
            if (b.op == "attr" and b.val == "shape" or b.op == "call" and canon(b.val) == "shape") and \
                    self.cint(n.args[1]) is not None:
                d = self.dim_of(n)
                if isinstance(d, int):
                    return self.num(d)
                return self.of_atom(self.atom(("dim", str(d)), True, "dim", not isinstance(d.key, str)))
            try:
                return self.index_el(n, idx)
            except Unk:
                return self.opaque(n, idx)
        if op == "item":
            i = self.el(n.args[1], ())
            return self.el(n.args[0], (i,) + tuple(idx))
        if op == "part":
            m = self.res(n.args[0])
            if m.op == "call":
                r = self.multi(m, n.val)
                if r is not None:
                    return r[1](idx) if r[1] is not None else self.opaque(n, idx)
            if isinstance(n.val, int):
                return self.el(m, (self.num(n.val),) + tuple(idx))
            raise Unk("part")
        if op == "mu":
            return self.mu_el(n, idx)
        if op in ("call", "meth"):
            f, A = self.as_call(n)
            return self.fn_el(f, A, n, idx)
        return self.opaque(n, idx)

    def dim_of_len(self, n):
        s = self.sh_try(n.args[0])
        return str(s[0]) if s else "len%d" % n.args[0].id

    def sel(self, i, vs):
        ids = (self.fid(i),) + tuple(self.fid(v) for v in vs)
        return self.of_atom(self.atom(("sel",) + ids, False, "sel", False, ids))

    def subst_sel(self, A, env, memo):
        i = self.subst(self.forms[A.data[0]], env, memo)
        vs = [self.subst(self.forms[x], env, memo) for x in A.data[1:]]
        k = self.int_(i)
        return vs[k] if k is not None else self.sel(i, vs)

    def reim(self, w, p):
        c = self.conj(p)
        if w == "real":
            return self.scale(self.add(p, c), (Fr(1, 2), F0))
        return self.scale(self.sub(p, c), (F0, Fr(-1, 2)))

    # loop-carried accumulation ---------------------------------------------------
    def mu_el(self, n, idx):
        back = n.inputs[1]
        if back is None:
            return self.el(n.inputs[0], idx)
        terms = []

        def strip(b):
            b = self.res(b)
            if b is n:
                return True
            if b.op == "add":
                if strip(b.args[0]):
                    terms.append(b.args[1])
                    return True
                if strip(b.args[1]):
                    terms.append(b.args[0])
                    return True
            return False
        if not strip(back):
            return self.opaque(n, idx)
        tot = self.el(n.inputs[0], self.bidx(idx, None, self.shape(n.inputs[0])))
        for t in terms:
            f = self.el(t, self.bidx(idx, None, self.shape(t)))
            its = [A for A in self.atoms_of(f).values()
                   if A.kind == "ix" and isinstance(A.key[1], int)]
            if len(its) != 1 or any(A.opaque and n.id in A.key for A in self.atoms_of(f).values()):
                return self.opaque(n, idx)
            src = "loop%d" % its[0].key[1]
            tot = self.add(tot, self.bigsum(f, its[0].id, src))
        return tot

    def bigsum(self, f, a, dom):
        """Sum over an index atom; linear, j-free factors pulled out"""
        r = {}
        for m, c in f.items():
            inn, out = [], []
            for x, q in m[0]:
                A = self.atoms[x]
                dep = x == a or a in self.atoms_of(self.of_atom(A))
                (inn if dep else out).append((x, q))
            e_in, e_out = {}, {}
            if m[1]:
                for mm, cc in self.forms[m[1]].items():
                    dep = any(x == a or a in self.atoms_of(self.of_atom(self.atoms[x]))
                              for x, _ in mm[0])
                    (e_in if dep else e_out)[mm] = cc
            if not inn and not e_in:
                d = self.of_atom(self.atom(("dim", str(dom)), True, "dim"))
                r = self.add(r, self.scale(self.mul({(m[0], m[1]): (F1, F0)}, d), c))
                continue
            # delta functions collapse the sum
            body = {(tuple(inn), self.fid(e_in) if e_in else 0): (F1, F0)}
            outm = {(tuple(out), self.fid(e_out) if e_out else 0): c}
            d = self.find_delta(inn, a)
            if d is not None:
                rest, val = d
                body = {(tuple(rest), self.fid(e_in) if e_in else 0): (F1, F0)}
                body = self.subst(body, {a: val})
                r = self.add(r, self.mul(outm, body))
                continue
            # canonical bound variable
            lvl = 0
            for A in self.atoms_of(body).values():
                if A.kind == "sum":
                    lvl = max(lvl, A.key[1] + 1)
            v = self.atom(("bv", lvl), True, "ix")
            b2 = self.subst(body, {a: self.of_atom(v)})
            sid = self.fid(b2)
            S = self.atom(("sum", lvl, str(dom), sid), self.is_real(b2), "sum",
                          False, (sid,))
            r = self.add(r, self.mul(outm, self.of_atom(S)))
        return r

    def find_delta(self, inn, a):
        for k, (x, q) in enumerate(inn):
            A = self.atoms[x]
            if A.kind == "mask" and A.key[0] == "delta" and q == 1:
                i, j = (self.forms[t] for t in A.data)
                for u, w in ((i, j), (j, i)):
                    if u == self.of_atom(self.atoms[a]) and a not in self.atoms_of(w):
                        return inn[:k] + inn[k + 1:], w
        return None

    def conj_sum(self, A):
        b = self.conj(self.forms[A.data[0]])
        return self.bigsum(b, self.atom(("bv", A.key[1]), True, "ix").id, A.key[2])

    def subst_sum(self, A, env, memo):
        bv = self.atom(("bv", A.key[1]), True, "ix").id
        env = {k: v for k, v in env.items() if k != bv}
        b = self.subst(self.forms[A.data[0]], env, {})
        return self.bigsum(b, bv, A.key[2])

    def sumover(self, f, d):
        """f(index form) summed over extent d"""
        if isinstance(d, int):
            if d > 64:
                raise Unk("long sum")
            r = {}
            for k in range(d):
                r = self.add(r, f(self.num(k)))
            return r
        self.nvar += 1
        v = self.atom(("ix", "s%d" % self.nvar), True, "ix")
        return self.bigsum(f(self.of_atom(v)), v.id, d)

    def delta(self, i, j):
        if i == j:
            return {ONE_M: (F1, F0)}
        k = self.int_(self.sub(i, j))
        if k is not None and k != 0:
            return {}
        a, b = sorted((self.fid(i), self.fid(j)))
        return self.of_atom(self.atom(("delta", a, b), True, "mask", False, (a, b)))

    def subst_mask(self, A, env, memo):
        i, j = (self.subst(self.forms[x], env, memo) for x in A.data)
        if A.key[0] == "delta":
            return self.delta(i, j)
        return self.less(i, j)

    def less(self, i, j):
        k = self.int_(self.sub(j, i))
        if k is not None:
            return {ONE_M: (F1, F0)} if k > 0 else {}
        a, b = self.fid(i), self.fid(j)
        return self.of_atom(self.atom(("less", a, b), True, "mask", False, (a, b)))

    # stores -----------------------------------------------------------------------
    def store_el(self, n, idx):
        base, key, val = n.args
        key = self.mask_of(key)
        s = self.shape(base)
        parts = list(key.args) if key.op == "tuple" else [key]
        if any(p.op == "const" and (p.val is None or p.val is Ellipsis) for p in parts):
            raise Unk("store key")
        while len(parts) < len(s):
            parts.append(None)
        vidx, conds, hit = [], [], True
        for p, i, d in zip(parts, idx, s):
            if p is None:
                vidx.append(i)
                continue
            p = self.res(p)
            if p.op == "slice":
                o = self.parse_slice(p, d, 0)
                if o[0] == "fslice":
                    raise Unk("store slice")
                if o[0] == "rev":
                    raise Unk("store slice")
                _, a, k, _, ext = o
                t = self.sub(i, self.num(a))
                q = self.divint(t, k)
                if q is None:
                    if self.nondiv(t, k):
                        hit = False
                        break
                    raise Unk("store stride")
                v = self.int_(q)
                if v is not None and (v < 0 or isinstance(ext, int) and v >= ext):
                    hit = False
                    break
                full = a == 0 and k == 1 and ext == d
                if v is None and not full and k == 1 and (a > 0 or ext != d):
                    if not (isinstance(ext, Dim) or self.bounded(i)):
                        raise Unk("partial slice store")
                vidx.append(q)
            else:
                t = self.truepos(p) if p.op == "call" else None
                if t is not None and len(t) == 1 and self.shape(val) == ():
                    v = t[0]
                else:
                    ps = self.shape(p)
                    if ps != () or self.is_mask(p):
                        return self.adv_store(n, idx)
                    v = self.cint(p)
                if v is not None and v < 0 and isinstance(d, int):
                    v += d
                f = self.num(v) if v is not None else self.el(p, ())
                if f == i:
                    continue
                k = self.int_(self.sub(f, i))
                if k is not None:
                    hit = False
                    break
                conds.append(self.delta(f, i))
        if not hit:
            return self.el(base, idx)
        sv = self.shape(val)
        ve = self.el(val, self.bidx(tuple(vidx), None, sv)) if len(sv) <= len(vidx) else None
        if ve is None:
            raise Unk("stored shape")
        if conds:
            m = {ONE_M: (F1, F0)}
            for c in conds:
                m = self.mul(m, c)
            b = self.el(base, idx)
            return self.add(self.mul(m, ve), self.mul(self.sub({ONE_M: (F1, F0)}, m), b))
        return ve

    def adv_store(self, n, idx):
        base, key, val = n.args
        key = self.mask_of(key)
        if key.op == "tuple" and len(key.args) == len(idx) == self.rank(base):
            # one position per entry of the index arrays: the last match counts
            here = [self.int_(i) for i in idx]
            sh = self.bcast([self.shape(a) for a in key.args if a.op != "slice"])
            d = self.shape(base)
            if None not in here and len(sh) == 1 and isinstance(sh[0], int) and all(
                    isinstance(x, int) for x in d) and not any(a.op == "slice" for a in key.args):
                hit = None
                for k in range(sh[0]):
                    at = [self.int_(self.el(a, self.bidx((self.num(k),), None, self.shape(a)))) for a in key.args]
                    if None in at:
                        raise Unk("advanced store")
                    if any(not -m <= x < m for x, m in zip(at, d)):
                        raise Unk("advanced store")
                    if [x % m for x, m in zip(at, d)] == here:
                        hit = k
                if hit is None:
                    return self.el(base, idx)
                return self.el(val, self.bidx((self.num(hit),), None, self.shape(val)))
        # boolean mask over the first axis (or all): x[mask] = scalar
        if key.op != "tuple" and self.is_mask(key):
            sm = self.shape(key)
            sv = self.shape(val)
            if sv == () and len(sm) == len(idx):
                c = self.cond_el(key, tuple(idx))
                return self.where(c, self.el(val, ()), self.el(base, idx))
            w = self.res(val)
            if w.op == "index" and self.rank(w.args[0]) == len(sm) == len(idx):
                k2 = self.mask_of(w.args[1])
                if k2.op != "tuple" and self.is_mask(k2) and self.shape(k2) == sm and \
                        self.cond_el(k2, tuple(idx)) == self.cond_el(key, tuple(idx)):
                    # x[mask] = y[mask]
                    return self.where(self.cond_el(key, tuple(idx)), self.el(w.args[0], idx), self.el(base, idx))
            if len(sv) == 1 and len(sm) == 1:
                ps, i = self.positions(key, sm), self.int_(idx[0])
                if ps is not None and i is not None:
                    if i not in ps:
                        return self.el(base, idx)
                    return self.el(val, self.bidx((self.num(ps.index(i)),) + tuple(idx[1:]), None, sv))
        sk = self.shape(key) if key.op != "tuple" else ()
        if len(sk) == 1 and isinstance(sk[0], int) and self.int_(idx[0]) is not None:
            # integer index array with known entries: the last match counts
            ks = [self.int_(self.el(key, (self.num(k),))) for k in range(sk[0])]
            d = self.shape(base)[0]
            if None not in ks and isinstance(d, int):
                i = self.int_(idx[0])
                hit = [k for k, v in enumerate(ks) if v % d == i]
                if not hit:
                    return self.el(base, idx)
                sv = self.shape(val)
                return self.el(val, self.bidx((self.num(hit[-1]),) + tuple(idx[1:]), None, sv))
        raise Unk("advanced store")

    def bounded(self, i):
        return False

    def divint(self, t, k):
        if k == 1:
            return t
        r = {m: (c[0] / k, c[1] / k) for m, c in t.items()}
        if all(c[0].denominator == 1 and c[1] == 0 for c in r.values()):
            return r
        return None

    def nondiv(self, t, k):
        """all symbolic parts are multiples of k and the constant part is not"""
        for m, c in t.items():
            if m == ONE_M:
                continue
            if c[1] != 0 or c[0].denominator != 1 or int(c[0]) % k:
                return False
        c = t.get(ONE_M, (F0, F0))
        return c[0].denominator == 1 and int(c[0]) % k != 0

    # functions ----------------------------------------------------------------------
    def fn_el(self, f, A, n, idx):
        try:
            return self.fn_el_(f, A, n, idx)
        except Unk:
            if any(e is n for e in self.empties):
                return self.of_atom(self.atom(("undefined", id(n)), True, "undefined", True, n))
            return self.array_fn(n, idx)

    def fn_el_(self, f, A, n, idx):
        if f in ("amax", "amin", "max", "min") and len(A) == 1 and not idx:
            r = self.extreme(n)
            if r is not None:
                return r
        if f == "searchsorted" and len(A) == 2 and all(k == "side" for k, _ in n.kw):
            side = self.kw(n, "side")
            v, s = self.rat(self.el(A[1], idx)), self.shape(A[0])
            if v is not None and len(s) == 1 and isinstance(s[0], int) and (side is None or side.op == "const"):
                xs = [self.rat(self.el(A[0], (self.num(k),))) for k in range(s[0])]
                if None not in xs and xs == sorted(xs):
                    right = side is not None and side.val == "right"
                    return self.num(sum(x <= v if right else x < v for x in xs))
        if f in ("argwhere", "flatnonzero"):
            t = self.truepos(n)
            if t is not None:
                return self.nth(t, idx)
        if f in ELEM1:
            if f in ("array", "asarray") and not A:
                raise Unk()
            x = self.el(A[0], idx)
            if f in ("int_", "int32", "int64", "intp", "floor", "ceil"):
                k = self.trunc(x, f)
                if k is not None:
                    return self.num(k)
            if f == "round":
                d = self.cint(A[1]) if len(A) == 2 else 0 if len(A) == 1 and not n.kw else None
                v = self.closed(x) if x else 0.
                if d is not None and v is not None and abs(v) * 10. ** d < 1e12:
                    v *= 10. ** d
                    if abs(v - math.floor(v) - .5) > 1e-6:
                        return self.num(Fr(round(v)) / Fr(10) ** d)
                if v is not None:
                    raise Unk("round")
            return self.elem1(f, x, n, idx)
        if f in ("multiply", "divide", "add", "subtract", "power", "hypot"):
            a = self.el(A[0], self.bidx(idx, None, self.shape(A[0])))
            b = self.el(A[1], self.bidx(idx, None, self.shape(A[1])))
            if f == "multiply":
                return self.mul(a, b)
            if f == "add":
                return self.add(a, b)
            if f == "subtract":
                return self.sub(a, b)
            if f == "divide":
                return self.mul(a, self.power(b, -1))
            if f == "hypot":
                return self.power(self.add(self.mul(a, self.conj(a)), self.mul(b, self.conj(b))), Fr(1, 2))
            k = b.get(ONE_M, (F0, F0)) if len(b) <= 1 else None
            if k is not None and (not b or ONE_M in b) and k[1] == 0:
                return self.power(a, k[0])
            return self.fn("pow", [a, b])
        if f in ELEM2:
            xs = [self.el(a, self.bidx(idx, None, self.shape(a))) for a in A[:2]]
            if f in ("remainder", "mod", "floor_divide"):
                return self.floormod("fdiv" if f == "floor_divide" else "mod", *xs)
            return self.fn(f, xs, True)
        if f == "where" and len(A) == 3:
            c = self.decide(A[0])
            xs = [self.el(a, self.bidx(idx, None, self.shape(a))) for a in A[1:]]
            if c is not None:
                return xs[0] if c else xs[1]
            if xs[0] == xs[1]:
                return xs[0]
            return self.where(self.cond_el(A[0], self.bidx(idx, None, self.shape(A[0]))), *xs)
        if f == "outer":
            return self.mul(self.el1(A[0], idx[0]), self.el1(A[1], idx[1]))
        if f in ("dot", "spdot", "inner", "vdot"):
            sa, sb = self.shape(A[0]), self.shape(A[1])
            if f in ("inner", "vdot") and (len(sa) != 1 or len(sb) != 1):
                raise Unk(f)
            if not sa or not sb:
                return self.mul(self.el(A[0], self.bidx(idx, None, sa)),
                                self.el(A[1], self.bidx(idx, None, sb)))
            ia = idx[:len(sa) - 1]
            ib = idx[len(sa) - 1:]
            d = sa[-1] if isinstance(sa[-1], int) else sb[-2] if len(sb) > 1 else sb[-1]
            if not isinstance(d, int):
                d = sa[-1]

            def g(j):
                x = self.el(A[0], tuple(ia) + (j,))
                if not x:
                    return {}
                if f == "vdot":
                    x = self.conj(x)
                y = self.el(A[1], (j,) if len(sb) == 1 else tuple(ib[:-1]) + (j,) + tuple(ib[-1:]))
                return self.mul(x, y)
            return self.sumover(g, d)
        if f in ("transpose", "reshape", "ravel", "flatten", "squeeze", "expand_dims", "swapaxes", "repeat"):
            _, g = self.rearr(f, A, n)
            return self.el(A[0], g(tuple(idx)))
        if f in ("toeplitz", "scipy.linalg.toeplitz"):
            k = self.int_(self.sub(idx[0], idx[1]))
            if k is None:
                raise Unk("toeplitz")
            if k >= 0:
                return self.el1(A[0], self.num(k))
            x = self.el1(A[-1], self.num(-k))
            return x if len(A) > 1 else self.conj(x)
        if f == "fill_diagonal" and len(A) == 2 and len(idx) == 2:
            sv = self.shape(A[1])
            if any(d != 1 for d in sv[:-1]):
                raise Unk("fill_diagonal value")
            dlt = self.delta(*idx)
            v = self.el(A[1], tuple(self.num(0) for _ in sv[:-1]) + (
                (self.num(0) if sv[-1] == 1 else idx[0],) if sv else ()))
            return self.add(self.mul(dlt, v), self.mul(self.sub(self.num(1), dlt), self.el(A[0], idx)))
        if f in ("zeros", "zeros_like"):
            return {}
        if f in ("ones", "ones_like"):
            return {ONE_M: (F1, F0)}
        if f in ("full", "full_like"):
            return self.el(A[1], ())
        if f in ("eye", "identity"):
            return self.delta(idx[0], idx[1])
        if f == "diag":
            s = self.shape(A[0])
            if len(s) == 1:
                if idx[0] == idx[1]:
                    return self.el(A[0], (idx[0],))
                return self.mul(self.delta(idx[0], idx[1]), self.el(A[0], (idx[0],)))
            return self.el(A[0], (idx[0], idx[0]))
        if f in ("triu", "tril"):
            k = self.kw(n, "k", 1)
            k = 0 if k is None else self.cint(k)
            if k is None:
                raise Unk()
            i, j = idx[-2:]
            x = self.el(A[0], idx[-self.rank(A[0]):])
            if f == "triu":      # j - i >= k  <=>  i < j - k + 1
                return self.mul(self.less(i, self.add(j, self.num(1 - k))), x)
            return self.mul(self.less(j, self.add(i, self.num(k + 1))), x)
        if f in ("sum", "norm", "builtins.sum", "mean"):
            s = self.shape(A[0])
            ax = self.axis(n, 2 if f == "norm" else 1, len(s))
            if f == "norm" and self.kw(n, "ord", 1) is not None:
                raise Unk("norm order")
            sq = f == "norm"
            kd = self.kw(n, "keepdims")
            if kd is not None and ax is not None:
                idx = idx[:ax] + idx[ax + 1:]
            if f == "builtins.sum":
                ax = 0

            def body(ix):
                x = self.el(A[0], ix)
                return self.mul(x, self.conj(x)) if sq else x
            if ax is None:
                def rec(pre, rest):
                    if not rest:
                        return body(tuple(pre))
                    return self.sumover(lambda j: rec(pre + [j], rest[1:]), rest[0])
                r = rec([], list(s))
            else:
                r = self.sumover(lambda j: body(tuple(idx[:ax]) + (j,) + tuple(idx[ax:])), s[ax])
            if f == "mean":
                d = s[ax] if ax is not None else None
                if not isinstance(d, int):
                    raise Unk("mean")
                return self.scale(r, (Fr(1, d), F0))
            return self.power(r, Fr(1, 2)) if sq else r
        if f in ("hstack", "concatenate", "vstack", "append", "stack"):
            sh, (kind, parts, ax, shs) = self.stack(f, A, n)
            i = self.int_(idx[ax])
            if i is None:
                return self.stack_pick(n, idx, ax, sh[ax])
            if kind == "stack":
                return self.el(parts[i], idx[:ax] + idx[ax + 1:])
            for p, s in zip(parts, shs):
                d = s[ax]
                if not isinstance(d, int):
                    if i == 0:
                        d = i + 1
                    else:
                        raise Unk("stack")
                if i < d:
                    ii = tuple(idx[:ax]) + (self.num(i),) + tuple(idx[ax + 1:])
                    ii = tuple({} if dd == 1 else x for dd, x in zip(s, ii))
                    real = self.shape(p)
                    return self.el(p, ii[len(ii) - len(real):] if len(real) < len(ii) else ii)
                i -= d
            raise Unk("stack index")
        if f in SPARSE:
            c = self.coo_parts(n, A)
            if c is None:
                return self.el(A[0], idx)
            i, j = self.int_(idx[0]), self.int_(idx[1])
            if i is None or j is None:
                raise Unk("sparse")
            r = {}
            for k, (a, b) in enumerate(zip(c[1], c[2])):
                if (a, b) == (i, j):
                    r = self.add(r, self.el(c[0], (self.num(k),)))
            return r
        if f == "block_diag" and not n.kw:
            i, j = self.int_(idx[0]), self.int_(idx[1])
            if i is None or j is None:
                raise Unk("block_diag")
            for a in A:
                s = self.shape(a)
                if i < s[0] and j < s[1]:
                    return self.el(a, (self.num(i), self.num(j)))
                if i < s[0] or j < s[1]:
                    return {}
                i, j = i - s[0], j - s[1]
            raise Unk("block_diag")
        if f == "roll":
            s = self.shape(A[0])
            k = self.cint(A[1])
            ax = self.axis(n, 2, len(s))
            if ax is None and len(s) > 1:
                if len([d for d in s if d != 1]) != 1:
                    raise Unk("roll")
                ax = [i for i, d in enumerate(s) if d != 1][0]
            ax = ax or 0
            i = self.int_(idx[ax])
            if k is None or not isinstance(s[ax], int):
                raise Unk("roll")
            if i is None:
                return self.opaque_roll(A[0], k, ax, s[ax], idx)
            return self.el(A[0], tuple(idx[:ax]) + (self.num((i - k) % s[ax]),) + tuple(idx[ax + 1:]))
        if f == "tile" and len(A) == 2:
            s = self.shape(A[0])
            out = []
            reps = self.tile_reps(A)
            reps = (1,) * (len(s) - len(reps)) + tuple(reps)
            for d, b, i in zip(s, reps[len(reps) - len(s):], tuple(idx)[len(idx) - len(s):]):
                if d == 1:
                    out.append({})
                elif b == 1:
                    out.append(i)
                else:
                    k = self.int_(i)
                    if k is None or not isinstance(d, int):
                        raise Unk("tile")
                    out.append(self.num(k % d))
            return self.el(A[0], tuple(out))
        if f == "arange":
            st, step = self.num(0), self.num(1)
            if len(A) >= 2:
                st = self.el(A[0], ())
            if len(A) >= 3:
                step = self.el(A[2], ())
            return self.add(st, self.mul(step, idx[0]))
        if f == "linspace":
            a, b = self.el(A[0], ()), self.el(A[1], ())
            k = self.kw(n, "num", 2)
            N = self.el(k, ()) if k is not None else self.num(50)
            ep = self.kw(n, "endpoint", 3)
            den = N if ep is not None and ep.op == "const" and not ep.val else self.sub(N, self.num(1))
            if not den:
                return a
            return self.add(a, self.mul(self.mul(self.sub(b, a), idx[0]), self.power(den, -1)))
        if f == "cumsum" and len(A) == 1 and not n.kw:
            k, s = self.int_(idx[0]), self.shape(A[0])
            if k is None or len(s) != 1:
                raise Unk("cumsum")
            r = {}
            for j in range(k + 1):
                r = self.add(r, self.el(A[0], (self.num(j),)))
            return r
        if f == "diff" and self.kw(n, "n", 1) is None:
            ax = self.kw(n, "axis", 2)
            ax = (self.cint(ax) if ax is not None else -1) % len(idx)
            up = tuple(self.add(i, self.num(1)) if k == ax else i for k, i in enumerate(idx))
            return self.sub(self.el(A[0], up), self.el(A[0], tuple(idx)))
        if f == "cross":
            sa, sb = self.shape(A[0]), self.shape(A[1])
            k = self.int_(idx[-1])
            if k is None or sa[-1:] != (3,) or sb[-1:] != (3,):
                raise Unk("cross")
            i, j = (k + 1) % 3, (k + 2) % 3
            g = lambda a, s, t: self.el(a, self.bidx(tuple(idx[:-1]) + (self.num(t),), None, s))
            return self.sub(self.mul(g(A[0], sa, i), g(A[1], sb, j)),
                            self.mul(g(A[0], sa, j), g(A[1], sb, i)))
        if f in ("size", "ndim"):
            v = self.cint(n)
            if v is not None:
                return self.num(v)
        if f in ("builtins.max", "builtins.min"):
            xs = [self.el(a, ()) for a in (A if len(A) > 1 else self.seq_items(A[0]))]
            tiny = [k for k, a in enumerate(A) if self.tiny(a)]
            xs2 = [x for k, x in enumerate(xs) if k not in tiny]
            if f == "builtins.max" and len(xs2) == 1 and tiny:
                return xs2[0]       # floor at a regulariser
            vs = [self.closed(x) if x else 0. for x in xs]
            if vs and None not in vs:
                return xs[vs.index((max if f == "builtins.max" else min)(vs))]
            return self.extreme_of(f, xs)
        if f == "inv":
            if self.expand_inv and self.shape(A[0]) == (2, 2):
                return self.inv2(A[0], idx)
            return self.array_fn(n, idx)
        if f == "solve" and len(A) == 2 and self.expand_inv and self.shape(A[0]) == (2, 2):
            r = {}
            for k in range(2):
                r = self.add(r, self.mul(self.inv2(A[0], (idx[0], self.num(k))),
                                         self.el(A[1], (self.num(k),) + tuple(idx[1:]))))
            return r
        raise Unk(f)

    def inv2(self, a, idx):
        """element of the inverse of a 2 x 2 matrix"""
        i, j = (self.int_(k) for k in idx)
        if i is None or j is None:
            raise Unk("inverse")
        e = lambda p, q: self.el(a, (self.num(p), self.num(q)))
        det = self.sub(self.mul(e(0, 0), e(1, 1)), self.mul(e(0, 1), e(1, 0)))
        x = e(1 - i, 1 - i) if i == j else self.scale(e(i, j), (Fr(-1), F0))
        return self.mul(x, self.power(det, -1))

    def opaque_roll(self, a, k, ax, d, idx):
        vs = [self.el(a, tuple(idx[:ax]) + (self.num((i - k) % d),) + tuple(idx[ax + 1:]))
              for i in range(d)]
        return self.sel(idx[ax], vs)

    def absval(self, x):
        return self.rootnn(self.mul(x, self.conj(x)), Fr(1, 2))

    def elem1(self, f, x, n, idx):
        if f == "exp":
            return self.exp(x)
        if f == "sin":
            return self.sin(x)
        if f == "cos":
            return self.cos(x)
        if f == "tan":
            return self.mul(self.sin(x), self.power(self.cos(x), -1))
        if f in ("sqrt", "sqrt_ag"):
            return self.power(x, Fr(1, 2))
        if f == "abs":
            return self.absval(x)
        if f in ("real", "imag"):
            return self.reim(f, x)
        if f in ("conj", "conjugate"):
            return self.conj(x)
        if f == "square":
            return self.mul(x, x)
        if f in ("sinh", "cosh", "tanh"):
            u, v = self.exp(x), self.exp(self.scale(x, (Fr(-1), F0)))
            s, c = self.scale(self.sub(u, v), (Fr(1, 2), F0)), self.scale(self.add(u, v), (Fr(1, 2), F0))
            return s if f == "sinh" else c if f == "cosh" else self.mul(s, self.power(c, -1))
        if f == "negative":
            return self.scale(x, (Fr(-1), F0))
        if f in ("array", "asarray", "copy", "float_", "ascontiguousarray", "asanyarray"):
            return x
        if f == "angle":
            r = self.angle(x)
            deg = self.kw(n, "deg", 1)
            if deg is None or deg.op == "const" and not deg.val:
                return r
            if deg.op != "const":
                raise Unk("angle unit")
            return self.mul(r, self.mul(self.num(180), self.power(self.PI, -1)))
        return self.fn(f.split(".")[-1], [x], self.is_real(x))

    def angle(self, x):
        a, b = self.reim("real", x), self.reim("imag", x)
        a, b = (self.closed(p) if p else 0. for p in (a, b))
        if a is not None and b is not None:
            t = math.atan2(b, a) / math.pi
            q = Fr(t).limit_denominator(360)
            if abs(q - t) < 1e-12:
                return self.scale(self.PI, (q, F0)) if q else {}
        return self.fn("angle", [x], True)

    def infinitesimal(self, n):
        """a regulariser on its own: a power of an infinitesimal"""
        c = self.num(abs(n.val))[ONE_M][0]
        k = 0
        while c < 1 and k < 400:
            c *= 10
            k += 1
        a = self.atom(("infinitesimal",), True, "inf")
        self.positive.add(a.id)
        return self.of_atom(a, Fr(k))

    # comparison --------------------------------------------------------------------------
    def compare(self, p, q):
        """'equal', 'different' or 'unknown'"""
        try:
            d = self.sub(p, q)
            # rounding of folded constants
            d = {m: c for m, c in d.items() if m not in p or m not in q or
                 abs(c[0]) + abs(c[1]) > Fr(1, 10**12) * (abs(p[m][0]) + abs(p[m][1]))}
            if not d or len(d) <= 12 and not self.numer(d):
                return "equal"
        except (TooBig, ZeroDivisionError):
            pass
        seen = self.atoms_of(d)
        pick = any(A.kind == "fn" and A.key[1] in ("builtins.max", "builtins.min") for A in seen.values())
        n = 40 if pick or any(A.kind in ("where", "cond") for A in seen.values()) else 5
        r = rnd.compare(self, d, {}, n)
        if r == "equal" and not rnd.coincident(self, d):
            return "unknown"
        if r == "equal" and any(A.kind in ("where", "cond") for A in seen.values()) and \
                rnd.signed(self, d) is False:
            r = "mixed"
        if r in ("equal", "unknown"):
            return r
        if any(A.opaque for A in seen.values()):
            return "unknown"
        choice = pick or any(A.kind in ("where", "sel", "cond") for A in seen.values())
        if r == "mixed" and not choice:
            return "unknown"
        if any(A.kind == "sel" for A in seen.values()):
            return "unknown"
        return "different"

    def cases(self, p, limit=8):
        """forms of p under every outcome of its selections [(assignment, form)]"""
        out = []

        def rec(f, asg):
            w = [A for A in self.atoms_of(f).values() if A.kind == "where"]
            if not w or len(asg) >= limit:
                out.append((asg, f))
                return
            c = w[0].data[0]
            for val in (True, False):
                env = {}
                for A in w:
                    if A.data[0] == c:
                        env[A.id] = self.forms[A.data[1] if val else A.data[2]]
                rec(self.subst(f, env), asg + [(c, val)])
        rec(p, [])
        return out


class Oracle(object):
    """extents of arrays for the interpreter's loops, from the client's declarations"""

    def __init__(self, I, decl):
        self.I, self.decl = I, decl

    def length(self, n, st):
        try:
            s = Alg(self.I, st, self.decl).shape(n)
        except (Unk, TooBig, ZeroDivisionError, RecursionError):
            return None
        return s[0] if s and isinstance(s[0], int) else None

    def truth(self, n, st):
        """outcome of a comparison between inputs declared positive"""
        if not any(d.get("positive") for d in self.decl.values()):
            return None
        try:
            A = Alg(self.I, st, self.decl)
            A.generic = any(d.get("generic") for d in self.decl.values())
            return A.decide(n)
        except (Unk, TooBig, ZeroDivisionError, RecursionError):
            return None

    def cint(self, n, st):
        try:
            return Alg(self.I, st, self.decl).cint(n)
        except (Unk, TooBig, ZeroDivisionError, RecursionError):
            return None
