"""Dimension inference on the value graph (unification over Q-linear forms).

Every value gets a linear form over base dimensions and dimension variables.
Additions, comparisons, selections, joins, loops and stores generate equations;
a contradictory equation is a homogeneity error at the node that generated it.
"""
from fractions import Fraction as Fr

from .engine import canon
from .ir import pp

ZERO = {}
SAME = {"real", "imag", "conj", "abs", "transpose", "sum", "amax", "amin", "max",
        "min", "sort", "reshape", "ravel", "squeeze", "tile", "roll", "triu", "tril",
        "diag", "norm", "asarray", "array", "copy", "flip", "fliplr", "flipud",
        "repeat", "mean", "expand_dims", "swapaxes", "unique", "diagonal", "trace",
        "atleast_1d", "atleast_2d", "asanyarray", "ascontiguousarray", "nansum",
        "cumsum", "diff", "float_", "nan_to_num", "broadcast_to", "moveaxis",
        "int_", "round", "rint", "floor", "ceil", "fix", "ptp", "median", "around",
        "std", "builtins.max1", "builtins.min1", "builtins.list", "rot90", "squeeze",
        "linalg.norm", "split", "array_split", "hsplit", "vsplit", "astype", "flatten",
        "csr_matrix", "coo_matrix", "bsr_matrix", "csc_matrix", "scipy.sparse.csr_matrix",
        "scipy.sparse.coo_matrix", "scipy.sparse.bsr_matrix", "todense", "toarray",
        "tocsr", "tocoo", "tolist", "conjugate", "item", "dagger"}
UNIFY = {"concatenate", "hstack", "vstack", "stack", "append", "linspace", "arange",
         "builtins.max", "builtins.min", "maximum", "minimum", "block_diag",
         "scipy.linalg.block_diag", "toeplitz", "scipy.linalg.toeplitz", "meshgrid",
         "column_stack", "clip", "hypot", "builtins.sum", "dstack", "block",
         "add_outer", "union1d", "insert"}
DIMLESS_ARG = {"exp", "sin", "cos", "tan", "tanh", "sinh", "cosh", "log",
               "scipy.special.j1", "autograd.scipy.special.j1", "special.j1", "arcsin",
               "arccos", "arctan", "sinc", "expm1", "log1p", "j1", "scipy.special.jv"}
INDEX = {"argsort", "argmax", "argmin", "argwhere", "nonzero", "ix_", "shape", "size",
         "ndim", "searchsorted", "isclose", "allclose", "any", "all", "isnan",
         "isfinite", "lexsort", "builtins.any", "builtins.all", "logical_and",
         "logical_or", "logical_not", "triu_indices", "tril_indices", "indices",
         "count_nonzero", "isin", "in1d", "array_equal", "iscomplex", "isreal"}
MUL = {"dot", "outer", "inner", "cross", "matmul", "kron", "tensordot", "vdot", "multiply",
       "einsum2"}
ANY = {"zeros", "empty", "zeros_like", "full_like?", "empty_like"}
ONE = {"ones", "eye", "identity", "ones_like", "angle", "sign", "int", "bool"}


class Tup(object):
    def __init__(self, items):
        self.items = items


class Dims(object):
    def __init__(self, I, st, syms, bounds=True, parity=None):
        self.I, self.st = I, st
        self.syms = syms
        self.bounds = bounds
        self.parity = {}
        if parity is not None:
            groups = {}
            for n in I.g.nodes:
                x = self.mod2(n)
                if x is not None:
                    gr = groups.setdefault(x.site[2] if x.site else None, [])
                    if x not in gr:
                        gr.append(x)
            for gr in groups.values():
                gr.sort(key=lambda n: n.id)
                for i, x in enumerate(gr):
                    self.parity[x.id] = parity[min(i, 1)]
        self.memo = {}
        self.nv = 0
        self.sub = {}
        self.conflicts = {}
        self.equations = 0
        self.unknown = {}
        self.deps = {}

    # linear forms ---------------------------------------------------------
    def fresh(self):
        self.nv += 1
        return {("v", self.nv): Fr(1)}

    @staticmethod
    def lin(a, b, k=Fr(1)):
        r = dict(a)
        for x, c in b.items():
            v = r.get(x, 0) + k * c
            if v:
                r[x] = v
            else:
                r.pop(x, None)
        return r

    @staticmethod
    def scale(a, k):
        return {x: c * k for x, c in a.items()} if k else {}

    def red(self, f):
        while True:
            for x in f:
                if x in self.sub:
                    c = f[x]
                    f = dict(f)
                    del f[x]
                    f = self.lin(f, self.sub[x], c)
                    break
            else:
                return f

    def eqn(self, a, b, node, why):
        if a is None or b is None:
            return
        if isinstance(a, Tup) or isinstance(b, Tup):
            if isinstance(a, Tup) and isinstance(b, Tup):
                for x, y in zip(a.items, b.items):
                    self.eqn(x, y, node, why)
            elif isinstance(a, Tup):
                for x in a.items:
                    self.eqn(x, b, node, why)
            else:
                for x in b.items:
                    self.eqn(a, x, node, why)
            return
        self.equations += 1
        d = self.red(self.lin(a, b, Fr(-1)))
        if not d:
            return
        vs = [x for x in d if isinstance(x, tuple)]
        if vs:
            v = vs[0]
            c = d[v]
            e = {x: -k / c for x, k in d.items() if x != v}
            self.sub[v] = e
            return
        site = self.near(node)
        key = (site, why)
        if key not in self.conflicts:
            self.conflicts[key] = (node, self.red(a), self.red(b), why)

    @staticmethod
    def near(node):
        q = [node]
        for _ in range(400):
            if not q:
                break
            n = q.pop(0)
            if n.site and n.site[0] != "<client>":
                return n.site
            q.extend(x for x in n.operands() if x is not None)
        return node.site

    def show(self, f):
        if f is None:
            return "?"
        if isinstance(f, Tup):
            return "(%s)" % ", ".join(self.show(x) for x in f.items)
        f = self.red(f)
        s = " ".join("%s^%s" % (x if not isinstance(x, tuple) else "?%d" % x[1], c)
                     for x, c in sorted(f.items(), key=str))
        return s or "1"

    # selections by the parity of a mode index -----------------------------
    @staticmethod
    def mod2(n):
        if n.op == "mod" or n.op == "call" and canon(n.val) in ("remainder", "mod"):
            if len(n.args) == 2 and n.args[1].op == "const" and n.args[1].val == 2:
                return n.args[0]
        return None

    def cond(self, n):
        """truth of a selection condition in this context, or None"""
        if n.op == "const":
            return bool(n.val)
        x = self.mod2(n)
        if x is not None:
            p = self.parity.get(x.id)
            return None if p is None else p == 1
        if n.op == "not":
            c = self.cond(n.args[0])
            return None if c is None else not c
        if n.op in ("and", "or"):
            cs = [self.cond(a) for a in n.args]
            if n.op == "and":
                return False if False in cs else (True if None not in cs else None)
            return True if True in cs else (False if None not in cs else None)
        if n.op == "cmp" and n.val in ("eq", "ne"):
            a, b = (self.const(x) for x in n.args)
            if a is None or b is None:
                return None
            return (a[0] == b[0]) == (n.val == "eq")
        if n.op == "phi":
            c = self.cond(n.args[0])
            if c is not None:
                return self.cond(n.args[1] if c else n.args[2])
        return None

    def const(self, n):
        if n.op == "const":
            return (n.val,)
        x = self.mod2(n)
        if x is not None:
            p = self.parity.get(x.id)
            return None if p is None else (p,)
        if n.op == "phi":
            c = self.cond(n.args[0])
            if c is not None:
                return self.const(n.args[1] if c else n.args[2])
        return None

    def on_parity(self, n, d=0):
        """does a condition mention the parity of a mode index?"""
        if self.mod2(n) is not None:
            return True
        if d > 8 or n.op in ("mu", "index", "item"):
            return False
        return any(self.on_parity(a, d + 1) for a in n.args)

    # nodes ----------------------------------------------------------------
    def num(self, n):
        """form of an operand used additively: small and zero constants adapt"""
        if n.op == "const":
            v = n.val
            if isinstance(v, bool) or not isinstance(v, (int, float, complex)):
                return None
            if abs(v) < 1e-3 or abs(v) > 1e7:
                return self.fresh()
            return ZERO
        if self.is_shift(n):
            return self.fresh()     # added multiple of the identity: a shift
        return self.of(n)

    def is_shift(self, n):
        if n.op == "call" and canon(n.val) in ("eye", "ones", "identity", "ones_like", "full"):
            if canon(n.val) == "full":
                return len(n.args) > 1 and n.args[1].op == "const"
            return True
        if n.op == "neg":
            return self.is_shift(n.args[0])
        if n.op == "mul":
            a, b = n.args
            return (a.op == "const" and self.is_shift(b)) or (b.op == "const" and self.is_shift(a))
        return False

    def unshift(self, n):
        """a shifted eigenvalue target without its constant shift"""
        if n.op in ("add", "sub"):
            k = [a for a in n.args if a.op != "const"]
            if len(k) == 1:
                return k[0]
        return n

    def of(self, n):
        if n.op == "const":
            return self.compute(n)
        m = self.memo.get(n.id)
        if m is not None or n.id in self.memo:
            return m
        if n.op == "mu":
            v = self.fresh()
            self.memo[n.id] = v
            t0 = self.num(n.inputs[0]) if n.inputs[0] is not None else None
            if isinstance(t0, Tup):
                self.memo[n.id] = v = t0
            elif t0 is not None:
                self.eqn(v, t0, n, "loop-carried value changes dimension")
            if n.inputs[1] is not None:
                t1 = self.num(n.inputs[1])
                self.eqn(v, t1, n, "loop-carried value changes dimension")
            return v
        self.memo[n.id] = None
        r = self.compute(n)
        self.memo[n.id] = r
        return r

    def flat(self, t, n):
        """a single form for a possibly structured value"""
        if isinstance(t, Tup):
            r = None
            for x in t.items:
                x = self.flat(x, n)
                if x is None:
                    continue
                if r is None:
                    r = x
                else:
                    self.eqn(r, x, n, "array mixes quantities of different dimension")
            return r
        return t

    def comp0(self, t):
        while isinstance(t, Tup):
            if not t.items:
                return None
            t = t.items[0]
        return t

    def unify(self, ts, n, why):
        r = None
        for t in ts:
            if t is None:
                continue
            if r is None:
                r = t
            else:
                self.eqn(r, t, n, why)
        return r

    def compute(self, n):
        op = n.op
        if op == "const":
            if isinstance(n.val, (int, float, complex)) and not isinstance(n.val, bool):
                return self.fresh() if n.val == 0 else ZERO
            return None
        if op == "sym":
            d = self.syms.get(n.val)
            return d if d is not None else None
        if op == "pi":
            return ZERO
        if op in ("undef", "builtin", "ext", "func", "bound", "class", "typeof", "fstr",
                  "range", "slice", "not", "unknown"):
            return None
        if op in ("iteridx", "rangeidx", "len", "anyidx", "and", "or", "invert", "band",
                  "bor", "hasattr", "isinstance"):
            for a in n.args:
                if op in ("and", "or"):
                    self.of(a)
            return ZERO
        if op == "cmp":
            self.unify([self.flat(self.num(a), n) for a in n.args], n, "comparison of different dimensions") \
                if n.val in ("lt", "le", "gt", "ge", "eq", "ne") else None
            return ZERO
        if op in ("add", "sub"):
            return self.unify([self.flat(self.num(a), n) for a in n.args], n,
                              "sum of different dimensions")
        if op == "mul":
            a, b = (self.flat(self.of(x), n) for x in n.args)
            if a is None or b is None:
                return None
            return self.lin(a, b)
        if op in ("div", "fdiv"):
            a, b = (self.flat(self.of(x), n) for x in n.args)
            if a is None or b is None:
                return None
            return self.lin(a, b, Fr(-1))
        if op == "mod":
            a, b = (self.flat(self.of(x), n) for x in n.args)
            return a
        if op == "neg":
            return self.of(n.args[0])
        if op == "pow":
            a = self.flat(self.of(n.args[0]), n)
            e = n.args[1]
            if e.op == "neg" and e.args[0].op == "const":
                k = -e.args[0].val
            elif e.op == "const":
                k = e.val
            else:
                self.eqn(a, ZERO, n, "non-constant power of a dimensional quantity")
                return ZERO
            if a is None or not isinstance(k, (int, float)):
                return None
            return self.scale(a, Fr(k).limit_denominator(64))
        if op == "phi":
            self.of_cond(n.args[0])
            c = self.cond(n.args[0])
            if c is not None:
                return self.num(n.args[1] if c else n.args[2])
            if self.on_parity(n.args[0]):
                return None
            return self.unify([self.num(a) for a in n.args[1:]], n, "branches of different dimension")
        if op == "join":
            return self.unify([self.num(a) for a in n.args], n, "branches of different dimension")
        if op == "tuple":
            return Tup([self.of(a) for a in n.args])
        if op == "seq":
            return Tup([self.of(a) for a in n.args])
        if op == "sumseq":
            return self.of(n.args[0])
        if op == "ref":
            h = self.st.heap.get(n.val)
            if h is None or h.kind not in ("list", "set"):
                return None
            its = [self.of(x) for x in (h.elems or [])]
            if h.summ is not None:
                return self.unify(its + [self.of(h.summ)], n, "list mixes dimensions")
            return Tup(its)
        if op == "store":
            base = self.flat(self.of(n.args[0]), n)
            v = self.flat(self.num(n.args[-1]), n)
            return self.unify([base, v], n, "stored value of different dimension")
        if op == "index":
            t = self.of(n.args[0])
            i = n.args[1]
            if isinstance(t, Tup):
                if i.op == "const" and isinstance(i.val, int) and \
                        -len(t.items) <= i.val < len(t.items):
                    return t.items[i.val]
                return self.flat(t, n)
            return t
        if op == "item":
            t = self.of(n.args[0])
            i = n.args[1]
            if isinstance(t, Tup):
                if i.op == "const" and isinstance(i.val, int) and \
                        -len(t.items) <= i.val < len(t.items):
                    return t.items[i.val]
                if t.items and all(isinstance(x, Tup) for x in t.items) and \
                        len(set(len(x.items) for x in t.items)) == 1:
                    return Tup([self.unify(list(c), n, "list mixes dimensions")
                                for c in zip(*[x.items for x in t.items])])
                return self.flat(t, n)
            return t
        if op == "ditem":
            return None
        if op == "part":
            t = self.of(n.args[0])
            if isinstance(t, Tup):
                try:
                    return t.items[int(n.val)]
                except (ValueError, IndexError, TypeError):
                    return self.flat(t, n)
            return t
        if op in ("cast", "star", "astuple"):
            return self.of(n.args[0]) if n.args else None
        if op == "root":
            x = n.args[0]
            b = [self.flat(self.of(a), n) for a in n.args[2:4]] if self.bounds else []
            r = self.of(x)
            self.unify([r] + b, n, "root search bounds of different dimension")
            self.rootfn(n.args[1])
            return r
        if op == "rootvar":
            b = [self.flat(self.of(a), n) for a in n.args] if self.bounds else []
            r = self.fresh()
            self.unify([r] + b, n, "root search bounds of different dimension")
            return r
        if op == "primres":
            return self.of(n.args[0])
        if op == "attr":
            if n.val in ("T", "real", "imag", "_value", "data", "flat"):
                return self.of(n.args[0])
            self.of(n.args[0])
            return ZERO if n.val in ("shape", "size", "ndim") else None
        if op == "meth":
            v = n.val
            if v in SAME or v in ("max", "min", "sum", "mean"):
                return self.of(n.args[0])
            if v in ("dot",):
                a, b = self.flat(self.of(n.args[0]), n), self.flat(self.of(n.args[1]), n)
                return None if a is None or b is None else self.lin(a, b)
            if v in ("any", "all", "argmin", "argmax", "argsort", "nonzero"):
                return ZERO
            self.unknown["." + str(v)] = self.unknown.get("." + str(v), 0) + 1
            return None
        if op == "call":
            return self.call(n)
        self.unknown[op] = self.unknown.get(op, 0) + 1
        return None

    def rootfn(self, n):
        """only the zeros of the function matter: its cases need not agree"""
        if n.op == "phi":
            for a in n.args[1:]:
                self.rootfn(a)
        elif n.op == "call" and canon(n.val) == "real":
            self.rootfn(n.args[0])
        else:
            self.of(n)

    def of_cond(self, n):
        if n.id not in self.memo:
            self.of(n)

    def call(self, n):
        cn = canon(n.val)
        A = n.args
        for _, v in n.kw:
            pass
        if cn in ("array", "asarray"):
            t = self.of(A[0])
            return self.arr(t, n)
        if cn in ("eigh", "eig", "linalg.eigh", "linalg.eig", "scipy.sparse.linalg.eigsh",
                  "eigsh", "linalg.eigsh"):
            a = self.flat(self.of(A[0]), n)
            for k, v in n.kw:
                if k == "sigma":
                    self.unify([a, self.flat(self.num(self.unshift(v)), n)], n, "eigenvalue target of different dimension")
            return Tup([a, ZERO])
        if cn in ("sqrt",):
            a = self.flat(self.of(A[0]), n)
            return None if a is None else self.scale(a, Fr(1, 2))
        if cn == "inv" or cn == "linalg.inv":
            a = self.flat(self.of(A[0]), n)
            return None if a is None else self.scale(a, Fr(-1))
        if cn in ("linalg.solve", "solve", "spsolve"):
            a, b = self.flat(self.of(A[0]), n), self.flat(self.of(A[1]), n)
            return None if a is None or b is None else self.lin(b, a, Fr(-1))
        if cn == "interp":
            x, xp, yp = (self.flat(self.of(a), n) for a in A[:3])
            self.unify([x, xp], n, "interpolation abscissae of different dimension")
            return yp
        if cn == "where":
            if len(A) == 3:
                self.of(A[0])
                return self.unify([self.flat(self.num(a), n) for a in A[1:]], n,
                                  "branches of different dimension")
            self.of(A[0])
            return ZERO
        if cn in ("remainder", "mod", "fmod"):
            return self.of(A[0])
        if cn in ("arctan2",):
            self.unify([self.flat(self.num(a), n) for a in A], n, "arctan2 of different dimensions")
            return ZERO
        if cn in MUL:
            a, b = self.flat(self.of(A[0]), n), self.flat(self.of(A[1]), n)
            return None if a is None or b is None else self.lin(a, b)
        if cn == "divide":
            a, b = self.flat(self.of(A[0]), n), self.flat(self.of(A[1]), n)
            return None if a is None or b is None else self.lin(a, b, Fr(-1))
        if cn in DIMLESS_ARG:
            a = self.flat(self.of(A[-1] if cn.endswith("jv") else A[0]), n)
            self.eqn(a, ZERO, n, "argument of %s has a dimension" % cn)
            return ZERO
        if cn in ("full",):
            return self.num(A[1]) if len(A) > 1 else None
        if cn == "fill_diagonal":
            return self.unify([self.flat(self.of(A[0]), n), self.flat(self.num(A[1]), n)], n,
                              "stored value of different dimension")
        if cn in ("linspace",):
            return self.unify([self.flat(self.num(a), n) for a in A[:2]], n, "grid bounds of different dimension")
        if cn == "arange":
            return self.unify([self.flat(self.num(a), n) for a in A], n, "grid bounds of different dimension")
        if cn == "meshgrid":
            return Tup([self.flat(self.of(a), n) for a in A])
        if cn in ("unique",):
            t = self.flat(self.of(A[0]), n)
            ks = [k for k, _ in n.kw if k.startswith("return_")]
            return Tup([t] + [ZERO] * len(ks)) if ks else t
        if cn in UNIFY:
            return self.unify([self.flat(self.num(a), n) for a in A], n,
                              "concatenated parts of different dimension")
        if cn in SAME:
            return self.flat(self.of(A[0]), n) if A else None
        if cn in INDEX:
            for a in A:
                self.of(a)
            return ZERO
        if cn in ONE:
            return ZERO
        if cn in ANY:
            return self.fresh()
        self.unknown[cn] = self.unknown.get(cn, 0) + 1
        for a in A:
            self.of(a)
        return None

    def arr(self, t, n):
        return self.flat(t, n)
