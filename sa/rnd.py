"""Random interpretation of normal forms (Gulwani and Necula): every free atom is
given a pseudo-random value, so that two forms which denote the same function
get the same value.  It confirms that a difference of two normal forms is a
difference of values, not of spelling.
"""
import cmath
import hashlib
import math


class NoVal(Exception):
    pass


def h(seed, *key):
    b = hashlib.md5(repr((seed,) + key).encode()).digest()
    return int.from_bytes(b[:7], "big") / float(1 << 56)


def rd(z):
    z = complex(z)
    if z == 0:
        return (0.0, 0.0)
    s = abs(z)
    k = 8 - int(math.floor(math.log10(s)))
    return (round(z.real, k) + 0.0, round(z.imag, k) + 0.0)


class Rnd(object):
    def __init__(self, A, seed):
        self.A, self.seed = A, seed
        self.memo = {}
        self.busy = set()

    def form(self, p):
        t = 0j
        for m, c in p.items():
            v = complex(float(c[0]), float(c[1]))
            for a, q in m[0]:
                b = self.atom(a)
                if q.denominator == 1:
                    if b == 0 and q < 0:
                        raise NoVal()
                    v *= b ** int(q)
                else:
                    if b == 0:
                        v *= 0
                    else:
                        v *= cmath.exp(float(q) * cmath.log(complex(b)))
            if m[1]:
                v *= cmath.exp(self.form(self.A.forms[m[1]]))
            t += v
        return t

    def atom(self, a):
        if a in self.memo:
            return self.memo[a]
        if a in self.busy:
            raise NoVal()
        self.busy.add(a)
        v = self.atom_(self.A.atoms[a])
        self.busy.discard(a)
        self.memo[a] = v
        return v

    def free(self, real, *key):
        x = 0.3 + 1.5 * h(self.seed, "re", *key)
        if self.seed >= 5:
            x = 0.05 * 120 ** ((x - 0.3) / 1.5)
        return x if real else complex(x, 0.2 + h(self.seed, "im", *key))

    def argval(self, x):
        """value of the generic element (and diagonal element) of an array argument"""
        r, f = x
        F = self.A.forms[f]
        out = [rd(self.form(F))]
        if r > 1:
            (m, _), = self.A.ix("bound1").items()
            out.append(rd(self.form(self.A.subst(F, {m[0][0][0]: self.A.ix("bound0")}))))
        return (r,) + tuple(out)

    def truth(self, f):
        """truth of a condition form"""
        F = self.A.forms[f]
        return abs(self.form(F)) > 0.5

    def atom_(self, X):
        A = self.A
        k = X.kind
        if k == "pi":
            return math.pi
        if k in ("prime", "big"):
            return float(X.data if k == "prime" else X.key[1])
        if k == "inf":
            return 1e-11
        if k in ("poly", "lazy"):
            return self.form(A.forms[X.data])
        if k == "conj":
            return complex(self.atom(X.data)).conjugate()
        if k == "cpow":
            c, q = X.key[1], X.key[2]
            return complex(float(c[0]), float(c[1])) ** float(q)
        if X.id in A.rules:
            z = self.form(A.rules[X.id])
            return cmath.sqrt(z) if not X.real else abs(cmath.sqrt(z))
        if k == "dim":
            return 3.0 + 5 * h(self.seed, "dim", X.key[1:])
        if k == "ix":
            return 0.1 + 2.9 * h(self.seed, "ix", X.key[1:])
        args = [self.form(A.forms[i]) for i in X.data] if isinstance(X.data, tuple) and \
            k not in ("where", "sum", "cond", "not") else []
        if k == "el":
            return self.free(X.real, "el", X.key[1], tuple(rd(z) for z in args))
        if k == "fn":
            nm = X.key[1]
            if nm == "pow":
                return cmath.exp(args[1] * cmath.log(args[0]))
            if nm in ("arctan", "atan") and len(args) == 1:
                return cmath.atan(args[0])
            if nm == "angle":
                return cmath.phase(args[0])
            if nm in ("floor", "ceil"):
                return getattr(math, nm)(args[0].real)
            if nm in ("arctan2",) and len(args) == 2:
                return math.atan2(args[0].real, args[1].real)
            if nm in ("log",):
                return cmath.log(args[0])
            if nm.startswith("cast_"):
                return args[0]
            if nm in ("builtins.max", "maximum"):
                return max(z.real for z in args)
            if nm in ("builtins.min", "minimum"):
                return min(z.real for z in args)
            if nm == "sign":
                return math.copysign(1, args[0].real) if args[0] else 0
            return self.free(X.real, "fn", nm, tuple(rd(z) for z in args))
        if k == "where":
            c, x, y = X.data
            return self.form(A.forms[x if self.truth(c) else y])
        if k == "not":
            return 0.0 if self.truth(X.data[0]) else 1.0
        if k == "cond":
            nm = X.key[1]
            if nm in ("lt", "le", "eq"):
                d = self.form(A.forms[X.data[0]])
                if abs(d) < 1e-9:
                    return 0.0 if nm == "lt" else 1.0
                if nm == "eq":
                    return 0.0
                return 1.0 if d.real < 0 else 0.0
            if nm in ("and", "or"):
                r = [self.truth(i) for i in X.data]
                return float(all(r) if nm == "and" else any(r))
            args = [self.form(A.forms[i]) for i in X.data]
            return float(h(self.seed, "cond", X.key[1], X.key[2] if not args else 0,
                           tuple(rd(z) for z in args)) < 0.5)
        if k == "mask":
            if X.key[0] == "delta":
                return 1.0 if abs(args[0] - args[1]) < 1e-9 else 0.0
            return 1.0 if args[0].real < args[1].real - 1e-9 else 0.0
        if k == "sum":
            b = self.form(A.forms[X.data[0]])
            return self.free(X.real, "sum", X.key[1], X.key[2], rd(b))
        if k == "sel":
            return self.free(False, "sel", tuple(rd(z) for z in args))
        if k == "opq" and isinstance(X.key[1], tuple):
            key = [x if x is None or isinstance(x, str) or x[0] == "c" or
                   (x and isinstance(x[0], str)) else self.argval(x)
                   for x in X.key[1] if not (isinstance(x, tuple) and not x) and not isinstance(x, int)]
            return self.free(X.real, "opq", str(X.key[1][1]), tuple(key), tuple(rd(z) for z in args))
        if k == "opq":
            return self.free(X.real, "opq", X.key[1], tuple(rd(z) for z in args))
        raise NoVal()


class PinRnd(Rnd):
    """samples at which the indexes compared by Kronecker deltas coincide"""
    def __init__(self, A, seed, masks):
        Rnd.__init__(self, A, seed)
        self.pins = {}
        for X in masks:
            d = A.sub(A.forms[X.data[0]], A.forms[X.data[1]])
            for m, c in d.items():
                if m[1] or len(m[0]) != 1 or m[0][0][1] != 1 or c[1] != 0 or abs(c[0]) != 1:
                    continue
                a = m[0][0][0]
                rest = A.scale({k: v for k, v in d.items() if k != m}, (-c[0], c[1]))
                if A.atoms[a].kind in ("pi", "prime", "big") or any(b >= a for b in A.atoms_of(rest)):
                    continue
                self.pins.setdefault(a, []).append(rest)

    def atom_(self, X):
        c = self.pins.get(X.id)
        if c:
            k = int(h(self.seed, "pin", X.id) * (len(c) + 0.5))
            if k < len(c):
                return self.form(c[k])
        return Rnd.atom_(self, X)


def coincident(A, p, n=8):
    """does the form vanish also where compared indexes coincide?  None: not evaluated"""
    masks = [X for X in A.atoms_of(p).values() if X.kind == "mask" and X.key[0] == "delta"]
    if not masks:
        return True
    ok = 0
    for s in range(n):
        try:
            R = PinRnd(A, s, masks)
            vs = [R.form({m: c}) for m, c in p.items()]
        except (NoVal, OverflowError, ZeroDivisionError, ValueError, RecursionError):
            continue
        if abs(sum(vs)) > 1e-5 * max([abs(v) for v in vs] + [0.0]):
            return False
        ok += 1
    return True if ok >= 3 else None


class WideRnd(Rnd):
    """samples of both signs; conditions on complex values are not evaluated"""
    def atom_(self, X):
        v = Rnd.atom_(self, X)
        if X.kind == "el" and X.real and X.id not in self.A.rules and self.seed >= 24:
            v = 10 ** (24 * h(self.seed, "exp", X.key) - 12)
        if X.kind == "el" and X.real and X.id not in self.A.positive and X.id not in self.A.rules and \
                h(self.seed, "sign", X.key) < 0.5:
            return -v
        return v

    def truth(self, f):
        z = self.form(self.A.forms[f])
        for X in self.A.atoms_of(self.A.forms[f]).values():
            if X.kind == "cond" and X.key[1] in ("lt", "le") and len(X.data) == 1 and \
                    abs(complex(self.form(self.A.forms[X.data[0]])).imag) > 1e-9:
                raise NoVal()
        return abs(z) > 0.5


class SignRnd(WideRnd):
    """small and moderate samples of both signs"""
    def free(self, real, *key):
        x = 10 ** (3.5 * h(self.seed, "re", *key) - 3)
        return x if real else complex(x, 10 ** (3.5 * h(self.seed, "im", *key) - 3))

    def atom_(self, X):
        if X.kind == "cond" and X.key[1] in ("lt", "le", "eq"):
            # thresholds are resolved; rounding is not
            vs = [self.form({m: c}) for m, c in self.A.forms[X.data[0]].items()]
            d = sum(vs)
            if abs(complex(d).imag) > 1e-9:
                raise NoVal()
            if abs(d) < max([1e-13] + [1e-12 * abs(v) for v in vs]):
                return 0.0 if X.key[1] == "lt" else 1.0
            return 0.0 if X.key[1] == "eq" else 1.0 if complex(d).real < 0 else 0.0
        return WideRnd.atom_(self, X)


def signed(A, p, n=24):
    """does the form vanish at sample points of both signs?  None: not evaluated"""
    if A.akey.get(("infinitesimal",)) is not None:
        return None
    ok = 0
    for s in range(n):
        try:
            R = A.__dict__.setdefault("swrnds", {}).setdefault(s, SignRnd(A, s))
            vs = [R.form({m: c}) for m, c in p.items()]
        except (NoVal, OverflowError, ZeroDivisionError, ValueError, RecursionError):
            continue
        t, m = sum(vs), max([abs(v) for v in vs] + [0.0])
        if t != t or m != m:
            continue
        if abs(t) >= 1e-5 * m and m:
            return False
        ok += 1
    return True if ok >= 3 else None


def outcomes(A, c, n=56):
    """outcomes of a condition met at sample points"""
    out = set()
    for s in range(n):
        try:
            out.add(WideRnd(A, s).truth(c))
        except (NoVal, OverflowError, ZeroDivisionError, ValueError, RecursionError):
            continue
    return out


# truncated Laurent series in the infinitesimal: dict power -> coefficient ----------
REACH = 64


def is_ser(x):
    return isinstance(x, dict)


def ser(x):
    return x if is_ser(x) else {0: complex(x)} if x else {}


def s_trim(x):
    if not x:
        return x
    lo = min(x)
    return {k: c for k, c in x.items() if k <= lo + REACH}


def s_mul(x, y):
    if not is_ser(x) and not is_ser(y):
        return x * y
    r = {}
    for k, c in ser(x).items():
        for l, d in ser(y).items():
            r[k + l] = r.get(k + l, 0) + c * d
    return s_trim(r)


def s_sum(xs):
    if not any(is_ser(x) for x in xs):
        return sum(xs)
    r, m = {}, {}
    for x in xs:
        for k, c in ser(x).items():
            r[k] = r.get(k, 0) + c
            m[k] = max(m.get(k, 0), abs(c))
    return s_trim({k: c for k, c in r.items() if abs(c) > 1e-11 * m[k]})


def s_pow(x, q):
    if not is_ser(x):
        if x == 0:
            if q < 0:
                raise NoVal()
            return 0j
        if q.denominator == 1:
            return complex(x) ** int(q)
        return cmath.exp(float(q) * cmath.log(complex(x)))
    if not x:
        if q < 0:
            raise NoVal()
        return {}
    lo = min(x)
    c = x[lo]
    u = {k - lo: v / c for k, v in x.items() if k != lo}
    acc, term, co = {0: 1 + 0j}, {0: 1 + 0j}, 1.0
    n = 0
    while u and n < REACH:
        n += 1
        co = co * float(q - n + 1) / n
        term = {k: v for k, v in s_mul(term, u).items() if k <= REACH}
        if not term or co == 0:
            break
        for k, v in term.items():
            acc[k] = acc.get(k, 0) + co * v
    lead = s_pow(c, q)
    return {k + lo * q: v * lead for k, v in acc.items()}


def s_exp(x):
    if not is_ser(x):
        return cmath.exp(x)
    if any(k < 0 for k in x):
        raise NoVal()
    u = {k: v for k, v in x.items() if k != 0}
    acc, term = {0: 1 + 0j}, {0: 1 + 0j}
    n = 0
    while u and n < REACH:
        n += 1
        term = {k: v / n for k, v in s_mul(term, u).items() if k <= REACH}
        if not term:
            break
        for k, v in term.items():
            acc[k] = acc.get(k, 0) + v
    e0 = cmath.exp(x.get(0, 0))
    return {k: v * e0 for k, v in acc.items()}


def s_lim(x):
    """limit for a vanishing infinitesimal"""
    if not is_ser(x):
        return x
    if any(k < 0 for k in x):
        raise NoVal()
    return x.get(0, 0j)


class SRnd(Rnd):
    """random interpretation with series in the infinitesimal"""

    def form(self, p):
        return s_lim(self.sform(p))

    def terms(self, p):
        out = []
        for m, c in p.items():
            v = complex(float(c[0]), float(c[1]))
            for a, q in m[0]:
                v = s_mul(v, s_pow(self.atom(a), q))
            if m[1]:
                v = s_mul(v, s_exp(self.sform(self.A.forms[m[1]])))
            out.append(v)
        return out

    def sform(self, p):
        return s_sum(self.terms(p)) if p else 0j

    def truth(self, f):
        return abs(self.form(self.A.forms[f])) > 0.5

    def atom_(self, X):
        A, k = self.A, X.kind
        if k == "inf":
            return {1: 1 + 0j}
        if k in ("poly", "lazy"):
            return self.sform(A.forms[X.data])
        if k == "conj":
            v = self.atom(X.data)
            return {n: c.conjugate() for n, c in v.items()} if is_ser(v) else complex(v).conjugate()
        if k == "where":
            c, x, y = X.data
            return self.sform(A.forms[x if self.truth(c) else y])
        if k == "cond" and X.key[1] in ("lt", "le", "eq"):
            d = self.sform(A.forms[X.data[0]])
            if is_ser(d):
                if not d:
                    return 0.0 if X.key[1] == "lt" else 1.0
                if X.key[1] == "eq":
                    return 0.0
                return 1.0 if d[min(d)].real < 0 else 0.0
        return Rnd.atom_(self, X)


def points(A, p, n):
    """[(value, scale)] of a form at sample points, regularisers vanishing"""
    inf = A.akey.get(("infinitesimal",))
    out = []
    for s in range(n):
        try:
            if inf is None:
                R = A.__dict__.setdefault("rnds", {}).setdefault(s, Rnd(A, s))
                vs = [R.form({m: c}) for m, c in p.items()]
                t, m = sum(vs), max([abs(v) for v in vs] + [0.0])
            else:
                R = A.__dict__.setdefault("srnds", {}).setdefault(s, SRnd(A, s))
                vs = R.terms(p)
                t = s_lim(s_sum(vs))
                m = max([abs(ser(v).get(0, 0)) for v in vs] + [0.0])
        except (NoVal, OverflowError, ZeroDivisionError, ValueError, RecursionError):
            continue
        if t == t and m == m:
            out.append((t, m))
    return out


def compare(A, p, q, n=5):
    """'equal' / 'different' / 'mixed' / 'unknown' by random interpretation"""
    out = []
    for t, m in points(A, A.sub(p, q), n):
        if m == 0 or abs(t) <= 1e-8 * m:
            out.append(True)
        elif abs(t) >= 1e-5 * m:
            out.append(False)
    if len(out) < 3:
        return "unknown"
    return "equal" if all(out) else "different" if not any(out) else "mixed"


def real(A, p, n=3):
    """is the form real at every sample point?  None: not evaluated"""
    for s in range(n):
        try:
            if A.akey.get(("infinitesimal",)) is not None:
                R = A.__dict__.setdefault("srnds", {}).setdefault(s, SRnd(A, s))
                v = R.sform(p)
                if is_ser(v):
                    if any(abs(c.imag) > 1e-9 * abs(c) for c in v.values()):
                        return False
                    continue
            else:
                R = A.__dict__.setdefault("rnds", {}).setdefault(s, Rnd(A, s))
                v = R.form(p)
        except (NoVal, OverflowError, ZeroDivisionError, ValueError, RecursionError):
            return None
        if v != v:
            return None
        if abs(v.imag) > 1e-9 * max(abs(v), 1e-12):
            return False
    return True
