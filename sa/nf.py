"""Exact normal forms of scalar expressions (value numbering modulo algebra).

A form is a finite sum  c * prod(atom**q) * exp(arg)  with complex rational c,
rational q and interned arg.  Trigonometric functions are rewritten to
exponentials, quotients and roots to powers of interned polynomial atoms.
Two forms are equal when the numerator of their difference vanishes.
"""
from fractions import Fraction as Fr

ONE_M = ((), 0)


class TooBig(Exception):
    pass


LIMIT = 60000


def cmul(a, b):
    if a[1] == 0 and b[1] == 0:
        return (a[0] * b[0], a[1])
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cinv(a):
    d = a[0] * a[0] + a[1] * a[1]
    return (a[0] / d, -a[1] / d)


F0, F1 = Fr(0), Fr(1)


class Atom(object):
    __slots__ = ("id", "key", "real", "kind", "opaque", "data", "deps", "conds")

    def __init__(self, id, key, real, kind, opaque, data):
        self.id, self.key, self.real, self.kind = id, key, real, kind
        self.opaque, self.data = opaque, data


class Alg0(object):
    """Ring operations on forms; forms are dict mono -> (re, im)."""

    def __init__(self):
        self.atoms = []
        self.akey = {}
        self.forms = [None]
        self.fkey = {}
        self.zero_id = 0
        self.rules = {}       # atom id -> form of its square (chi**2 = ...)
        self.forms[0] = {}
        self.fkey[frozenset()] = 0

    # interning -------------------------------------------------------------
    def atom(self, key, real=False, kind=None, opaque=False, data=None):
        a = self.akey.get(key)
        if a is None:
            a = Atom(len(self.atoms), key, real, kind or key[0], opaque, data)
            self.atoms.append(a)
            self.akey[key] = a
        return a

    def fid(self, p):
        k = frozenset(p.items())
        i = self.fkey.get(k)
        if i is None:
            i = len(self.forms)
            self.forms.append(dict(p))
            self.fkey[k] = i
        return i

    # constructors ------------------------------------------------------------
    @staticmethod
    def num(v):
        if isinstance(v, complex):
            c = (Alg0.frac(v.real), Alg0.frac(v.imag))
        else:
            c = (Alg0.frac(v), F0)
        return {ONE_M: c} if c != (0, 0) else {}

    @staticmethod
    def frac(v):
        if isinstance(v, (int, Fr)):
            return Fr(v)
        v = float(v)
        c = Fr(v).limit_denominator(1000)
        if c and abs(float(c) - v) <= 4e-16 * abs(v):
            return c           # a folded quotient of small integers
        return Fr(repr(v))

    def of_atom(self, a, q=1):
        return {(((a.id, Fr(q)),), 0): (F1, F0)}

    I_ = {ONE_M: (F0, F1)}

    # ring --------------------------------------------------------------------
    @staticmethod
    def add(p, q, k=(F1, F0)):
        r = dict(p)
        for m, c in q.items():
            c = cmul(c, k)
            o = r.get(m)
            if o is None:
                r[m] = c
            else:
                s = (o[0] + c[0], o[1] + c[1])
                if s[0] == 0 and s[1] == 0:
                    del r[m]
                else:
                    r[m] = s
        return r

    def sub(self, p, q):
        return self.add(p, q, (Fr(-1), F0))

    @staticmethod
    def scale(p, k):
        return {m: cmul(c, k) for m, c in p.items()} if k != (0, 0) else {}

    def mmul(self, m, n):
        """product of two monomials: (mono, extra form or None)"""
        fm, em = m
        fn, en = n
        if not fn:
            f = fm
        elif not fm:
            f = fn
        else:
            d = dict(fm)
            for a, q in fn:
                q = d.get(a, 0) + q
                if q == 0:
                    d.pop(a, None)
                else:
                    d[a] = q
            f = tuple(sorted(d.items()))
        if em == 0:
            e = en
        elif en == 0:
            e = em
        else:
            e = self.fid(self.add(self.forms[em], self.forms[en]))
        return (f, e)

    blow = 240

    def pack(self, p):
        """name a sum instead of expanding products with it"""
        i = self.fid(p)
        a = self.atom(("lazy", i), False, "lazy", data=i)
        if not a.data == i or a.opaque is False and not hasattr(a, "deps"):
            a.deps = True
            a.real = self.is_real(p)
        return self.of_atom(a)

    def conj_lazy(self, A):
        return self.of_atom(self.atom(("conj", A.id), False, "conj", A.opaque, A.id))

    def subst_lazy(self, A, env, memo):
        return self.subst(self.forms[A.data], env, memo)

    def mul(self, p, q):
        if len(p) > len(q):
            p, q = q, p
        if len(p) > 1 and len(p) * len(q) > self.blow:
            q = self.pack(q)
            if len(p) > self.blow:
                p = self.pack(p)
            if len(p) > len(q):
                p, q = q, p
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = self.mmul(m, n)
                v = cmul(c, d)
                o = r.get(k)
                r[k] = v if o is None else (o[0] + v[0], o[1] + v[1])
        r = {m: c for m, c in r.items() if c[0] != 0 or c[1] != 0}
        return self.simp(r)

    def simp(self, r):
        """powers of idempotent atoms, ruled atoms and constants"""
        if not any(self.reducible(m) for m in r):
            return r
        out = {}
        for m, c in r.items():
            if self.reducible(m):
                out = self.add(out, self.reduce(m), c)
            else:
                out = self.add(out, {m: c})
        return out

    def pifold(self, f):
        """exp(i pi q) in the exponent form f: (rest of the exponent, its value) or None"""
        memo = self.__dict__.setdefault("pimemo", {})
        if f not in memo:
            memo[f] = None
            for m, c in self.forms[f].items():
                if not m[1] and len(m[0]) == 1 and m[0][0][1] == 1 and c[0] == 0 and \
                        self.atoms[m[0][0][0]].kind == "pi":
                    q = c[1]
                    n = (2 * q + Fr(1, 2)).__floor__()
                    r = q - Fr(n, 2)
                    t = 12 * r
                    if n == 0 and t.denominator != 1:
                        break
                    val = {ONE_M: [(F1, F0), (F0, F1), (-F1, F0), (F0, -F1)][n % 4]}
                    rest = {k: v for k, v in self.forms[f].items() if k != m}
                    if t.denominator == 1:
                        a = abs(int(t))
                        if a:
                            s2 = self.ratpow(Fr(2), Fr(1, 2))
                            s3 = self.ratpow(Fr(3), Fr(1, 2))
                            if a == 1:
                                co = self.scale(self.mul(s2, self.add(s3, {ONE_M: (F1, F0)})), (Fr(1, 4), F0))
                                si = self.scale(self.mul(s2, self.add(s3, {ONE_M: (-F1, F0)})), (Fr(1, 4), F0))
                            elif a == 2:
                                co, si = self.scale(s3, (Fr(1, 2), F0)), {ONE_M: (Fr(1, 2), F0)}
                            else:
                                co = si = self.scale(s2, (Fr(1, 2), F0))
                            val = self.mul(val, self.add(co, self.scale(si, (F0, Fr(1 if t > 0 else -1)))))
                    else:
                        rest[m] = (F0, r)
                    memo[f] = (self.fid(rest) if rest else 0, val)
                    break
        return memo[f]

    def reducible(self, m):
        if m[1] and self.pifold(m[1]):
            return True
        for a, q in m[0]:
            A = self.atoms[a]
            if A.kind == "prime" and (q >= 1 or q < 0):
                return True
            if A.kind == "mask" and q != 1:
                return True
            if A.id in self.rules and (q >= 2 or q < 0):
                return True
            if A.kind == "poly" and (q >= 1):
                return True
        return False

    def reduce(self, m):
        fold = self.pifold(m[1]) if m[1] else None
        res = self.mul({((), fold[0]): (F1, F0)}, fold[1]) if fold else {((), m[1]): (F1, F0)}
        rest = []
        for a, q in m[0]:
            A = self.atoms[a]
            if A.kind == "prime" and (q >= 1 or q < 0):
                n = q.numerator // q.denominator
                f = q - n
                res = self.scale(res, (Fr(A.data) ** n, F0))
                if f:
                    rest.append((a, f))
            elif A.kind == "mask" and q != 1:
                rest.append((a, F1))
            elif A.id in self.rules and (q >= 2 or q < 0):
                n = q.numerator // q.denominator // 2
                f = q - 2 * n
                base = self.rules[A.id]
                res = self.mul(res, self.power(base, Fr(n)))
                if f:
                    rest.append((a, f))
            elif A.kind == "poly" and q >= 1:
                n = q.numerator // q.denominator
                f = q - n
                for _ in range(n):
                    res = self.mul(res, self.forms[A.data])
                if f:
                    rest.append((a, f))
            else:
                rest.append((a, q))
        if rest:
            mm = (tuple(rest), 0)
            r2 = {}
            for k, c in res.items():
                kk = self.mmul(k, mm)
                o = r2.get(kk)
                r2[kk] = c if o is None else (o[0] + c[0], o[1] + c[1])
            res = {k: c for k, c in r2.items() if c != (0, 0)}
            if any(self.reducible(k) for k in res):
                res = self.simp(res)
        return res

    def content(self, p):
        """p = c * mono * primitive; returns (c, mono, primitive)"""
        it = iter(p)
        first = next(it)
        common = dict(first[0])
        for m in it:
            d = dict(m[0])
            for a in list(common):
                if a in d:
                    common[a] = min(common[a], d[a])
                else:
                    if common[a] > 0:
                        del common[a]
                    else:
                        common[a] = min(common[a], F0)
                        if common[a] == 0:
                            del common[a]
            for a, q in d.items():
                if a not in common and q < 0:
                    # present here only: others have exponent 0
                    common[a] = q
        # atoms missing somewhere: exponent 0 there
        for a in list(common):
            if common[a] > 0 and any(a not in dict(m[0]) for m in p):
                del common[a]
        exps = set(m[1] for m in p)
        e = exps.pop() if len(exps) == 1 else 0
        mono = (tuple(sorted(common.items())), e)
        inv = (tuple((a, -q) for a, q in mono[0]),
               self.fid(self.scale(self.forms[e], (Fr(-1), F0))) if e else 0)
        prim = {}
        for m, c in p.items():
            prim[self.mmul(m, inv)] = c
        lead = min(prim, key=self.mono_key)
        c = prim[lead]
        ci = cinv(c)
        prim = {m: cmul(v, ci) for m, v in prim.items()}
        return c, mono, prim

    def mono_key(self, m):
        return (repr(m[0]), m[1])

    def ratpow(self, r, q):
        """r**q for a rational number r > 0 and rational q, as a form"""
        res = {ONE_M: (F1, F0)}
        for n, s in ((r.numerator, 1), (r.denominator, -1)):
            if n > 10 ** 12:
                a = self.atom(("big", n), True, "big")
                res = self.mul(res, self.of_atom(a, q * s))
                continue
            d, x = 2, n
            while x > 1:
                while d * d <= x and x % d:
                    d += 1
                if d * d > x:
                    d = x
                k = 0
                while x % d == 0:
                    x //= d
                    k += 1
                a = self.atom(("prime", d), True, "prime", data=d)
                res = self.mul(res, self.of_atom(a, q * k * s))
        return res

    def power(self, p, q):
        q = Fr(q)
        if q == 0:
            return {ONE_M: (F1, F0)}
        if not p:
            if q < 0:
                raise ZeroDivisionError()
            return {}
        if q.denominator == 1 and q > 0 and (len(p) == 1 or q <= 4):
            r = p
            if len(p) > 1:
                for _ in range(int(q) - 1):
                    r = self.mul(r, p)
                return r
        if len(p) == 1:
            (m, c), = p.items()
            mm = (tuple((self.modulus(a) if q.denominator == 2 and k.denominator == 1 and k % 2 == 0 else a, k * q)
                        for a, k in m[0]),
                  self.fid(self.scale(self.forms[m[1]], (q, F0))) if m[1] else 0)
            mm = (tuple(sorted(mm[0])), mm[1])
            if q.denominator == 1:
                cc = (F1, F0)
                b = c if q > 0 else cinv(c)
                for _ in range(abs(int(q))):
                    cc = cmul(cc, b)
                return self.simp({mm: cc})
            cf = self.cpow(c, q)
            return self.mul({mm: (F1, F0)}, cf)
        c, mono, prim = self.content(p)
        if len(prim) == 1:
            return self.mul(self.power({mono: c}, q), self.power(prim, q))
        a = self.atom(("poly", self.fid(prim)), False, "poly", data=self.fid(prim))
        if not hasattr(a, "deps"):
            pass
        a.real = self.is_real(prim)
        a.opaque = False
        head = self.power({mono: c}, q) if (mono != ONE_M or c != (1, 0)) else {ONE_M: (F1, F0)}
        if q > 0 and q.denominator == 1:
            return self.mul(head, self.simp(self.of_atom(a, q)))
        if q > 1:
            return self.mul(head, self.simp(self.of_atom(a, q)))
        return self.mul(head, self.of_atom(a, q))

    positive = ()
    nonneg = ()

    def rootnn(self, t, q):
        """power of a form which is never negative: no sign may leave a root"""
        if len(t) > 1:
            c, mono, prim = self.content(t)
            if len(prim) > 1 and c[1] == 0:
                if c[0] < 0:
                    prim = self.scale(prim, (Fr(-1), F0))
                    c = (-c[0], F0)
                a = self.atom(("poly", self.fid(prim)), self.is_real(prim), "poly", False, self.fid(prim))
                if mono == ONE_M:
                    self.nonneg.add(a.id)
                if q < 1:
                    return self.mul(self.power({mono: c}, q), self.of_atom(a, q))
        return self.power(t, q)

    def modulus(self, a):
        """the root of the square of a real value is its absolute value"""
        A = self.atoms[a]
        if not A.real or A.kind in ("dim", "prime", "pi", "ix", "mask", "inf", "poly", "big") or a in self.positive:
            return a
        f = self.fid({(((a, F1),), 0): (F1, F0)})
        b = self.atom(("fn", "abs", f), True, "fn", A.opaque, (f,))
        self.positive.add(b.id)
        if b.id not in self.rules:
            self.rules[b.id] = {(((a, Fr(2)),), 0): (F1, F0)}
        return b.id

    def cpow(self, c, q):
        re, im = c
        if im == 0 and re > 0:
            return self.ratpow(re, q)
        if im == 0 and re < 0:
            if q.denominator == 2:
                s = {ONE_M: [(F1, F0), (F0, F1), (Fr(-1), F0), (F0, Fr(-1))][
                    int(q * 2) % 4]}
                return self.mul(s, self.ratpow(-re, q))
        if re == 0 and im != 0 and False:
            pass
        a = self.atom(("cpow", c, q), False, "cpow")
        return self.of_atom(a)

    # structure ----------------------------------------------------------------
    def is_real(self, p):
        if len(p) > 12:
            r = self.real_rnd(p)
            if r is not None:
                return r
        return self.conj(p) == p

    def real_rnd(self, p):
        return None

    def conj(self, p):
        r = {}
        for m, c in p.items():
            t = {((), 0): (c[0], -c[1])}
            if m[1]:
                t = self.simp({((), self.fid(self.conj(self.forms[m[1]]))): (c[0], -c[1])})
            plain = []
            for a, q in m[0]:
                A = self.atoms[a]
                if A.real:
                    plain.append((a, q))
                else:
                    t = self.mul(t, self.conj_atom(A, q))
            if plain:
                t = self.mul(t, {(tuple(plain), 0): (F1, F0)})
            r = self.add(r, t)
        return r

    def conj_atom(self, A, q):
        if A.kind == "poly" and len(self.forms[A.data]) <= 40:
            v = self.conj(self.forms[A.data])
            return self.rootnn(v, q) if A.id in self.nonneg else self.power(v, q)
        if A.kind == "conj":
            return self.of_atom(self.atoms[A.data], q)
        h = getattr(self, "conj_" + A.kind, None)
        if h is not None:
            r = h(A)
            if r is not None:
                return self.power(r, q)
        b = self.atom(("conj", A.id), False, "conj", A.opaque, A.id)
        if A.id in self.rules and b.id not in self.rules:
            self.rules[b.id] = self.conj(self.rules[A.id])
        return self.of_atom(b, q)

    def exp(self, p):
        p = self.divred(p)
        return self.simp({((), self.fid(p)): (F1, F0)}) if p else {ONE_M: (F1, F0)}

    # division with remainder by denominator polynomials --------------------------
    @staticmethod
    def lexkey(m):
        return tuple(sorted(((a, q) for a, q in m[0]), reverse=True))

    def divred(self, p):
        """replace N/P by Q + R/P for every denominator P (unique remainder)"""
        for _ in range(12):
            groups = {}
            for m in p:
                for a, q in m[0]:
                    if q < 0 and q.denominator == 1 and self.atoms[a].kind == "poly":
                        groups.setdefault(a, []).append(m)
            done = True
            for a, ms in groups.items():
                P = self.forms[self.atoms[a].data]
                if any(m[1] for m in P) or any(q < 0 or q.denominator != 1
                                               for m in P for _, q in m[0]):
                    continue
                r = self.divgroup(p, ms, a, P)
                if r is not None:
                    p, done = r, False
                    break
            if done:
                return p
        return p

    def divgroup(self, p, ms, a, P):
        lead = max(P, key=self.lexkey)
        lc, ld = P[lead], dict(lead[0])
        rest = {m: c for m, c in P.items() if m != lead}
        out = dict(p)
        changed = False
        work = list(ms)
        n = 0
        while work:
            m = work.pop()
            c = out.get(m)
            if c is None:
                continue
            d = dict(m[0])
            if d.get(a, 0) >= 0 or any(d.get(x, 0) < q for x, q in ld.items()):
                continue
            n += 1
            if n > 400:
                return None
            changed = True
            # m = t * lead * P^-k   ->   t * P^-(k-1) - t * rest * P^-k
            t = dict(d)
            for x, q in ld.items():
                t[x] = t[x] - q
                if t[x] == 0:
                    del t[x]
            base = (tuple(sorted(t.items())), m[1])
            up = dict(t)
            up[a] = up[a] + 1
            if up[a] == 0:
                del up[a]
            k = cmul(c, cinv(lc))
            del out[m]
            out = self.add(out, {(tuple(sorted(up.items())), m[1]): k})
            for rm, rc in rest.items():
                mm = self.mmul(base, rm)
                out = self.add(out, {mm: cmul(k, rc)}, (Fr(-1), F0))
                work.append(mm)
        return out if changed else None

    def cos(self, p):
        ip = self.mul(self.I_, p)
        return self.scale(self.add(self.exp(ip), self.exp(self.scale(ip, (Fr(-1), F0)))),
                          (Fr(1, 2), F0))

    def sin(self, p):
        ip = self.mul(self.I_, p)
        return self.scale(self.sub(self.exp(ip), self.exp(self.scale(ip, (Fr(-1), F0)))),
                          (F0, Fr(-1, 2)))

    # zero test -----------------------------------------------------------------
    def numer(self, p, depth=0):
        """clear denominators made of polynomial atoms and expand"""
        for _ in range(40):
            low = {}
            for m in p:
                for a, q in m[0]:
                    if self.atoms[a].kind == "poly":
                        low[a] = min(low.get(a, F0), q)
            neg = [(a, q) for a, q in low.items() if q < 0]
            # a poly atom missing from some monomial has exponent 0 there
            if not neg:
                fr = self.simp(p)
                if fr == p or not any(self.reducible(m) for m in p):
                    return fr
                p = fr
                continue
            a, q = neg[0]
            k = -(q.numerator // q.denominator)
            p = self.mul({(((a, Fr(k)),), 0): (F1, F0)}, p)
            if len(p) > LIMIT:
                raise TooBig()
        raise TooBig()

    def is_zero(self, p):
        if not p:
            return True
        return not self.numer(p)

    def eq(self, p, q):
        return self.is_zero(self.sub(p, q))

    # dependence on an atom -------------------------------------------------------
    def atoms_of(self, p, deep=True, seen=None):
        seen = {} if seen is None else seen
        stk = [p]
        while stk:
            x = stk.pop()
            for m in x:
                if m[1]:
                    stk.append(self.forms[m[1]])
                for a, _ in m[0]:
                    if a in seen:
                        continue
                    A = self.atoms[a]
                    seen[a] = A
                    if deep:
                        for f in self.sub_forms(A):
                            stk.append(f)
        return seen

    def sub_forms(self, A):
        if A.kind in ("poly", "lazy"):
            return [self.forms[A.data]]
        if A.kind == "conj":
            return [self.of_atom(self.atoms[A.data])]
        d = A.data
        if isinstance(d, tuple):
            return [self.forms[x] for x in d if isinstance(x, int)]
        return []

    # substitution ------------------------------------------------------------------
    def subst(self, p, env, memo=None):
        """replace atoms (by id) by forms, everywhere"""
        memo = {} if memo is None else memo
        r = {}
        for m, c in p.items():
            t = {ONE_M: c}
            if m[1]:
                t = self.mul(t, self.exp(self.subst(self.forms[m[1]], env, memo)))
            for a, q in m[0]:
                v = self.subst_atom(a, env, memo)
                t = self.mul(t, self.rootnn(v, q) if a in self.nonneg else self.power(v, q))
            r = self.add(r, t)
        return r

    def subst_atom(self, a, env, memo):
        if a in env:
            return env[a]
        if a in memo:
            return memo[a]
        A = self.atoms[a]
        memo[a] = self.of_atom(A)
        if A.kind == "poly":
            r = self.subst(self.forms[A.data], env, memo)
        elif A.kind == "conj":
            r = self.conj(self.subst_atom(A.data, env, memo))
        else:
            h = getattr(self, "subst_" + A.kind, None)
            r = h(A, env, memo) if h is not None else self.of_atom(A)
        memo[a] = r
        return r

    # differentiation ------------------------------------------------------------------
    def diff(self, p, a0):
        r = {}
        for m, c in p.items():
            base = {m: c}
            if m[1]:
                d = self.diff(self.forms[m[1]], a0)
                if d:
                    r = self.add(r, self.mul(base, d))
            for a, q in m[0]:
                da = self.diff_atom(a, a0)
                if da:
                    t = self.mul(base, self.of_atom(self.atoms[a], -1))
                    r = self.add(r, self.scale(self.mul(t, da), (q, F0)))
        return r

    def diff_atom(self, a, a0):
        if a == a0:
            return {ONE_M: (F1, F0)}
        A = self.atoms[a]
        if A.kind in ("poly", "lazy"):
            return self.diff(self.forms[A.data], a0)
        if A.kind == "conj":
            return self.conj(self.diff_atom(A.data, a0))
        if a0 in self.atoms_of(self.of_atom(A)):
            raise TooBig()
        return {}

    # printing ------------------------------------------------------------------------
    def show(self, p, lim=6, depth=0):
        if not p:
            return "0"
        out = []
        for m, c in sorted(p.items(), key=lambda t: self.mono_key(t[0]))[:lim]:
            s = []
            if c[1] == 0:
                if c[0] != 1 or (not m[0] and not m[1]):
                    s.append(self.fs(c[0]))
            elif c[0] == 0:
                s.append(("" if c[1] == 1 else self.fs(c[1]) + "*") + "1j")
            else:
                s.append("(%s%+gj)" % (self.fs(c[0]), float(c[1])))
            for a, q in m[0]:
                t = self.show_atom(self.atoms[a], depth)
                s.append(t if q == 1 else "%s^%s" % (t, q))
            if m[1]:
                s.append("exp(%s)" % self.show(self.forms[m[1]], 4, depth + 1))
            out.append("*".join(s))
        if len(p) > lim:
            out.append("... (%d terms)" % len(p))
        return " + ".join(out)

    @staticmethod
    def fs(f):
        return str(f) if f.denominator < 1000 else "%g" % float(f)

    def show_atom(self, A, depth=0):
        if depth > 3:
            return "..."
        if A.kind in ("poly", "lazy"):
            return "(%s)" % self.show(self.forms[A.data], 3, depth + 1)
        if A.kind == "conj":
            return "conj(%s)" % self.show_atom(self.atoms[A.data], depth)
        if A.kind == "prime":
            return str(A.data)
        if A.kind == "el":
            ix = ",".join(self.show(self.forms[i], 3, depth + 1) for i in A.data)
            return "%s[%s]" % (A.key[1], ix) if ix else str(A.key[1])
        if isinstance(A.data, tuple):
            return "%s(%s)" % (A.key[1] if len(A.key) > 1 and isinstance(A.key[1], str)
                               else A.kind, ", ".join(
                self.show(self.forms[i], 3, depth + 1) for i in A.data if isinstance(i, int)))
        return "%s" % (A.key[1] if len(A.key) == 2 else A.key[1:] if len(A.key) > 1 else A.key[0],)
