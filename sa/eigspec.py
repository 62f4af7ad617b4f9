"""Obligations on eigenpairs: pairing, spectral shift, units, order, selection."""
from fractions import Fraction as Fr

from . import rnd
from .alg import Unk
from .nf import F0, F1, TooBig

EIGH = ("eigh", "eigsh", "eig", "scipy.sparse.eigsh")


def afn(A, X, names, part=None):
    return X.kind == "opq" and isinstance(X.key[1], tuple) and X.key[1][0] in names and \
        (part is None or X.key[1][1] == part)


def single(A, p):
    """the atom of a form that is one bare atom"""
    if len(p) != 1:
        return None
    (m, c), = p.items()
    if c != (F1, F0) or m[1] or len(m[0]) != 1 or m[0][0][1] != 1:
        return None
    return A.atoms[m[0][0][0]]


def known(A, p):
    """no unmodelled value: only inputs and whole-array functions of inputs"""
    return all(not X.opaque or X.kind == "opq" and isinstance(X.key[1], tuple)
               or X.kind == "conj" and A.atoms[X.data].kind == "opq" and isinstance(A.atoms[X.data].key[1], tuple)
               for X in A.atoms_of(p).values())


def eig_atom(A, key, part, ids):
    return A.of_atom(A.atom(("opq", (key[0], part) + tuple(key[2:])) + tuple(ids), part == 0 and key[0] != "eig",
                            "opq", True, tuple(ids)))


def apart(A, p, i, j):
    """form p for two different indices i and j"""
    env = {X.id: {} for X in A.atoms_of(p).values() if X.kind == "mask" and X.key[0] == "delta"
           and sorted(map(repr, (A.forms[X.data[0]], A.forms[X.data[1]]))) == sorted((repr(i), repr(j)))}
    return A.subst(p, env) if env else p


def note(res, construct, msg):
    res.count("inconclusive")
    res.note("%s: %s" % (construct, msg))


def pair(A, res, construct, f, v, freq, what, site=None, matrix=None, hook=None):
    """f, v: forms of one eigenvalue result and of one component of its eigenvector.
    freq(lam) is the documented result for the eigenvalue lam of the documented matrix,
    matrix(i, j) an element of that matrix."""
    X = single(A, v)
    if X is None or not afn(A, X, EIGH, 1):
        note(res, construct, "eigenvector not understood (%s)" % A.show(v, 3)[:120])
        return None
    key = X.key[1]
    col = X.data[-1]
    r, fm = key[2]
    if r != 2:
        note(res, construct, "matrix not understood")
        return None
    M = A.forms[fm]
    i, j = A.ix("bound0"), A.ix("bound1")
    jid = list(j)[0][0][0][0]
    shift = {}
    if matrix is not None:
        res.count("obligations")
        want = matrix(i, j)
        d = A.sub(M, want)
        diag = A.subst(d, {jid: i})
        off = A.compare(apart(A, A.subst(d, {jid: A.ix("other")}), i, A.ix("other")), {})
        res.count("obligations")
        shift = diag
        const = not A.atoms_of(diag)
        if const and off == "equal":
            res.count("proved", 2)
        elif known(A, M) and (off == "different" or not const and A.compare(diag, {}) == "different"):
            res.find("eigenproblem", construct, "%s: the diagonalised matrix differs from the documented "
                     "one by %s" % (what, A.show(d, 5)[:300]), site)
            return False
        else:
            note(res, construct, "matrix not compared (%s; %s; %s)" % (off, A.show(diag, 4)[:200], A.show(d, 4)[:300]))
            return None
    lam = A.sub(eig_atom(A, key, 0, [col]), shift)
    want = freq(lam)
    res.count("obligations")
    d = rnd.compare(A, f, want)
    if f == want or d == "equal":
        res.count("proved")
    elif known(A, f) and d == "different":
        # the same eigenvalue, another formula or another eigenvalue
        res.find("eigenpair", construct, "%s: result %s does not belong to the eigenvector column of "
                 "the same index (expected %s)" % (what, A.show(f, 5)[:200], A.show(want, 5)[:200]), site)
        return False
    else:
        note(res, construct, "eigenvalue formula not compared (%s)" % d)
        return None
    return key, col


def ascending(A, res, construct, f, col, what, site=None, also=()):
    """f = G[s] with s = argsort(G)[j]; forms in `also` order f as well"""
    for X in A.atoms_of(A.forms[col]).values():
        if afn(A, X, ("argsort",)) and len(X.data) == 1 and X.key[1][2][0] == 1 and \
                A.forms[X.data[0]] == A.ix("j"):
            b = list(A.ix("bound0"))[0][0][0][0]
            G = A.subst(A.forms[X.key[1][2][1]], {b: A.of_atom(X)})
            res.count("obligations")
            if any(rnd.compare(A, G, x) == "equal" for x in (f,) + tuple(also)):
                res.count("proved")
                return True
            if known(A, G) and rnd.compare(A, G, f) == "different":
                res.find("ascending-order", construct, "%s: sorted by %s, not by the result %s" % (
                    what, A.show(G, 4)[:200], A.show(f, 4)[:200]), site)
                return False
    note(res, construct, "order not understood")
    return None


def nearest(A, res, construct, f, key, col, dist, what, site=None):
    """the chosen columns are the smallest of dist(result): first of an argsort of
    a strictly increasing function of it"""
    lam = list(eig_atom(A, key, 0, [col]))[0][0][0][0]
    for X in A.atoms_of(A.forms[col]).values():
        if not afn(A, X, ("argsort",)) or A.forms[X.data[0]] == A.ix("j"):
            continue
        if X.key[1][2][0] != 1:
            continue
        H = A.forms[X.key[1][2][1]]
        b = list(A.ix("bound0"))[0][0][0][0]
        H = A.subst(H, {b: A.forms[col]})
        res.count("obligations")
        D = dist(f)
        bad = n = 0
        for s in range(40):
            vals = []
            for k in range(2):
                v = A.num(Fr(int(1000 * (1 + 60 * rnd.h(s, "lam", k))), 1000))
                try:
                    R = rnd.Rnd(A, s + 5)
                    vals.append((R.form(A.subst(H, {lam: v})).real, R.form(A.subst(D, {lam: v})).real))
                except (rnd.NoVal, ZeroDivisionError, OverflowError, ValueError):
                    break
            if len(vals) == 2:
                n += 1
                bad += (vals[0][0] < vals[1][0]) != (vals[0][1] < vals[1][1])
        if n and not bad:
            res.count("proved")
            return True
        if n and bad and known(A, H):
            res.find("selection", construct, "%s: candidates ranked by %s instead of %s" % (
                what, A.show(H, 4)[:200], A.show(D, 4)[:200]), site)
            return False
    note(res, construct, "selection not understood")
    return None


def absf(A, p):
    return A.absval(p)
