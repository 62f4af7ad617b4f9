"""P20: the registered derivative rules are the adjoints of the operations they belong to."""
from sa.alg import Alg
from sa.spec import check_equal
from sa.util import client_val

EXPLANATION = (
    "The vector-Jacobian product registered for every differentiable operation of the autograd backend is analysed "
    "for symbolic arguments, results and incoming gradients.  Its contraction with a perturbation of the argument is "
    "compared with the contraction of the incoming gradient with the perturbation of the result (linear operations: "
    "the operation itself; eigenproblems: first-order perturbation theory; roots: implicit function theorem).")
RULE = "Re(product . perturbation of the argument) and Re(incoming gradient . perturbation of the result) have one normal form"
ASSUMPTIONS = ["derivative rules of the autograd library are correct",
               "spectra are not degenerate; matrix sizes are enumerated, values are symbolic"]
REQUIRED = {"obligations": 1}

PRE = """import legume
import numpy as np
import legume.primitives as module
from legume.backend import AutogradBackend
SYM = __SYM__
VJP = __VJP__
B = AutogradBackend()
def dot(a, b):
    return np.sum(np.array(a) * np.array(b))
def real(z):
    return z + np.conj(z)
got, want = np.array([0]), np.array([0])
"""
TOEP = """
a = np.concatenate((np.array([SYM('t')]), SYM('a', 'array')))
d = SYM('b', 'array')
b = np.array([np.conj(a[k]) if k < p else a[k] if k % p == 0 else d[k] for k in range(n * p)])
v = SYM('v', 'array')
m1, m2 = VJP(B.toeplitz_block, 1), VJP(B.toeplitz_block, 2)
if m1 is not None and m2 is not None:
    ans = legume.utils.toeplitz_block(n, a, b)
    x = dot(m1(ans, n, a, b)(v), a) + dot(m2(ans, n, a, b)(v), b)
    y = dot(v, ans)
    got, want = np.array([real(x)]), np.array([real(y)])
"""
EIGH = """
w, V, x, dx = SYM('w', 'array'), SYM('V', 'array'), SYM('x', 'array'), SYM('dx', 'array')
gw, gv = SYM('gw', 'array'), np.zeros((N, N)) if VALUES else SYM('gv', 'array')
m = VJP(B.eigh, 0)
if m is not None:
    D = m((w, V), x)((gw, gv))
    dH = np.array([[dx[i, j] if i > j else np.conj(dx[j, i]) if i < j else np.real(dx[i, i]) for j in range(N)] for i in range(N)])
    K = np.matmul(np.conj(V.T), np.matmul(dH, V))
    y = sum([gw[j] * K[j, j] for j in range(N)])
    if not VALUES:
        for j in range(N):
            for k in range(N):
                if k != j:
                    y = y + sum([gv[i, j] * V[i, k] for i in range(N)]) * K[k, j] / (w[j] - w[k])
    got, want = np.array([real(dot(D, dx))]), np.array([real(y)])
"""
EIG = """
e, U, x, dx = SYM('e', 'array'), SYM('U', 'array'), SYM('x', 'array'), SYM('dx', 'array')
ge, gu = SYM('ge', 'array'), SYM('gu', 'array')
m = VJP(B.eig, 0)
if m is not None:
    D = m((e, U), x)((ge, gu))
    W = np.linalg.inv(U.T)
    C = np.matmul(W.T, np.matmul(dx, U))
    y = sum([ge[j] * C[j, j] for j in range(N)])
    for j in range(N):
        du = [sum([U[i, k] * C[k, j] / (e[j] - e[k]) for k in range(N) if k != j]) for i in range(N)]
        c = -np.real(sum([np.conj(U[i, j]) * du[i] for i in range(N)]))
        y = y + sum([gu[i, j] * (du[i] + c * U[i, j]) for i in range(N)])
    got, want = np.array([real(dot(D, dx))]), np.array([real(y)])
"""
EIGSH = """
asked = []
class Linalg(object):
    @staticmethod
    def cg(mat, vec, **kw):
        asked.append((mat, vec))
        return SYM('l%d' % len(asked), 'array'), 0
class Sparse(object):
    linalg = Linalg
m = VJP(B.eigsh, 0)
module.sp = Sparse
w, V, x = SYM('w', 'array'), SYM('V', 'array'), SYM('x', 'array')
gw, gv = SYM('gw', 'array'), np.zeros((N, K)) if VALUES else SYM('gv', 'array')
if m is not None:
    D = m((w, V), x, k=K)((gw, gv))
    I = np.eye(N)
    want = sum([gw[q] * np.outer(np.conj(V[:, q]), V[:, q]) for q in range(K)])
    mats, wmats = np.array([0]), np.array([0])
    if not VALUES:
        for q in range(K):
            P = I - np.outer(np.conj(V[:, q]), V[:, q])
            want = want - np.outer(np.matmul(P, SYM('l%d' % (q + 1), 'array')), V[:, q])
            if len(asked) == K:
                A, b = asked[q]
                wA, wb = (x - w[q] * I).T, np.matmul(P, gv[:, q])
                mats = np.concatenate((mats, np.array([A[i, j] for i in range(N) for j in range(N)]), np.array([b[i] for i in range(N)])))
                wmats = np.concatenate((wmats, np.array([wA[i, j] for i in range(N) for j in range(N)]), np.array([wb[i] for i in range(N)])))
    got = np.concatenate((np.array([D[i, j] for i in range(N) for j in range(N)]), mats))
    want = np.concatenate((np.array([want[i, j] for i in range(N) for j in range(N)]), wmats))
"""
INV = """
R, x, g, dx = SYM('R', 'array'), SYM('x', 'array'), SYM('g', 'array'), SYM('dx', 'array')
m = VJP(B.inv, 0)
if m is not None:
    got = np.array([real(dot(m(R, x)(g), dx))])
    want = np.array([real(-dot(g, np.matmul(R, np.matmul(dx, R))))])
"""
SQRT = """
x, g = SYM('x', 'array'), SYM('g', 'array')
m = VJP(B.sqrt, 0)
if m is not None:
    D = m(np.sqrt(x), x)(g)
    got = np.array([D[0], D[1]])
    want = np.array([g[0] / (2 * np.sqrt(x[0])), g[1] / (2 * np.sqrt(x[1]))])
"""
INTERP = """
yp, g = SYM('yp', 'array'), SYM('g', 'array')
x, xp = np.array(X), np.array(XP)
m = VJP(B.interp, 2)
if m is not None:
    D = m(np.interp(x, xp, yp), x, xp, yp)(g)
    y = 0
    for i in range(len(X)):
        for j in range(len(XP) - 1):
            if XP[j] < X[i] <= XP[j + 1]:
                t = (X[i] - XP[j]) / (XP[j + 1] - XP[j])
                y = y + g[i] * ((1 - t) * yp[j] + t * yp[j + 1])
    got, want = np.array([dot(D, yp)]), np.array([y])
"""
EXTEND = """
v, g = SYM('v', 'array'), SYM('g', 'array')
inds = (np.array(I0), np.array(I1))
m = VJP(B.extend, 0)
if m is not None:
    ans = legume.utils.extend(v, inds, (2, 3))
    D = m(ans, v, inds, (2, 3))(g)
    got, want = np.array([real(dot(D, v))]), np.array([real(dot(g, ans))])
"""
FSOLVE = """
def gradient(f, argnum=0):
    def df(*args):
        return SYM('d%d' % argnum) * sum([SYM('c%d' % k) * args[k] for k in range(len(args))])
    return df
module.grad = gradient
def f(x, y0, y1, y2):
    return x
m = VJP(B.fsolve_D22, 3 + WHICH)
if m is not None:
    x, ys, g = SYM('x'), (SYM('y0'), SYM('y1'), SYM('y2')), SYM('g')
    D = m(x, f, SYM('lb'), SYM('ub'), *ys)(g)
    got, want = np.array([D]), np.array([-g * SYM('d%d' % (WHICH + 1)) / SYM('d0')])
"""
FMAP = """
def gradient(f, argnum=0):
    def df(p):
        return f(1) * p
    return df
module.grad = gradient
fns = [lambda p: SYM('f0') * p, lambda p: SYM('f1') * p]
p, g = SYM('p', 'array'), SYM('g', 'array')
m = VJP(module.fmap, 1)
if m is not None:
    D = m(SYM('ans', 'array'), fns, p)(g)
    got = np.array([D[0], D[1], D[2]])
    want = np.array([(g[0] * SYM('f0') + g[1] * SYM('f1')) * p[k] for k in range(3)])
"""
SPDOT = """
S, x, g = SYM('S', 'array'), SYM('x', 'array'), SYM('g', 'array')
m = VJP(B.spdot, 1)
if m is not None:
    D = m(np.matmul(S, x), S, x)(g)
    got, want = np.array([real(dot(D, x))]), np.array([real(dot(g, np.matmul(S, x)))])
"""


def clients(tier):
    c = {}
    for n, p in ((1, 3), (2, 2), (3, 2), (2, 3), (3, 3)):
        c["toeplitz_%d_%d" % (n, p)] = PRE + "n, p = %d, %d\n" % (n, p) + TOEP
    for N in (2, 3):
        for v in (True, False):
            nm = "%d_%s" % (N, "values" if v else "vectors")
            c["eigh_" + nm] = PRE + "N, VALUES = %d, %r\n" % (N, v) + EIGH
            c["eigsh_" + nm] = PRE + "N, K, VALUES = %d, %d, %r\n" % (N + 1, N, v) + EIGSH
        c["inv_%d" % N] = PRE + INV
    c["eig_2"] = PRE + "N = 2\n" + EIG
    c["sqrt_2"] = PRE + SQRT
    for k, (X, XP) in enumerate((([0.5, 2.0], [0.0, 1.0, 3.0]), ([1.0, 3.0, 2.5, 0.25], [0.0, 1.0, 2.0, 3.0]))):
        c["interp_%d" % k] = PRE + "X, XP = %r, %r\n" % (X, XP) + INTERP
    c["extend_0"] = PRE + "I0, I1 = [0, 1], [2, 0]\n" + EXTEND
    c["extend_1"] = PRE + "I0, I1 = [1, 0, 1], [0, 1, 2]\n" + EXTEND
    for w in (1, 2):
        c["fsolve_%d" % w] = PRE + "WHICH = %d\n" % w + FSOLVE
    c["fmap_2"] = PRE + FMAP
    c["spdot_2"] = PRE + SPDOT
    return c


WHAT = {"toeplitz": ("toeplitz_block", "Toeplitz-block matrix"), "eigh": ("eigh", "Hermitian eigenproblem"),
        "eigsh": ("eigsh", "partial Hermitian eigenproblem"), "eig": ("eig", "general eigenproblem"),
        "inv": ("inv", "matrix inverse"), "sqrt": ("sqrt", "square root"), "interp": ("interp", "interpolation"),
        "extend": ("extend", "array extension"), "fsolve": ("fsolve", "root of an equation"),
        "fmap": ("fmap", "mapped functions"), "spdot": ("spdot", "sparse product")}


def decl(name):
    k, n = name.split("_")[:2]
    n = int(n)
    C = lambda *s: {"shape": s, "real": False}
    R = lambda *s: {"shape": s}
    G = {"positive": True, "generic": True}     # incoming gradients are not zero
    if k == "toeplitz":
        t = n * int(name.split("_")[2])
        return {"a": C(t - 1), "b": C(t), "v": C(t, t)}
    if k == "eigh":
        return {"w": R(n), "V": C(n, n), "x": C(n, n), "dx": C(n, n), "gw": R(n), "gv": C(n, n), "one": G}
    if k == "eig":
        return {"e": C(n), "U": C(n, n), "x": C(n, n), "dx": C(n, n), "ge": C(n), "gu": C(n, n)}
    if k == "eigsh":
        d = {"w": R(n), "V": C(n + 1, n), "x": C(n + 1, n + 1), "gw": R(n), "gv": C(n + 1, n), "one": G}
        d.update({"l%d" % (q + 1): C(n + 1) for q in range(n)})
        return d
    if k == "inv":
        return {x: C(n, n) for x in ("R", "x", "g", "dx")}
    if k == "sqrt":
        return {"x": {"shape": (2,), "positive": True}, "g": C(2)}
    if k == "interp":
        return {"yp": R(3 + n), "g": R(2 + 2 * n)}
    if k == "extend":
        return {"v": C(2 + n), "g": C(2, 3)}
    if k == "fmap":
        return {"p": R(3), "g": R(2), "ans": R(2)}
    if k == "spdot":
        return {"S": C(2, 3), "x": C(3, 2), "g": C(2, 2)}
    return {}


def analyse(name, I, st, res):
    if st is None:
        return
    A = Alg(I, st, decl(name))
    A.maxdim = 64
    A.generic = True
    A.expand_inv = True
    con, what = WHAT[name.split("_")[0]]
    for e in I.events:
        if e.kind == "missing_rule":
            res.find("adjoint", "derivative rule of %s" % con, "%s (%s): the operation is a primitive of the differentiable "
                     "backend without a derivative rule for argument %s: the gradient through it is zero" % (what, name, e.data),
                     ("legume/primitives.py", 0, "legume.primitives"))
            return
    got, want = client_val(I, st, "got"), client_val(I, st, "want")
    check_equal(A, res, "adjoint", "derivative rule of %s" % con, got, want, "%s (%s)" % (what, name))
