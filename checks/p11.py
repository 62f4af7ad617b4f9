"""P11: the guided-mode Hamiltonian is the weak form of Maxwell's equations."""
from fractions import Fraction as Fr

from sa.alg import Alg, Unk
from sa.nf import TooBig
from sa.modespec import SPEC
from sa import eigspec
from sa.spec import check_equal, near_site
from sa.util import client_val

EXPLANATION = (
    "Clients call the matrix-element functions, the block assembly and the run of the guided-mode "
    "expansion with symbolic modes.  Element by element the exact normal form is compared with "
    "sum over layers of the integral of eps^-1 (curl H1)* . curl H2, derived from the plane-wave "
    "form of the modes; the assembled matrix must be Hermitian with every block in its place; "
    "the reported frequencies must be the square roots (over 2 pi) of the eigenvalues of that "
    "matrix belonging to the reported eigenvectors, ascending and nearest to the target.")
RULE = "normal form of the value equals the normal form of the specification"
ASSUMPTIONS = ["the regularisers 1e-20 are infinitesimal"]
REQUIRED = {"obligations": 1}

HEAD = """import legume
import numpy as np
from legume.gme import matrix_elements as me
SYM = __SYM__
N = NLAY
GUIDED = True
E, D = SYM('E', 'array'), SYM('D', 'array')
gx, gy = SYM('gx', 'array'), SYM('gy', 'array')
gk = np.sqrt(gx**2 + gy**2)
px, py = gx / gk, gy / gk
M = [SYM('M%d' % l, 'array') for l in range(N)]
"""
MODE = """
om1, A1, B1, c1 = [SYM(v, 'array') for v in ('om1', 'A1', 'B1', 'c1')]
om2, A2, B2, c2 = [SYM(v, 'array') for v in ('om2', 'A2', 'B2', 'c2')]
i1 = np.array(I1)
i2 = np.array(I2)
"""
ELEM = """
want = overlap(P1, i1, om1, A1, B1, c1, P2, i2, om2, A2, B2, c2)
dot = lambda a, b, c, d: np.outer(a, c) + np.outer(b, d)
qx, qy = py, -px
if P1 == 0 and P2 == 0:
    got = me.mat_te_te(E, D, M, i1, om1, A1, B1, c1, i2, om2, A2, B2, c2, dot(qx, qy, qx, qy))
elif P1 == 1 and P2 == 1:
    got = me.mat_tm_tm(E, D, M, gk, i1, om1, A1, B1, c1, i2, om2, A2, B2, c2, dot(px, py, px, py))
elif P1 == 0:
    got = me.mat_te_tm(E, D, M, i1, om1, A1, B1, c1, i2, om2, A2, B2, c2, dot(qx, qy, px, py))
else:
    got = me.mat_tm_te(E, D, M, i1, om1, A1, B1, c1, i2, om2, A2, B2, c2, dot(px, py, qx, qy))
"""

MODES = """
sets = [np.array(x) for x in SETS]
class Exp(legume.GuidedModeExp):
    def __init__(self):
        pass
    def _get_guided(self, gk, kind, mode):
        om, A, B, c = [SYM(v + str(mode), 'array') for v in ('om', 'A', 'B', 'c')]
        return sets[mode], om, A, B, c
def mode(m):
    return (m % 2, sets[m]) + tuple(SYM(v + str(m), 'array') for v in ('om', 'A', 'B', 'c'))
x = Exp()
x._kpoints = SYM('K', 'array')
x.kind = 0
x._gvec = SYM('G', 'array')
x.delta_gx = SYM('dg')
x.eps_array = x.eps_array_val = E
x.d_array = x.d_array_val = D
x.eps_inv_mat = M
x.gmode_compute = 'interp'
x.gradients = 'exact'
x.gmode_inds = np.array(INDS)
x.omegas_te = [[0] * 3]
x.omegas_tm = [[0] * 3]
x.gmode_include, x.N_basis, x.modes_numg, x.ind_modes = [], [], [], []
x.N_layers = N - 2
G, K = x._gvec, x._kpoints
gx = G[0, :] + K[0, 1] + x.delta_gx
gy = G[1, :] + K[1, 1]
gk = np.sqrt(gx**2 + gy**2)
px, py = gx / gk, gy / gk
"""
ASM = """
mat = x._construct_mat(1)
rows = []
for a in INDS:
    row = []
    for b in INDS:
        m1, m2 = mode(a), mode(b)
        row.append(overlap(m1[0], m1[1], m1[2], m1[3], m1[4], m1[5],
                           m2[0], m2[1], m2[2], m2[3], m2[4], m2[5]))
    rows.append(np.hstack(row))
full = np.vstack(rows)
T = full.shape[0]
got = np.array([mat[i, j] for i in range(T) for j in range(i + 1, T)])
want = np.array([full[i, j] for i in range(T) for j in range(i + 1, T)])
got2 = np.array([mat[j, i] for i in range(T) for j in range(i + 1, T)])
want2 = np.array([np.conj(full[i, j]) for i in range(T) for j in range(i + 1, T)])
got3 = np.array([mat[i, i] for i in range(T)])
want3 = np.array([np.real(full[i, i]) for i in range(T)])
"""
EIG = """import legume
import numpy as np
SYM = __SYM__
lat = legume.Lattice('square')
phc = legume.PhotCryst(lat, eps_l=SYM('eps_l'), eps_u=SYM('eps_u'))
phc.add_layer(d=SYM('d0'), eps_b=SYM('eps0'))
phc.add_shape(legume.Circle(eps=SYM('epsr'), x_cent=SYM('xc'), y_cent=SYM('yc'), r=SYM('r')))
class Exp(legume.GuidedModeExp):
    def _construct_mat(self, kind):
        return SYM('H%d' % kind, 'array')
gme = Exp(phc, gmax=SYM('gmax'))
gme.run(kpoints=SYM('kp', 'array'), numeig=SYM('numeig', 'int'), compute_im=False, verbose=False,
        eig_solver=SOLVER, eig_sigma=SYM('sig'))
F = gme.freqs
V = gme.eigvecs
f0, f1, v0, v1 = F[0], F[1], V[0], V[1]
"""
SETS = [[0, 1], [1, 0, 2], [2], [0]]


def clients(tier):
    c = {}
    for p1 in (0, 1):
        for p2 in (0, 1):
            for n in (3, 4):
                c["elem_%d%d_%d" % (p1, p2, n)] = (
                    "NLAY = %d\nP1 = %d\nP2 = %d\nI1 = [0, 2]\nI2 = [2, 1]\n" % (n, p1, p2)
                    + HEAD + SPEC + MODE + ELEM)
    for n, inds in ((3, [0, 1]), (4, [0, 1, 2, 3]), (3, [1, 2])):
        c["asm_%s_%d" % ("".join(map(str, inds)), n)] = (
            "NLAY = %d\nINDS = %r\nSETS = %r\n" % (n, inds, SETS) + HEAD + SPEC + MODES + ASM)
    for e in ("eigh", "eigsh"):
        c["eig_" + e + "_3"] = "SOLVER = %r\n" % e + EIG
    return c


def zero_in(name, lay, N):
    """amplitude array: zero in one cladding"""
    def value(A, idx):
        if A.int_(idx[0]) == lay % N:
            return {}
        return A.elatom(name, idx, False)
    return value


def decl(name):
    if name.startswith("eig"):
        return {"kp": {"shape": (2, 2)}, "H0": {"shape": ("n", "n"), "real": False},
                "H1": {"shape": ("n", "n"), "real": False}}
    n = int(name.split("_")[2])
    d = {"E": {"shape": (n,)}, "D": {"shape": (n - 2,)},
         "gx": {"shape": (3,)}, "gy": {"shape": (3,)}}
    if name.startswith("asm"):
        d["K"] = {"shape": (2, "nk")}
        d["G"] = {"shape": (2, 3)}
    for j in "0123":
        w = len(SETS[int(j)]) if name.startswith("asm") else 2
        d["om" + j] = {"shape": (w,)}
        for v in "c":
            d[v + j] = {"shape": (n, w), "real": False}
        d["A" + j] = {"shape": (n, w), "real": False, "value": zero_in("A" + j, 0, n)}
        d["B" + j] = {"shape": (n, w), "real": False, "value": zero_in("B" + j, -1, n)}
    for l in range(n):
        d["M%d" % l] = {"shape": (3, 3), "real": False}
    return d


def analyse(name, I, st, res):
    if st is None:
        return
    A = Alg(I, st, decl(name))
    A.maxdim = 64
    A.generic = True
    val = lambda nm: client_val(I, st, nm)
    if name.startswith("eig"):
        return eig(A, I, st, val, res, name)
    if name.startswith("asm"):
        for k, what in (("", "upper triangle"), ("2", "lower triangle"), ("3", "diagonal")):
            check_equal(A, res, "hamiltonian", "_construct_mat", val("got" + k), val("want" + k),
                        "%s of the Hamiltonian (%s)" % (what, name))
        return
    check_equal(A, res, "matrix-element", "matrix_elements", val("got"), val("want"),
                "overlap of the modes (%s)" % name)


def eig(A, I, st, val, res, name):
    for k in "01":
        F, V = val("f" + k), val("v" + k)
        try:
            f = A.el(F, (A.ix("j"),))
            v = A.el(V, (A.ix("i"), A.ix("j")))
        except (Unk, TooBig):
            res.count("inconclusive")
            continue
        # omega/2pi, omega^2 eigenvalue of the Hamiltonian of this k point
        freq = lambda lam: A.mul(A.power(eigspec.absf(A, lam), Fr(1, 2)), A.power(A.scale(A.PI, (Fr(2), Fr(0))), -1))
        mat = lambda i, j: A.elatom("H" + k, (i, j), False)
        what = "%s, k point %s" % (name, k)
        site = near_site(F)
        r = eigspec.pair(A, res, "GuidedModeExp.run", f, v, freq, what, site, mat)
        if not r:
            continue
        eigspec.ascending(A, res, "GuidedModeExp.run", f, r[1], what, site)
        if "eigh" in name:
            eigspec.nearest(A, res, "GuidedModeExp.run", f, r[0], r[1], lambda x: eigspec.absf(A, A.sub(x, sig(A))),
                            what, site)
        else:
            names = r[0][-1]
            if "sigma" in names:
                p = A.forms[r[0][2 + 1 + names.index("sigma")][1]]
                two = A.mul(A.mul(A.num(2), A.PI), sig(A))
                want = A.add(A.mul(two, two), shift_of(A, r[0], mat))
                res.count("obligations")
                c = A.compare(p, want)
                if c == "equal":
                    res.count("proved")
                elif c == "different":
                    res.find("selection", "GuidedModeExp.run", "%s: spectral target %s instead of %s" % (
                        what, A.show(p), A.show(want)), site)


def sig(A):
    return A.elatom("sig", (), True)


def shift_of(A, key, mat):
    i, j = A.ix("bound0"), A.ix("bound1")
    d = A.sub(A.forms[key[2][1]], mat(i, j))
    return A.subst(d, {list(j)[0][0][0][0]: i})
