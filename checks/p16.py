"""P16: separation of the modes by parity with respect to a vertical mirror plane."""
from fractions import Fraction as Fr

from sa import eigspec, rnd
from sa.alg import Alg, Unk
from sa.nf import TooBig
from sa.spec import check_equal, near_site
from sa.util import client_val

EXPLANATION = (
    "The dense and the sparse parity separation are analysed for literal reciprocal sets, mirror planes and mode "
    "orders and a symbolic Hamiltonian.  Normal forms of the change of basis are compared with the reflection of the "
    "documented field components: its columns must be orthonormal eigenvectors of the mirror operator, the even ones "
    "first, and the two blocks must be the Hamiltonian in that basis.  The run is analysed for symbolic blocks: "
    "frequencies, parity labels and eigenvectors must belong to the eigenpairs of the block of that parity, in "
    "ascending order and nearest to the target.")
RULE = "normal form of the value equals the normal form of the specification"
ASSUMPTIONS = ["the reciprocal set is closed under the reflection"]
REQUIRED = {"obligations": 1}

SEP = """import legume
import numpy as np
SYM = __SYM__
class Exp(legume.GuidedModeExp):
    def __init__(self):
        pass
x = Exp()
x._gvec = 2 * np.pi * np.array(GV)
x.gmode_include = [np.array([0]), np.array(INC)]
x.ind_modes = [[np.array([0])], [np.array(s) for s in SETS]]
x.modes_numg = [[1], [len(s) for s in SETS]]
x.symm_thr = SYM('thr')
x.odd_counts, x.even_counts = [], []
H = SYM('H', 'array')
R = x._construct_sym_mat(ANG)
even, odd, V = x._separate_hamiltonian_METHOD(H, R, 1)
S = np.array(SIGMA)
T = len(SIGMA)
counts = np.array([x.even_counts[0], x.odd_counts[0]])
wcounts = np.array([NE, T - NE])
I = np.eye(T)
W = np.array([[V[i, j] for j in range(T)] for i in range(T)])
sv = np.matmul(S, W)
wsv = np.array([[W[i, j] * (1 if j < NE else -1) for j in range(T)] for i in range(T)])
ort = np.matmul(W.T, W)
ev = np.array([[even[i, j] for j in range(NE)] for i in range(NE)])
od = np.array([[odd[i, j] for j in range(T - NE)] for i in range(T - NE)])
B = np.matmul(W.T, np.matmul(H, W))
wev = np.array([[B[i, j] for j in range(NE)] for i in range(NE)])
wod = np.array([[B[NE + i, NE + j] for j in range(T - NE)] for i in range(T - NE)])
"""

RUN = """import legume
import numpy as np
import legume.gme.gme as module
SYM = __SYM__
lat = legume.Lattice('square')
phc = legume.PhotCryst(lat, eps_l=SYM('eps_l'), eps_u=SYM('eps_u'))
phc.add_layer(d=SYM('d0'), eps_b=SYM('eps0'))
phc.add_shape(legume.Circle(eps=SYM('epsr'), x_cent=SYM('xc'), y_cent=SYM('yc'), r=SYM('r')))
asked = []
def nearest(array, value, n):
    asked.append((array, value, n))
    return np.array(PICK)
module.find_nearest = nearest
class Exp(legume.GuidedModeExp):
    def _construct_mat(self, kind):
        return SYM('H%d' % kind, 'array')
    def _separate(self, mat, symm, ik):
        planes.append(symm)
        self.even_counts.append(NE)
        self.odd_counts.append(NO)
        return SYM('E%d' % ik, 'array'), SYM('O%d' % ik, 'array'), SYM('V%d' % ik, 'array')
    def _separate_hamiltonian_dense(self, mat, symm_mat, ik):
        return self._separate(mat, symm_mat, ik)
    def _separate_hamiltonian_sparse(self, mat, symm_mat, ik):
        return self._separate(mat, symm_mat, ik)
planes = []
gme = Exp(phc, gmax=SYM('gmax'))
gme.run(kpoints=SYM('kp', 'array'), angles=ANGLES, numeig=len(PICK), compute_im=False, verbose=False,
        eig_solver='eigh', kz_symmetry=SYMM, use_sparse=SPARSE, eig_sigma=SYM('sig'))
F, W, L = gme.freqs, gme.eigvecs, gme.kz_symms
"""
RUN1 = """
def eig(B):
    lam, vec = np.linalg.eigh(B + np.eye(B.shape[0]))
    return np.sqrt(np.abs(lam - 1)) / (2 * np.pi), vec
f, want, v, wantv, lab, wlab, cand, wcand, pln, wpln = [], [], [], [], [], [], [], [], [], []
for k in range(2):
    fe, ve = eig(SYM('E%d' % k, 'array'))
    fo, vo = eig(SYM('O%d' % k, 'array'))
    q, odd = QODD
    P = SYM('V%d' % k, 'array')
    f.append(F[k, 0])
    want.append(fo[q] if odd else fe[q])
    lab.append(L[k, 0])
    wlab.append(-1 if odd else 1)
    for i in range(NE + NO):
        v.append(W[k][i, 0])
        if odd:
            wantv.append(sum([P[i, NE + j] * vo[j, q] for j in range(NO)]))
        else:
            wantv.append(sum([P[i, j] * ve[j, q] for j in range(NE)]))
    C = asked[k][0]
    if SYMM == 'both':
        cand = cand + [C[i] for i in range(NE + NO)]
        wcand = wcand + [fe[i] for i in range(NE)] + [fo[i] for i in range(NO)]
    elif odd:
        cand = cand + [C[i] for i in range(NO)]
        wcand = wcand + [fo[i] for i in range(NO)]
    else:
        cand = cand + [C[i] for i in range(NE)]
        wcand = wcand + [fe[i] for i in range(NE)]
    cand = cand + [asked[k][1]]
    wcand = wcand + [SYM('sig')]
    a = np.pi / 180 * ANGLES[k]
    pln = pln + [planes[k][i, 0] * np.cos(a) + planes[k][i, 1] * np.sin(a) for i in range(2)]
    pln = pln + [planes[k][i, 1] * np.cos(a) - planes[k][i, 0] * np.sin(a) for i in range(2)]
    wpln = wpln + [np.cos(a), np.sin(a), np.sin(a), -np.cos(a)]
f, want, v, wantv, lab, wlab, cand, wcand, pln, wpln = [np.array(t) for t in (
    f, want, v, wantv, lab, wlab, cand, wcand, pln, wpln)]
"""
NEAR = """asked = []
def nearest(array, value, n):
    asked.append((array, value, n))
    return np.array(PICK)
module.find_nearest = nearest
"""
ORD = """
f0, f1, v0, v1 = F[0], F[1], W[0], W[1]
"""
ORDB = """
l0, l1 = L[0], L[1]
def eig(B):
    return np.linalg.eigh(B + np.eye(B.shape[0]))
def columns(k):
    fe, ve = eig(SYM('E%d' % k, 'array'))
    fo, vo = eig(SYM('O%d' % k, 'array'))
    P = SYM('V%d' % k, 'array')
    cols = [[sum([P[i, j] * ve[j, q] for j in range(NE)]) for i in range(NE + NO)] for q in range(NE)]
    return cols + [[sum([P[i, NE + j] * vo[j, q] for j in range(NO)]) for i in range(NE + NO)] for q in range(NO)]
c0, c1 = np.array(columns(0)), np.array(columns(1))
"""
PLANES = """import legume
import numpy as np
SYM = __SYM__
lat = LATTICE
phc = legume.PhotCryst(lat)
class Exp(legume.GuidedModeExp):
    def _init_reciprocal_abs(self):
        pass
    def _compute_ft_abs(self):
        pass
x = Exp(phc)
def accepted(a):
    try:
        x._calculate_refl_mat([a])
    except ValueError:
        return 0
    return 1
"""
PLN = """
got = np.array([accepted(a) for a in ANGLES])
want = np.array(ACC)
"""
MATS = """mats, wmats = [], []
for a in ANGLES:
    R = x._calculate_refl_mat([a])[str(a)]
    t = np.pi / 180 * a
    mats = mats + [R[0, 0], R[0, 1], R[1, 0], R[1, 1]]
    wmats = wmats + [np.cos(2 * t), np.sin(2 * t), np.sin(2 * t), -np.cos(2 * t)]
mats, wmats = np.array(mats), np.array(wmats)
"""
REJECT = """
def accepted(thr, mat):
    x.symm_thr = thr
    try:
        x._separate_hamiltonian_METHOD(mat, R, 1)
    except ValueError:
        return 0
    return 1
H0 = np.array(SYMM)
H1 = np.array(BROKEN)
got = np.array([accepted(1e-8, H0), accepted(1e-8, H1), accepted(1e-3, H0 + 1e-6 * H1), accepted(1e-8, H0 + 1e-6 * H1)])
want = np.array([1, 0, 1, 0])
"""
LATTICES = {"square": ("legume.Lattice('square')", 45), "hexagonal": ("legume.Lattice('hexagonal')", 30),
            "rectangular": ("legume.Lattice([1, 0], [0, 2])", 90)}
NE, NO = 3, 2

SQ = [(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1), (1, -1), (-1, 1)]
MIRROR = {0: lambda g: (g[0], -g[1]), 90: lambda g: (-g[0], g[1]), 45: lambda g: (g[1], g[0]),
          135: lambda g: (-g[1], -g[0])}
# name: (modes included, literal sets of indexes into SQ, one per mode)
CASES = {
    "two": ([0, 1], [[0, 1, 2, 3, 4], [0, 1, 2, 3, 4]]),
    "rev": ([1, 2], [[0, 3, 1, 4, 2], [5, 7, 6, 8, 0]]),
    "tri": ([0, 1, 3], [[0], [1, 3, 2, 4], [0, 1, 2]]),
}


def sep(name, ang, method):
    inc, sets = CASES[name]
    if name == "tri" and ang % 180 in (45, 135):
        sets = [[0], [1, 3, 2, 4], [0, 5, 6]]
    f = MIRROR[ang % 180]
    rows, off = [], 0
    n = sum(len(s) for s in sets)
    tr = 0
    for m, s in zip(inc, sets):
        for a in s:
            b = s.index(SQ.index(f(SQ[a])))
            v = -1 if m % 2 == 0 else 1
            rows.append([v if k == off + b else 0 for k in range(n)])
            tr += v * (b == s.index(a))
        off += len(s)
    gv = [[g[0] for g in SQ], [g[1] for g in SQ]]
    return "GV = %r\nINC = %r\nSETS = %r\nANG = %r\nSIGMA = %r\nNE = %d\n" % (
        gv, inc, sets, float(ang), rows, (n + tr) // 2) + SEP.replace("METHOD", method)


def hexa(ang, method):
    """six waves at 30, 90, ... degrees and the zero wave"""
    inc, sets = [0, 1], [[1, 2, 3, 4, 5, 6], [1, 3, 5, 2, 4, 6]]
    rows, off, tr = [], 0, 0
    n = 12
    for m, s in zip(inc, sets):
        v = -1 if m % 2 == 0 else 1
        for a in s:
            phi = (2 * ang - (60 * a - 30)) % 360
            b = s.index(0 if a == 0 else (phi + 30) // 60 or 6)
            rows.append([v if k == off + b else 0 for k in range(n)])
            tr += v * (b == s.index(a))
        off += len(s)
    gv = "[[0, s3, 0, -s3, -s3, 0, s3], [0, 0.5, 1, 0.5, -0.5, -1, -0.5]]"
    return "import numpy as np\ns3 = np.sqrt(3) / 2\nGV = %s\nINC = %r\nSETS = %r\nANG = %r\nSIGMA = %r\nNE = %d\n" % (
        gv, inc, sets, float(ang), rows, (n + tr) // 2) + SEP.replace("METHOD", method)


def clients(tier):
    c = {}
    for meth in ("dense", "sparse"):
        for ang in (0, 30, 60, 90, -150):
            c["sep_%s_hex_%s" % (meth, str(ang).replace("-", "m"))] = hexa(ang, meth)
    for meth in ("dense", "sparse"):
        for nm in CASES:
            for ang in (0, 45, 90, 135, -90, -45):
                c["sep_%s_%s_%s" % (meth, nm, str(ang).replace("-", "m"))] = sep(nm, ang, meth)
    for nm, (lat, step) in LATTICES.items():
        for part, angs in (("a", range(-180, 0, 15)), ("b", range(0, 195, 15))):
            c["planes_%s_%s" % (nm, part)] = "ANGLES = %r\nACC = %r\n" % (
                [float(a) for a in angs], [int(a % step == 0) for a in angs]) + (PLANES + PLN).replace("LATTICE", lat)
        c["refl_" + nm] = "ANGLES = %r\n" % [float(a) for a in range(-180, 195, step)] + (
            PLANES + MATS).replace("LATTICE", lat)
    for meth in ("dense", "sparse"):
        # two modes of opposite parity, mirror y -> -y, plane waves 0, +y, -y
        n = 6
        sym = [[float((i == j) * (1 + i // 3) + (i % 3 and j % 3 and i != j and i // 3 == j // 3) * 0.25)
                for j in range(n)] for i in range(n)]
        bro = [[float(i == j == 1) for j in range(n)] for i in range(n)]
        src = SEP[:SEP.index("even, odd")].replace("H = SYM('H', 'array')\n", "")
        c["reject_" + meth] = ("GV = %r\nINC = [0, 1]\nSETS = [[0, 1, 2], [0, 1, 2]]\nANG = 0.0\nSYMM = %r\nBROKEN = %r\n" % (
            [[0, 0, 0], [0, 1, -1]], sym, bro)) + src + REJECT.replace("METHOD", meth)
    for sp in (False, True):
        for sy in ("odd", "even", "both"):
            picks = [([q], q, sy == "odd") for q in range(NO if sy == "odd" else NE)] if sy != "both" else \
                [([q], q % NE, q >= NE) for q in range(NE + NO)]
            for p, q, odd in picks:
                c["run_%s_%s_%d" % ("sparse" if sp else "dense", sy, p[0])] = (
                    "NE, NO = %d, %d\nPICK = %r\nQODD = %r\nSYMM = %r\nSPARSE = %r\nANGLES = np.array([0.0, 45.0])\n" % (
                        NE, NO, p, (q, odd), sy, sp)).replace("np.array([", "[").replace("])", "]") + RUN + RUN1
            c["ord_%s_%s" % ("sparse" if sp else "dense", sy)] = (
                "NE, NO = %d, %d\nPICK = [1, 0]\nSYMM = %r\nSPARSE = %r\nANGLES = [0.0, 45.0]\n" % (
                    NE, NO, sy, sp)) + RUN.replace(NEAR, "") + ORD + (ORDB if sy == "both" else "")
    return c


def decl(name):
    if name.startswith("sep"):
        k = name.split("_")[2]
        n = sum(len(s) for s in CASES[k][1]) if k in CASES else 12
        return {"H": {"shape": (n, n), "real": False}, "thr": {"positive": True}}
    if name.startswith(("planes", "refl")):
        return {"thr": {"positive": True}}
    d = {"kp": {"shape": (2, 2)}, "sig": {"positive": True}}
    n = NE + NO
    for k in "01":
        d.update({"H" + k: {"shape": (n, n), "real": False}, "E" + k: {"shape": (NE, NE), "real": False},
                  "O" + k: {"shape": (NO, NO), "real": False}, "V" + k: {"shape": (n, n)}})
    return d


def analyse(name, I, st, res):
    if st is None:
        return
    A = Alg(I, st, decl(name))
    A.maxdim = 200
    A.generic = True
    val = lambda nm: client_val(I, st, nm)
    if name.startswith("sep"):
        for g, w, rule, what in (
                ("counts", "wcounts", "parity-counts", "numbers of even and odd basis states"),
                ("sv", "wsv", "parity-basis", "mirror image of the basis states, even ones first"),
                ("ort", "I", "parity-basis", "orthonormality of the basis states"),
                ("ev", "wev", "parity-block", "even block"), ("od", "wod", "parity-block", "odd block")):
            check_equal(A, res, rule, "_separate_hamiltonian_" + name.split("_")[1], val(g), val(w),
                        "%s (%s)" % (what, name))
    elif name.startswith("planes"):
        check_equal(A, res, "mirror-planes", "_calculate_refl_mat", val("got"), val("want"),
                    "accepted directions (%s)" % name)
    elif name.startswith("refl"):
        check_equal(A, res, "mirror-plane", "_construct_sym_mat", val("mats"), val("wmats"), "reflection (%s)" % name)
    elif name.startswith("reject"):
        check_equal(A, res, "symmetry-required", "_separate_hamiltonian_" + name.split("_")[1], val("got"), val("want"),
                    "Hamiltonians with and without the mirror symmetry (%s)" % name)
    elif name.startswith("run"):
        for g, w, rule, what in (
                ("f", "want", "eigenvalue", "frequencies"), ("v", "wantv", "eigenvector", "eigenvectors"),
                ("lab", "wlab", "parity-label", "parity labels"), ("cand", "wcand", "selection", "candidates and target"),
                ("pln", "wpln", "mirror-plane", "mirror plane of the k point")):
            check_equal(A, res, rule, "GuidedModeExp.run", val(g), val(w), "%s (%s)" % (what, name),
                        known=eigspec.known)
    elif name.startswith("ord"):
        order(A, val, res, name)


def apart(A, X, ix, c):
    """is the value picked by an index other than the one of the frequency?"""
    try:
        p = A.el(X, ix)
        cols = [a if A.int_(a) is None else b for a, b in (
            (A.forms[M.data[0]], A.forms[M.data[1]]) for M in A.atoms_of(p).values()
            if M.kind == "mask" and M.key[0] == "delta")]
        return bool(cols) and all(eigspec.known(A, b) and rnd.compare(A, b, c) == "different" for b in cols)
    except (Unk, TooBig):
        return False


def together(A, res, val, k, c, what, site):
    """label and eigenvector of every mode belong to the same candidate as its frequency"""
    n = NE + NO
    pick = [A.delta(c, A.num(q)) for q in range(n)]
    lab = A.num(0)
    for q in range(n):
        lab = A.add(lab, A.mul(pick[q], A.num(1 if q < NE else -1)))
    obl = [("parity-label", val("l" + k), (A.ix("j"),), lab, "label")]
    for i in range(n):
        w = A.num(0)
        for q in range(n):
            w = A.add(w, A.mul(pick[q], A.el(val("c" + k), (A.num(q), A.num(i)))))
        obl.append(("eigenvector", val("v" + k), (A.num(i), A.ix("j")), w, "component %d" % i))
    for rule, X, ix, w, part in obl:
        res.count("obligations")
        try:
            d = A.compare(A.sub(A.el(X, ix), w), {})
        except (Unk, TooBig) as e:
            d = str(e)
        if d != "equal" and apart(A, X, ix, c):
            d = "different"
        if d == "equal":
            res.count("proved")
        elif d == "different":
            res.find(rule, "GuidedModeExp.run", "%s: %s of a mode does not belong to its frequency" % (what, part), site)
        else:
            eigspec.note(res, "GuidedModeExp.run", "%s: %s (%s)" % (what, part, d))


def order(A, val, res, name):
    B = "O" if "odd" in name else "E"
    for k in "01":
        F = val("f" + k)
        try:
            f = A.el(F, (A.ix("j"),))
        except (Unk, TooBig):
            res.count("inconclusive")
            continue
        what = "%s, k point %s" % (name, k)
        site = near_site(F)
        if "both" in name:
            cols = set(X.data[0] if A.int_(A.forms[X.data[0]]) is None else X.data[1] for X in A.atoms_of(f).values()
                       if X.kind == "mask" and X.key[0] == "delta")
            if len(cols) != 1:
                eigspec.note(res, "GuidedModeExp.run", "frequencies not understood (%s)" % A.show(f, 4)[:200])
            else:
                c = list(cols)[0]
                eigspec.ascending(A, res, "GuidedModeExp.run", f, c, what, site)
                together(A, res, val, k, A.forms[c], what, site)
            continue
        X = [X for X in A.atoms_of(f).values() if eigspec.afn(A, X, eigspec.EIGH, 0)]
        if len(X) != 1:
            eigspec.note(res, "GuidedModeExp.run", "frequencies not understood (%s)" % A.show(f, 4)[:200])
            continue
        key, col = X[0].key[1], X[0].data[-1]
        eigspec.ascending(A, res, "GuidedModeExp.run", f, col, what, site)
        eigspec.nearest(A, res, "GuidedModeExp.run", f, key, col, lambda x: eigspec.absf(A, A.sub(x, A.elatom(
            "sig", (), True))), what, site)
