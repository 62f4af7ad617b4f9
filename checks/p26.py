"""P26: polariton energies, eigenvectors and fractions of the Hopfield matrix."""
from fractions import Fraction as Fr

from sa import eigspec, rnd
from sa.alg import Alg, Unk
from sa.nf import TooBig
from sa.spec import check_equal, near_site
from sa.util import client_val

EXPLANATION = (
    "The Hopfield solver is analysed from its source with symbolic photonic and excitonic frequencies, losses, "
    "field and wave-function coefficients.  Normal forms of every element of the Hopfield matrix are compared "
    "with the documented generalised Hopfield matrix assembled from the overlaps of the photonic fields with the "
    "excitonic wave functions; the matrix is required to change by the same unitary transformation as the phases "
    "of the eigenvectors it is built from; reported energies, losses, eigenvectors and fractions must belong to "
    "one eigenpair of that matrix.")
RULE = "normal form of the value equals the normal form of the specification"
ASSUMPTIONS = ["the same number of states is requested from every solver"]
REQUIRED = {"obligations": 1}

HEAD = """import legume
import numpy as np
from legume.constants import hbar, e, m_e, epsilon_0
from legume.utils import from_freq_to_e
SYM = __SYM__
N, M, Q = NP, MX, NQ
phc = legume.PhotCryst(legume.Lattice('square'))
phc.add_layer(d=SYM('dl'), eps_b=SYM('eb0'))
phc.add_layer(d=SYM('du'), eps_b=SYM('eb1'))
# two wells in the lower layer, the third one in the upper layer
HZ = [SYM('dl') / 3, 2 * SYM('dl') / 3, SYM('dl') + SYM('du') / 2]
class Gme(object):
    def ft_field_xy(self, field, kind, mind, z):
        return PH[mind] * SYM('%s' % field, 'array')[kind, mind] * (1 + z)
class Exc(object):
    def __init__(self, q):
        self.q, self.z = q, HZ[q]
        self.osc_str = np.array([SYM('osc%d%s' % (q, x)) for x in 'xyz'])
        self.eners = SYM('ex%d' % q, 'array')
        self.numeig_ex = M
        self.a = SYM('a')
    def ft_wavef_xy(self, kind, mind):
        return XP[self.q][mind] * SYM('W%d' % self.q, 'array')[kind, mind]
class Pol(legume.HopfieldPol):
    def __init__(self):
        self.a = SYM('a')
        self.N_max, self.M_max, self.num_QWs = N, M, Q
        self.gme = Gme()
        self.gme.phc = phc
        self.gme.freqs, self.gme.freqs_im = SYM('f', 'array'), SYM('fi', 'array')
        self.gme.numeig = N
        self.exc_list = [Exc(q) for q in range(Q)]
PH, XP = [1] * N, [[1] * M for q in range(Q)]
x = Pol()
"""
BLOCKS = """
got = x._construct_Hopfield(KIND)
k = KIND
ev = from_freq_to_e(SYM('a'))          # dimensionless frequency to eV
pref = -1j * np.sqrt(hbar**2 * e**2 / (4 * m_e * epsilon_0)) / e / np.sqrt(SYM('a'))
E = SYM('E', 'array')
C = np.array([[pref * sum([np.sqrt(SYM('osc%d%s' % (q, 'xyz'[j]))) * E[k, n, j, g] * (1 + HZ[q]) * np.conj(
    SYM('W%d' % q, 'array')[k, m, g]) for j in range(3) for g in range(2)])
    for q in range(Q) for m in range(M)] for n in range(N)])
ex = np.array([SYM('ex%d' % q, 'array')[k, m] for q in range(Q) for m in range(M)])
D = np.array([[sum([C[i, v] * np.conj(C[j, v]) / np.real(ex[v]) for v in range(M * Q)]) for j in range(N)]
              for i in range(N)])
om = ev * (SYM('f', 'array')[k, :] + 1j * SYM('fi', 'array')[k, :])
W, X = np.diag(om) + 2 * D, np.diag(ex)
B = np.conj(C.T)
Z = np.zeros((M * Q, M * Q))
want = np.vstack([np.hstack([W, -1j * C, -2 * D, -1j * C]), np.hstack([1j * B, X, -1j * B, Z]),
                  np.hstack([2 * D, -1j * C, -W, -1j * C]), np.hstack([-1j * B, Z, 1j * B, -X])])
"""
PHASE = """
M0 = x._construct_Hopfield(KIND)
p = [np.exp(1j * SYM('p%d' % n)) for n in range(N)]
r = [[np.exp(1j * SYM('r%d_%d' % (q, m))) for m in range(M)] for q in range(Q)]
PH, XP = p, r
got = Pol()._construct_Hopfield(KIND)
u = p + [r[q][m] for q in range(Q) for m in range(M)]
u = u + u
want = np.array([[u[i] * M0[i, j] * np.conj(u[j]) for j in range(len(u))] for i in range(len(u))])
"""
FRAC = """
V = SYM('V', 'array')
fe, fp = x._calculate_fraction(V)
P = list(range(N)) + list(range(N + M * Q, 2 * N + M * Q))
X = [i for i in range(2 * N + 2 * M * Q) if i not in P]
got, got1 = fe, fp
want = np.array([sum([np.abs(V[i, b])**2 for i in X]) for b in range(2)])
want1 = np.array([sum([np.abs(V[i, b])**2 for i in P]) for b in range(2)])
"""
RUN = """
calls = []
class Pol2(Pol):
    def _construct_Hopfield(self, kind):
        return SYM('H', 'array') * (1 + kind)
    def _calculate_fraction(self, eigenvectors):
        return 2 * eigenvectors[0, :], 3 * eigenvectors[1, :]
class G2(Gme):
    def run(self, **kw):
        calls.append((0, kw))
class X2(Exc):
    def run(self, **kw):
        calls.append((1 + self.q, kw))
x = Pol2()
x.gme = G2()
x.gme.gvec = SYM('G', 'array')
x.gme.numeig = N
x.exc_list = [X2(q) for q in range(Q)]
K = SYM('kp', 'array')
x.run(gme_options={'numeig': N, 'verbose': SYM('vb')}, exc_options={'numeig_ex': M, 'kpoints': 0}, kpoints=K, verbose=False)
f0, f1, i0, i1, v0, v1 = x.eners[0], x.eners[1], x.eners_im[0], x.eners_im[1], x.eigvecs[0], x.eigvecs[1]
e0, e1, p0, p1 = x.fractions_ex[0], x.fractions_ex[1], x.fractions_ph[0], x.fractions_ph[1]
got, want = np.array([c[0] for c in calls]), np.arange(Q + 1)
got1 = np.array([c[1]['kpoints'] for c in calls])
want1 = np.array([K for c in calls])
got2 = np.array([calls[0][1]['numeig']] + [c[1]['numeig_ex'] for c in calls[1:]])
want2 = np.array([N] + [M] * Q)
"""
NAMES = {"blocks": ["HopfieldPol._construct_Hopfield"], "phase": ["HopfieldPol._construct_Hopfield"],
         "frac": ["HopfieldPol._calculate_fraction"] * 2, "run": ["HopfieldPol.run"] * 3}
SIZES = ((1, 1, 1), (2, 1, 1), (2, 3, 1), (2, 1, 2), (1, 2, 3))


def clients(tier):
    c = {}
    for n, m, q in SIZES:
        h = "NP, MX, NQ, KIND = %d, %d, %d, %d\n" % (n, m, q, (n + m + q) % 2) + HEAD
        t = "%d%d%d" % (n, m, q)
        c["blocks_" + t] = h + BLOCKS
        if n * m * q < 4 or tier == "thorough":
            c["phase_" + t] = h + PHASE
        c["frac_" + t] = h + FRAC
        c["run_" + t] = h + RUN
    return c


def decl(name):
    n, m, q = map(int, name.split("_")[1])
    d = {"a": {"positive": True}, "dl": {"positive": True}, "du": {"positive": True}, "f": {"shape": (2, n)}, "fi": {"shape": (2, n)},
         "E": {"shape": (2, n, 3, 2), "real": False}, "V": {"shape": (2 * n + 2 * m * q, 2), "real": False},
         "H": {"shape": (2 * n + 2 * m * q,) * 2, "real": False}, "kp": {"shape": (2, 2)}, "G": {"shape": (2, 3)}}
    for i in range(q):
        d["W%d" % i] = {"shape": (2, m, 2), "real": False}
        d["ex%d" % i] = {"shape": (2, m), "real": False}
        for j in "xyz":
            d["osc%d%s" % (i, j)] = {"positive": True}
    return d


def analyse(name, I, st, res):
    if st is None:
        return
    A = Alg(I, st, decl(name))
    A.maxdim = 64
    A.generic = True
    val = lambda nm: client_val(I, st, nm)
    for k, con in enumerate(NAMES[name.split("_")[0]]):
        t = str(k) if k else ""
        check_equal(A, res, "hopfield", con, val("got" + t), val("want" + t), "%s #%d" % (name, k))
    if name.startswith("run"):
        for k in (0, 1):
            pairs(A, res, "HopfieldPol.run", val, k, "%s, k point %d" % (name, k))


def part(A, x, s):
    """real (s = 1) or imaginary (s = -1) part"""
    d = A.add(x, A.scale(A.conj(x), (Fr(s), Fr(0))))
    return A.scale(d, (Fr(1, 2), Fr(0)) if s == 1 else (Fr(0), Fr(-1, 2)))


def positive(A, res, con, r, what, site):
    """the reported states are the ones of positive energy"""
    key, col = r
    lam = A.sub(eigspec.eig_atom(A, key, 0, [A.fid(A.ix("bound0"))]), A.num(1))
    d = part(A, lam, 1)
    todo, seen = [col], set()
    while todo:
        for X in A.atoms_of(A.forms[todo.pop()]).values():
            if X.id in seen:
                continue
            seen.add(X.id)
            if X.kind == "opq" and X.key[1][0] == "truepos":
                (m, _), = A.forms[X.key[1][1][1]].items()
                C = A.atoms[m[0][0][0]]
                sign = -1
                if C.kind == "not":
                    C = A.atoms[list(A.forms[C.data[0]])[0][0][0][0]]
                    sign = 1
                if C.kind != "cond" or C.key[1] != "lt":
                    continue
                res.count("obligations")
                got = A.scale(A.forms[C.data[0]], (Fr(sign), Fr(0)))
                c = rnd.compare(A, got, d)
                if c == "equal":
                    res.count("proved")
                elif c == "different" and eigspec.known(A, got):
                    res.find("selection", con, "%s: states are kept where %s is positive, not where their energy is" % (
                        what, A.show(got)[:200]), site)
                else:
                    res.count("inconclusive")
                return
            todo += [i for i in X.data if isinstance(i, int)] if isinstance(X.data, (tuple, list)) else []
    eigspec.note(res, con, "selection of positive energies not understood")


def pairs(A, res, con, val, k, what):
    F, V = val("f%d" % k), val("v%d" % k)
    try:
        f, g, v, ex, px = [A.el(val(s + str(k)), i) for s, i in (
            ("f", (A.ix("j"),)), ("i", (A.ix("j"),)), ("v", (A.ix("i"), A.ix("j"))),
            ("e", (A.ix("j"),)), ("p", (A.ix("j"),)))]
        v0, v1 = [A.el(V, (A.num(r), A.ix("j"))) for r in (0, 1)]
    except (Unk, TooBig) as e:
        res.count("inconclusive")
        res.note("%s: eigenpairs not understood (%s)" % (what, e))
        return
    site = near_site(F)
    mat = lambda i, j: A.scale(A.elatom("H", (i, j), False), (Fr(1 + k), Fr(0)))
    r = eigspec.pair(A, res, con, f, v, lambda lam: part(A, lam, 1), what, site, mat)
    if r:
        eigspec.pair(A, res, con, g, v, lambda lam: part(A, lam, -1), what + " (losses)", site, mat)
        # complex numbers are sorted by their real parts first
        if "_111" not in what:
            eigspec.ascending(A, res, con, f, r[1], what, site, (A.add(f, A.scale(g, (Fr(0), Fr(1)))),))
        positive(A, res, con, r, what, site)
    for got, want, t in ((ex, A.scale(v0, (Fr(2), Fr(0))), "excitonic"), (px, A.scale(v1, (Fr(3), Fr(0))), "photonic")):
        res.count("obligations")
        c = rnd.compare(A, got, want)
        if c == "equal":
            res.count("proved")
        elif c == "different" and eigspec.known(A, got):
            res.find("hopfield", con, "%s: %s fraction %s of the state is not that of its eigenvector" % (
                what, t, A.show(got)[:200]), site)
        else:
            res.count("inconclusive")
