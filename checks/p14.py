"""P14: radiation losses, couplings and polarisation unbalance."""
from sa.alg import Alg
from sa.modespec import SPEC
from sa.spec import check_equal
from sa.util import client_val

EXPLANATION = (
    "The loss computation of the guided-mode expansion is analysed from its source with symbolic guided and "
    "radiative modes, eigenvectors and inverse-permittivity matrices, and literal reciprocal vectors and "
    "frequencies that decide which diffraction orders radiate.  Normal forms of the couplings to every channel, "
    "of the diffraction orders, of the total and polarisation-resolved losses and of the unbalance are compared "
    "with Fermi's golden rule written with the overlap of the curls of the two states.")
RULE = "normal form of the value equals the normal form of the specification"
ASSUMPTIONS = ["no diffraction order grazes the cladding"]
REQUIRED = {"obligations": 1}

HEAD = """import legume
import numpy as np
SYM = __SYM__
N = NLAY
GUIDED = False
D = [SYM('d%d' % l) for l in range(N - 2)]
E = [EL] + [SYM('e%d' % l) for l in range(1, N - 1)] + [EU]
M = [SYM('M%d' % l, 'array') for l in range(N)]
sets = [np.array(x) for x in SETS]
class Clad(object):
    def __init__(self, e):
        self.eps_avg = self.eps_b = self.eps_eff = e
class Phc(object):
    pass
class Exp(legume.GuidedModeExp):
    def __init__(self):
        pass
    def _get_guided(self, gk, kind, mode):
        om, A, B, c = [SYM(v + str(mode), 'array') for v in ('om', 'A', 'B', 'c')]
        return sets[mode], om, A, B, c
    def _get_rad(self, gkr, omr, pol, clad):
        return [SYM(v + pol + str(clad), 'array') for v in 'XYC']
x = Exp()
x.phc = Phc()
x.phc.claddings = [Clad(EFF), Clad(EFF)]
x._gvec = 2 * np.pi * np.array(G)
x._kpoints = 2 * np.pi * np.array(K)
x.delta_gx = 2 * np.pi / 64
x.eps_array = x.eps_array_val = np.array(E)
x.d_array = x.d_array_val = D
x.eps_inv_mat = M
x.gmode_compute = 'interp'
x.gradients = GRAD
x.numeig = 2
x.verbose = False
x._freqs = np.array(F)
V = [SYM('V0', 'array'), SYM('V1', 'array')]
x._eigvecs = V
x.gmode_include = [np.array(INDS) for i in range(2)]
x.modes_numg = [[len(SETS[m]) for m in INDS] for i in range(2)]
"""
RAD = """
KIND, IM = %d, %d
tot, tote, totm, coup, gv = x._compute_rad_components(KIND, [IM])
f, fc, fg = x.compute_rad(KIND, [IM])
gx, gy = x._gvec[0, :] + x._kpoints[0, KIND] + 2 * np.pi / 64, x._gvec[1, :] + x._kpoints[1, KIND]
gk = np.sqrt(gx**2 + gy**2)
px, py = gx / gk, gy / gk
w = 2 * np.pi * F[KIND][IM]
rad = []
for clad in (0, 1):
    rad.append([])
    eps = (EL, EU)[clad]
    out = np.array(ORDERS[KIND][IM][clad])
    for pol in (0, 1):
        t = ('te', 'tm')[pol]
        X, Y, C = [SYM(v + t + str(clad), 'array') for v in 'XYC']
        c, at = 0, 0
        for m in INDS:
            om, A, B, chi = [SYM(v + str(m), 'array') for v in ('om', 'A', 'B', 'c')]
            o = overlap(m %% 2, sets[m], om, A, B, chi, pol, out, w * np.ones(len(out)), Y, X, C)
            k = len(SETS[m])
            c = c + np.sum(np.conj(V[KIND][at:at + k, IM])[:, None] * o, axis=0)
            at = at + k
        if pol == 0:
            c = c / 1j         # electric fields of both polarisations in phase
        dos = eps / (4 * np.pi * np.sqrt(eps * w**2 - gk[out]**2))
        rad[clad].append(np.sqrt(np.pi * dos) * c)
got, want = coup['l_te'][0], rad[0][0]
got1, want1 = coup['l_tm'][0], rad[0][1]
got2, want2 = coup['u_te'][0], rad[1][0]
got3, want3 = coup['u_tm'][0], rad[1][1]
got4, want4 = gv['l'][0], x._gvec[:, ORDERS[KIND][IM][0]]
got5, want5 = gv['u'][0], x._gvec[:, ORDERS[KIND][IM][1]]
"""
TOT = """
te = np.sum(np.abs(rad[0][0])**2) + np.sum(np.abs(rad[1][0])**2)
tm = np.sum(np.abs(rad[0][1])**2) + np.sum(np.abs(rad[1][1])**2)
loss = lambda r: np.imag(np.sqrt(w**2 + 1j * r))
got6, want6 = np.array([tot[0], tote[0], totm[0]]), np.array([loss(te + tm), loss(te), loss(tm)])
got7, want7 = f[0], loss(te + tm) / (2 * np.pi)
got8, want8 = fc['u_tm'][0], rad[1][1]
"""
RUNIM = """import legume
import numpy as np
SYM = __SYM__
NK, NM = %d, %d
V = lambda v, k, m: SYM(v, 'array')[k, m]
class Exp(legume.GuidedModeExp):
    def __init__(self):
        pass
    def _compute_rad_components(self, kind, minds):
        t = [[V(v, kind, m) for m in minds] for v in ('t', 's', 'p')]
        c = {n: [V(n, kind, m) for m in minds] for n in ('l_te', 'l_tm', 'u_te', 'u_tm')}
        g = {n: [V(n, kind, m) for m in minds] for n in ('l', 'u')}
        return t[0], t[1], t[2], c, g
x = Exp()
x.numeig = NM
x.verbose = False
x._freqs = SYM('f', 'array')
x.run_im()
pi2 = 2 * np.pi
tab = lambda v: np.array([[V(v, k, m) for m in range(NM)] for k in range(NK)])
got, want = x.freqs_im, tab('t') / pi2
got1 = x.unbalance_sp
te, tm = tab('s') / pi2, tab('p') / pi2
want1 = np.where(np.abs(want) < 1e-15, 0.5, te / (te + tm + 1e-15))
rc, rg = x.rad_coup, x.rad_gvec
got2 = np.array([[[rc[n][k][m] for m in range(NM)] for k in range(NK)] for n in ('l_te', 'l_tm', 'u_te', 'u_tm')])
want2 = np.array([[[V(n, k, m) for m in range(NM)] for k in range(NK)] for n in (
    'l_te', 'l_tm', 'u_te', 'u_tm')])
got3 = np.array([[[rg[n][k][m] for m in range(NM)] for k in range(NK)] for n in ('l', 'u')])
want3 = np.array([[[V(n, k, m) for m in range(NM)] for k in range(NK)] for n in ('l', 'u')])
a = x.compute_rad(NK - 1, [NM - 1])
b = x.compute_rad_sp(0, [NM - 1, 0])
got4, want4 = np.array(a[0]), np.array([V('t', NK - 1, NM - 1)]) / pi2
got5 = np.array([b[0], b[1], b[2]])
want5 = np.array([[V(v, 0, m) for m in (NM - 1, 0)] for v in ('t', 's', 'p')]) / pi2
got6, want6 = a[1]['u_te'][0], V('u_te', NK - 1, NM - 1)
got7, want7 = b[4]['l'][1], V('l', 0, 0)
"""
WIRE = """import legume
import numpy as np
from legume.gme.slab_modes import rad_modes
SYM = __SYM__
class Exp(legume.GuidedModeExp):
    def __init__(self):
        pass
x = Exp()
x.eps_array = np.array([SYM('e%%d' %% l) for l in range(3)])
x.d_array = np.array([SYM('d0')])
x.eps_array_val, x.d_array_val = x.eps_array, x.d_array
x.N_layers = 1
x.gradients = 'exact'
g, w = SYM('g', 'array'), SYM('w')
X, Y, C = x._get_rad(g, w, POL, CLAD)
X2, Y2 = rad_modes(w, g, x.eps_array, x.d_array, POL, CLAD)
got, want = X, X2
got1, want1 = Y, Y2
got2 = C**2
want2 = np.array([[x.eps_array[l] * w**2 - g[j]**2 for j in range(2)] for l in range(3)])
"""
NAMES = {"rad": ["GuidedModeExp._compute_rad_components"] * 6, "tot": ["GuidedModeExp._compute_rad_components"] * 9,
         "runim": ["GuidedModeExp.run_im"] * 4 + ["GuidedModeExp.compute_rad", "GuidedModeExp.compute_rad_sp"] * 2,
         "wire": ["GuidedModeExp._get_rad"] * 3}
GS = [[0, 1, -1, 0, 2], [0, 0, 0, 1, 1]]
KS = [[0.25, 0.125], [0.125, 0.5]]
FS = [[0.35, 0.61], [0.82, 0.45]]


def orders(el, eu):
    out = []
    for kind in (0, 1):
        row = []
        for im in (0, 1):
            row.append([[g for g in range(5) if (GS[0][g] + KS[0][kind] + 1 / 64)**2 + (GS[1][g] + KS[1][kind])**2
                         < e * FS[kind][im]**2] for e in (el, eu)])
        out.append(row)
    return out


SETS = [[0, 1], [1, 0, 2], [2], [0]]
CASES = {"sym": (1., 1.), "low": (2., 1.), "up": (1., 3.)}


def clients(tier):
    c = {}
    for k, m in ((1, 1), (2, 2), (1, 3)):
        c["runim_%d%d" % (k, m)] = RUNIM % (k, m)
    c["runim_22_zero"] = RUNIM % (2, 2) + """
class Exp2(Exp):
    def compute_rad_sp(self, kind, minds):
        r = [[0.25, 0.], [0., 1e-5]][kind], [[0.125, 0.], [0., 0.]][kind], [[0.125, 0.], [0., 1e-5]][kind]
        return [np.array(v) for v in r] + list(Exp.compute_rad_sp(self, kind, minds)[3:])
y = Exp2()
y.numeig, y.verbose, y._freqs = NM, False, x._freqs
y.run_im()
got1 = np.round(1000 * y.unbalance_sp)
want1 = np.array([[500, 500], [500, 0]])
"""
    for pol in ("te", "tm"):
        for clad in (0, 1):
            c["wire_%s_%d" % (pol, clad)] = "POL, CLAD = %r, %d\n" % (pol, clad) + WIRE.replace("%%", "%")
    for n, inds in ((3, [0]), (3, [1]), (3, [0, 1]), (4, [1, 2]), (3, [2, 3]), (3, [0, 2, 3])):
        for cs, (el, eu) in CASES.items():
            for kind in (0, 1):
                for im in (0, 1):
                    if tier == "quick" and (kind + im + n + len(inds) + len(cs)) % 2:
                        continue
                    h = "NLAY, INDS, SETS, EL, EU, EFF, GRAD = %d, %r, %r, %r, %r, %r, 'exact'\n" % (n, inds, SETS, el, eu, 2.5 if len(inds) == 1 else el)
                    h += "G, K, F, ORDERS = %r, %r, %r, %r\n" % (GS, KS, FS, orders(el, eu))
                    if min(inds) == 2 or inds == [0] and cs == "low":
                        c["tot_%d_%s_%s_%d%d" % (n, "".join(map(str, inds)), cs, kind, im)] = h + HEAD + SPEC + RAD % (
                        kind, im) + TOT
                    if min(inds) < 2:
                        c["rad_%d_%s_%s_%d%d" % (n, "".join(map(str, inds)), cs, kind, im)] = h + HEAD + SPEC + RAD % (
                        kind, im)
    return c


def zero_in(name, lay, N, only=False):
    def value(A, idx):
        if only and (A.int_(idx[0]) != 1 or name[0] in "BX"):
            return {}
        if A.int_(idx[0]) == lay % N:
            return {}
        return A.elatom(name, idx, False)
    return value


def decl(name):
    t = name.split("_")
    if t[0] == "runim":
        k, m = int(t[1][0]), int(t[1][1])
        d = {n: {"shape": (k, m, 2 if len(n) == 1 else 3), "real": len(n) == 1}
             for n in ("l_te", "l_tm", "u_te", "u_tm", "l", "u")}
        d.update({n: {"shape": (k, m)} for n in "tspf"}, y={"positive": True})
        return d
    if t[0] == "wire":
        return {"g": {"shape": (2,)}}
    n = int(t[1])
    d = {"u": {"positive": True}}
    o = orders(*CASES[t[3]])[int(t[4][0])][int(t[4][1])]
    for j in "0123":
        w = len(SETS[int(j)])
        d["om" + j] = {"shape": (w,)}
        d["c" + j] = {"shape": (n, w), "real": False}
        d["A" + j] = {"shape": (n, w), "real": False, "value": zero_in("A" + j, 0, n, t[0] == "tot")}
        d["B" + j] = {"shape": (n, w), "real": False, "value": zero_in("B" + j, -1, n, t[0] == "tot")}
    for p in ("te", "tm"):
        for k in (0, 1):
            for v in "XYC":
                d["%s%s%d" % (v, p, k)] = {"shape": (n, len(o[k])), "real": False}
                if t[0] == "tot" and v != "C":
                    d["%s%s%d" % (v, p, k)]["value"] = zero_in("%s%s%d" % (v, p, k), n, n + 1, True)
    for l in range(n):
        d["M%d" % l] = {"shape": (5, 5), "real": False}
    m = sum(len(SETS[int(j)]) for j in t[2])
    d["V0"] = d["V1"] = {"shape": (m, 2), "real": False}
    return d


def analyse(name, I, st, res):
    if st is None:
        return
    A = Alg(I, st, decl(name))
    A.maxdim = 64
    A.generic = True
    val = lambda nm: client_val(I, st, nm)
    for k, con in enumerate(NAMES[name.split("_")[0]]):
        t = str(k) if k else ""
        check_equal(A, res, "radiation", con, val("got" + t), val("want" + t), "%s #%d" % (name, k))
