"""P13: the plane-wave and exciton eigenproblems and the permittivity matrices."""
from fractions import Fraction as Fr

from sa.alg import Alg, Unk
from sa.nf import TooBig
from sa import eigspec
from sa.engine import canon
from sa.spec import check_equal, near_site
from sa.util import client_val

EXPLANATION = (
    "The permittivity, potential and kinetic matrices of the three expansions are analysed from their source "
    "for symbolic layer transforms and for literal reciprocal sets of both truncations.  Normal forms of every "
    "matrix element are compared with the transform at the difference of the two reciprocal vectors; the "
    "plane-wave and exciton eigenproblems with the documented operators; the layer transform with the sum over "
    "its shapes.")
RULE = "normal form of the value equals the normal form of the specification"
ASSUMPTIONS = ["the transform of a layer is that of a real function", "eigh returns the eigenpairs of its argument"]
REQUIRED = {"obligations": 1}

HEAD = """import legume
import numpy as np
SYM = __SYM__
lat = legume.Lattice('square')
"""
PWE = """
class Exp(legume.PlaneWaveExp):
    def __init__(self):
        self.eps_eff = SYM('ee')
    def _compute_ft(self):
        pass
    def _compute_eps_inv(self):
        self.eps_inv_mat = SYM('W', 'array')
x = Exp()
x._gvec = SYM('G', 'array')
x.run(kpoints=SYM('kp', 'array'), pol=POL, numeig=SYM('numeig', 'int'))
F, V = x.freqs, x.eigvecs
f0, f1, v0, v1 = F[0], F[1], V[0], V[1]
"""
ESE = """
import scipy.constants as cs
c_hbar, c_e = cs.hbar, cs.e
class Exp(legume.ExcitonSchroedEq):
    def __init__(self):
        self.a, self.M, self.E0, self.loss = SYM('a'), SYM('M'), SYM('E0'), SYM('loss')
    def _compute_matrix(self):
        self.pot_mat = SYM('W', 'array')
x = Exp()
x._gvec = SYM('G', 'array')
x.run(kpoints=SYM('kp', 'array'), numeig_ex=SYM('numeig', 'int'), verbose_ex=False)
F, V = x.eners, x.eigvecs
f0, f1, v0, v1 = F[0], F[1], V[0], V[1]
"""
EPS = """
b1, b2 = np.array([3, 1]), np.array([1, 4])
lat.b1, lat.b2 = b1, b2
I1, I2 = np.array(IND1), np.array(IND2)
GV = b1[:, np.newaxis].dot(I1[np.newaxis, :]) + b2[:, np.newaxis].dot(I2[np.newaxis, :])
def spec(gx, gy):
    # transform of a real function
    return np.exp(-1j * (gx * SYM('cx') + gy * SYM('cy'))) / (1 + gx**2 + 3 * gy**2)
class Lay(legume.ShapesLayer):
    def compute_ft(self, g):
        return spec(g[0], g[1])
    def compute_exc_ft(self, g, v):
        return v * spec(g[0], g[1])
class Exp(legume.%s):
    def _init_reciprocal%s(self):
        self._gvec = GV
        self.inds1, self.inds2 = I1, I2
        self.n1g, self.n2g = N1G, N2G
want = np.array([[spec(GV[0, i] - GV[0, j], GV[1, i] - GV[1, j]) for j in range(len(IND1))] for i in range(len(IND1))])
%s
"""
XPWE = """
x = Exp(Lay(lat, 0, 1), gmax=SYM('gmax'))
x._compute_eps_inv()
inv = x.eps_inv_mat
"""
XESE = """
phc = legume.PhotCryst(lat)
phc.layers = [Lay(lat, 0, 1)]
x = Exp(phc=phc, z=0.5, V_shapes=SYM('vs'), a=SYM('a'), M=SYM('M'), E0=SYM('E0'), loss=SYM('loss'), gmax=SYM('gmax'), truncate_g=TRUNC)
x._compute_matrix()
got = x.pot_mat / SYM('vs')
"""
XGME = """
phc = legume.PhotCryst(lat)
phc.layers = [Lay(lat, 0, 1)]
x = Exp(phc=phc, gmax=SYM('gmax'), truncate_g=TRUNC)
x.compute_eps_inv()
inv = x.eps_inv_mat[1]
"""
XHOM = """
class Hom(legume.ShapesLayer):
    def compute_ft(self, g):
        return np.where(np.abs(g[0]) + np.abs(g[1]) < 1e-8, SYM('eb'), 0.)
phc = legume.PhotCryst(lat)
phc.layers = [Lay(lat, 0, 1), Hom(lat, 1, 2)]
x = Exp(phc=phc, gmax=SYM('gmax'), truncate_g=TRUNC)
x.compute_eps_inv(only_gmodes=ONLY)
got = x.eps_inv_mat[2]
want = np.eye(len(IND1)) / SYM('eb')
if ONLY:
    got = x.eps_inv_mat[1]
    want = np.eye(len(IND1)) / spec(0, 0)
"""
TBT = [[(i, j) for i in range(a) for j in range(b)] for a, b in ((2, 3), (3, 2))]
ABS = [[(i, j) for i in (-1, 0, 1) for j in (-1, 0, 1) if i * j == 0]]


FULL = """
lat = legume.Lattice(%s)
def spec(gx, gy):
    return np.exp(-1j * (gx * SYM('cx') + gy * SYM('cy'))) / (1 + gx**2 + 3 * gy**2)
class Lay(legume.ShapesLayer):
    def compute_ft(self, g):
        return spec(g[0], g[1])
    def compute_exc_ft(self, g, v):
        return v * spec(g[0], g[1])
Exp = legume.%s
%s
GV = x.gvec
NG = %d
want = np.array([[spec(GV[0, i] - GV[0, j], GV[1, i] - GV[1, j]) for j in range(NG)] for i in range(NG)])
"""
LAY = """
class Sh(legume.Circle):
    def __init__(self, eps, area, s):
        self.eps, self.area, self.s = eps, area, s
    def compute_ft(self, gvec):
        return np.array([self.s, self.area])
lat.ec_area = SYM('area')
lay = legume.ShapesLayer(lat, 0, 1, eps_b=SYM('eb'))
lay.add_shape(Sh(SYM('e1'), SYM('a1'), SYM('s1')))
lay.add_shape([Sh(SYM('e2'), SYM('a2'), SYM('s2'))])
g = np.array([[SYM('gx'), 0], [SYM('gy'), 0]])
A = SYM('area')
e1, e2, eb = SYM('e1') - SYM('eb'), SYM('e2') - SYM('eb'), SYM('eb')
got = lay.compute_ft(g)
want = np.array([(e1 * SYM('s1') + e2 * SYM('s2')) / A, eb + (e1 * SYM('a1') + e2 * SYM('a2')) / A])
got2 = lay.eps_avg
want2 = want[1]
v = VSIGN * SYM('v')
got3 = lay.compute_exc_ft(g, v)
want3 = np.array([v * (SYM('s1') + SYM('s2')) / A, v * (SYM('a1') + SYM('a2')) / A + (SYM('v') if VSIGN < 0 else 0)])
"""
LATS = {"sq": ("'square'", "1.2", 9, 5), "hex": ("'hexagonal'", "1.3", 9, 7),
        "obl": ("[1., 0.], [0.25, 0.75]", "1.1", 3, 3)}


def eps_clients():
    c = {}
    for lt, (args, gmax, nt, na) in LATS.items():
        for trunc in ("tbt", "abs"):
            for cls, x in (("PlaneWaveExp", XPWE), ("ExcitonSchroedEq", XESE), ("GuidedModeExp", XGME)):
                if trunc == "abs" and x is XPWE:
                    continue
                c["eps_%s_%s_%s" % (cls[:3], trunc, lt)] = (
                    "TRUNC = %r\n" % trunc + HEAD + FULL % (
                        args, cls, x.replace("SYM('gmax')", gmax), nt if trunc == "tbt" else na))
    for trunc, sets in (("tbt", TBT), ("abs", ABS)):
        for cls, x in (("PlaneWaveExp", XPWE), ("ExcitonSchroedEq", XESE), ("GuidedModeExp", XGME)):
            if trunc == "abs" and x is XPWE:
                continue
            for k, s in enumerate(sets):
                a, b = len(set(i for i, _ in s)), len(set(j for _, j in s))
                c["eps_%s_%s_%d" % (cls[:3], trunc, k)] = (
                    "IND1 = %r\nIND2 = %r\nN1G, N2G = %d, %d\nTRUNC = %r\n" % (
                        [i for i, _ in s], [j for _, j in s], a, b, trunc)
                    + HEAD + EPS % (cls, "" if x is XPWE else "_" + trunc, x))
                if x is XGME and k == 0:
                    for o in (False, True):
                        c["eps_hom_%s_%d" % (trunc, o)] = (
                            "IND1 = %r\nIND2 = %r\nN1G, N2G = %d, %d\nTRUNC = %r\nONLY = %r\n" % (
                                [i for i, _ in s], [j for _, j in s], a, b, trunc, o)
                            + HEAD + EPS % (cls, "_" + trunc, XHOM))
    return c


def clients(tier):
    c = eps_clients()
    for v in (1, -1):
        c["layer_%d" % v] = "VSIGN = %d\n" % v + HEAD.replace("'square'", "SYM('A1', 'array'), SYM('A2', 'array')") + LAY
    for pol in ("te", "tm", "TM"):
        c["pwe_" + pol] = "POL = %r\n" % pol + HEAD + PWE
    c["ese"] = HEAD + ESE
    return c


def dense(c):
    """the permittivity of the layer is not homogeneous and not symmetric"""
    if c.op == "cmp" and c.val == "lt":
        a = c.args[0]
        if a.op == "call" and canon(a.val) in ("sum", "amax", "max") and a.args[0].op == "call" and \
                canon(a.args[0].val) in ("abs", "absolute"):
            return False
    return None


def matrix(A, val, res, name):
    got = val("got")
    if got is None:
        n = A.res(val("inv"))
        f, a = A.as_call(n) if n.op in ("call", "meth") else (n.op, None)
        if f != "inv":
            return eigspec.note(res, name, "inverse permittivity is %s" % f)
        got = a[0]
    check_equal(A, res, "permittivity-matrix", name.split("_")[1], got, val("want"),
                "matrix element (%s)" % name)


def decl(name):
    if name.startswith("layer"):
        return dict([(v, {"positive": True}) for v in ("v", "a1", "a2", "gx", "gy", "area")],
                    A1={"shape": (2,)}, A2={"shape": (2,)})
    if name.startswith("eps"):
        return {"b1": {"shape": (2,)}, "b2": {"shape": (2,)}}
    return {"kp": {"shape": (2, 2)}, "G": {"shape": (2, "n")},
            "W": {"shape": ("n", "n"), "real": False}}


def analyse(name, I, st, res):
    if st is None:
        return
    A = Alg(I, st, decl(name), None if "hom" in name else dense)
    A.maxdim = 64
    A.generic = True
    val = lambda nm: client_val(I, st, nm)
    ext = lambda nm: A.el(val("c_" + nm), ())
    if name.startswith("eps"):
        return matrix(A, val, res, name)
    if name.startswith("layer"):
        for k, f in (("", "compute_ft"), ("2", "eps_avg"), ("3", "compute_exc_ft")):
            check_equal(A, res, "layer-transform", "ShapesLayer." + f, val("got" + k), val("want" + k),
                        "%s of a layer with two shapes (%s)" % (f, name))
        return
    S = lambda nm: A.elatom(nm, (), True)
    for k in "01":
        F, V = val("f" + k), val("v" + k)
        site = near_site(F)
        try:
            f = A.el(F, (A.ix("j"),))
            v = A.el(V, (A.ix("i"), A.ix("j")))
        except (Unk, TooBig) as e:
            res.count("inconclusive")
            res.note("%s: %s" % (name, e))
            continue
        kk = [A.elatom("kp", (A.num(c), A.num(int(k))), True) for c in (0, 1)]

        def g(i):
            return [A.add(kk[c], A.elatom("G", (A.num(c), i), True)) for c in (0, 1)]

        def sq(i):
            a, b = g(i)
            return A.add(A.mul(a, a), A.mul(b, b))
        W = lambda i, j: A.elatom("W", (i, j), False)
        what = "%s, k point %s" % (name, k)
        half = Fr(1, 2)
        if name == "ese":
            con = "ExcitonSchroedEq.run"
            # h^2 |k+G|^2 / (2 M e a^2) on the diagonal, potential in eV
            h = ext("hbar")

            def mat(i, j):
                kin = A.mul(A.mul(A.mul(h, h), sq(i)), A.power(
                    A.mul(A.mul(A.num(2), S("M")), A.mul(ext("e"), A.mul(S("a"), S("a")))), -1))
                return A.add(W(i, j), A.mul(kin, A.delta(i, j)))
            freq = lambda lam: A.add(A.add(lam, S("E0")), A.mul(A.num(1j), S("loss")))
        else:
            con = "PlaneWaveExp.run"
            if name == "pwe_te":
                def mat(i, j):
                    a, b = g(i), g(j)
                    return A.mul(A.add(A.mul(a[0], b[0]), A.mul(a[1], b[1])), W(i, j))
            else:
                def mat(i, j):
                    return A.mul(A.mul(A.power(sq(i), half), A.power(sq(j), half)), W(i, j))
            freq = lambda lam: A.mul(A.power(eigspec.absf(A, lam), half),
                                     A.power(A.mul(A.num(2), A.PI), -1))
        r = eigspec.pair(A, res, con, f, v, freq, what, site, mat)
        if r:
            if name == "ese":
                f = A.sub(f, A.add(S("E0"), A.mul(A.num(1j), S("loss"))))
            eigspec.ascending(A, res, con, f, r[1], what, site)
