"""P17: real-space fields, permittivities and wave functions are Fourier sums."""
from sa.alg import Alg
from sa.spec import check_equal
from sa.util import client_val

EXPLANATION = (
    "The real-space accessors of the four solvers are analysed for symbolic coefficients, grids and literal "
    "reciprocal sets.  Every element of the returned arrays is compared, as a normal form, with the Fourier "
    "sum over each reciprocal vector once; for the permittivity and potential with the sum over all differences "
    "of the transform of the layer at the requested height.")
RULE = "normal form of the value equals the normal form of the specification"
ASSUMPTIONS = ["the transform of a layer is that of a real function"]
REQUIRED = {"obligations": 1}

HEAD = """import legume
import numpy as np
SYM = __SYM__
lat = legume.Lattice(%s)
X, Y = SYM('X', 'array'), SYM('Y', 'array')
"""
FIELD = """
phc = legume.PhotCryst(lat)
phc.add_layer(d=1, eps_b=2)
lay = legume.ShapesLayer(lat, 0, 1, eps_b=2)
FV = {'H': SYM('fh'), 'D': SYM('fd'), 'E': SYM('fe')}
def coef(field, kind, mind, z, c):
    return (SYM('s') + 7 * FV[field] + 3 * kind + mind) * SYM('F%%s' %% c, 'array') + z * SYM('S%%s' %% c, 'array')
class Exp(legume.%(cls)s):
    def __init__(self):
        self._gvec = GV
        self.phc = phc
        self.layer = lay
    def ft_field_xy(self, field, kind, mind, z=0):
        return tuple(coef(field, kind, mind, z, c) for c in 'xyz')
GV = np.array([[0, 2.5, -1, 3], [0, 2, np.pi, 2]])
NG = 4
x = Exp()
def total(c, field, kind, mind, xs, ys, z):
    f = coef(field, kind, mind, z, c)
    return sum(f[j] * np.exp(1j * (GV[0, j] * xs + GV[1, j] * ys)) for j in range(NG))
"""
XY = """
fi, xg, yg = x.get_field_xy('E', 1, 2, SYM('z'), X, Y, component=COMP)
wx, wy = X, Y
for c in COMP:
    want[c] = np.array([[total(c, 'E', 1, 2, X[i], Y[k], SYM('z')) for i in range(3)] for k in range(2)])
"""
XZ = """
fi, xg, yg = x.get_field_xz('H', 2, 1, SYM('y'), X, Y, component=COMP)
wx, wy = X, Y
for c in COMP:
    want[c] = np.array([[total(c, 'H', 2, 1, X[i], SYM('y'), Y[k]) for i in range(3)] for k in range(2)])
"""
YZ = """
fi, xg, yg = x.get_field_yz('D', 0, 1, SYM('x'), X, Y, component=COMP)
wx, wy = X, Y
for c in COMP:
    want[c] = np.array([[total(c, 'D', 0, 1, SYM('x'), X[i], Y[k]) for i in range(3)] for k in range(2)])
"""
DXY = """
fi, xg, yg = x.get_field_xy('E', 1, 2, %(z)scomponent=COMP, Nx=3, Ny=2)
wx, wy = lat.xy_grid(3, 2)
for c in COMP:
    want[c] = np.array([[total(c, 'E', 1, 2, wx[i], wy[k], %(w)s) for i in range(3)] for k in range(2)])
"""
DXZ = """
fi, xg, yg = x.get_field_xz('E', 1, 2, SYM('y'), component=COMP, Nx=3, Nz=2, dist=SYM('dist'))
wx, wy = lat.xy_grid(3, 2)[0], phc.z_grid(2, SYM('dist'))
for c in COMP:
    want[c] = np.array([[total(c, 'E', 1, 2, wx[i], SYM('y'), wy[k]) for i in range(3)] for k in range(2)])
"""
DYZ = """
fi, xg, yg = x.get_field_yz('E', 1, 2, SYM('x'), component=COMP, Ny=3, Nz=2, dist=SYM('dist'))
wx, wy = lat.xy_grid(2, 3)[1], phc.z_grid(2, SYM('dist'))
for c in COMP:
    want[c] = np.array([[total(c, 'E', 1, 2, SYM('x'), wx[i], wy[k]) for i in range(3)] for k in range(2)])
"""
OUT = """
for c in COMP:
    pass
"""
MAP = """
class Lay(legume.ShapesLayer):
    def compute_ft(self, g):
        return spec(g[0], g[1], self.z_max)
    def compute_exc_ft(self, g, v):
        return v * spec(g[0], g[1], 2)
def spec(gx, gy, w):
    return np.exp(-1j * (gx * (w + SYM('cx')) + gy * SYM('cy'))) * (1 + w * SYM('w')) / (1 + gx**2 + 3 * gy**2)
phc = legume.PhotCryst(lat)
phc.layers = [Lay(lat, 0, 1), Lay(lat, 1, 2), Lay(lat, 2, 3)]
%s
GV = x.gvec
NG = %d
D = DIFFS
diffs = [lat.b1 * i + lat.b2 * j for i, j in D]
xs, ys = xg, yg
want = np.array([[sum(scale * spec(d[0], d[1], 2) * np.exp(1j * (d[0] * xs[i] + d[1] * ys[k])) for d in diffs)
                  for i in range(len(xs))] for k in range(len(ys))])
"""
GME = """
x = legume.GuidedModeExp(phc, gmax=%s, truncate_g=TRUNC)
scale = 1
if TRUNC == 'abs':
    x._compute_ft_abs()
else:
    x._compute_ft_tbt()
got, xg, yg = x.get_eps_xy(1.5, X, Y)
wx, wy = X, Y
"""
PWE = """
x = legume.PlaneWaveExp(phc.layers[1], gmax=%s)
scale = 1
x._compute_ft()
got, xg, yg = x.get_eps_xy(Nx=5, Ny=4)
wx, wy = lat.xy_grid(5, 4)
"""
ESE = """
scale = SYM('vs')
x = legume.ExcitonSchroedEq(phc=phc, z=1.5, V_shapes=SYM('vs'), a=SYM('a'), M=SYM('M'), E0=SYM('E0'), loss=SYM('loss'), gmax=%s, truncate_g=TRUNC)
if TRUNC == 'abs':
    x._compute_pot_ft_abs()
else:
    x._compute_pot_ft_tbt()
got, xg, yg = x.get_pot_xy(Nx=5, Ny=4)
wx, wy = lat.xy_grid(5, 4)
"""
WAVE = """
class Exp(legume.ExcitonSchroedEq):
    def __init__(self):
        self._gvec = GV
        self.layer = legume.ShapesLayer(lat, 0, 1, eps_b=2)
        self._eigvecs = SYM('V', 'array')
GV = np.array([[0, 2.5, -1, 3], [0, 2, np.pi, 2]])
x = Exp()
got, xg, yg = x.get_wavef_xy(1, 2, Nx=5, Ny=4)
wx, wy = lat.xy_grid(5, 4)
xs, ys = wx, wy
f = SYM('V', 'array')[1, :, 2]
want = np.array([[sum(f[j] * np.exp(1j * (GV[0, j] * wx[i] + GV[1, j] * wy[k])) for j in range(4))
                  for i in range(len(xs))] for k in range(len(ys))])
"""
LATS = {"sq": ("'square'", "1.2", (1, 1), None),
        "hex": ("'hexagonal'", "1.3", (1, 1), [(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1), (1, -1), (-1, 1)]),
        "obl": ("[1., 0.], [0.25, 0.75]", "1.1", (1, 0), None)}


def sets(lt, trunc):
    """differences of the reciprocal vectors of the set, each once"""
    _, gmax, (n1, n2), s = LATS[lt]
    if trunc == "abs":
        if lt == "sq":
            s = [(i, j) for i in (-1, 0, 1) for j in (-1, 0, 1) if i * j == 0]
        elif lt == "obl":
            s = [(i, 0) for i in (-1, 0, 1)]
    else:
        s = [(i, j) for i in range(-n1, n1 + 1) for j in range(-n2, n2 + 1)]
    return sorted(set((a - c, b - d) for a, b in s for c, d in s)), len(s)


def clients(tier):
    c = {}
    for cls, forms in (("GuidedModeExp", {"xy": XY, "xz": XZ, "yz": YZ, "dxz": DXZ, "dyz": DYZ,
                                          "dxy": DXY % {"z": "SYM('z'), ", "w": "SYM('z')"}}),
                       ("PlaneWaveExp", {"dxy": DXY % {"z": "", "w": "0"}})):
        for k, f in forms.items():
            for comp in ("xyz", "zx"):
                for lt in ("sq", "hex") if k[0] == "d" else ("sq",):
                    c["field_%s_%s_%s_%s" % (cls[:3], k, comp, lt)] = (
                        HEAD % LATS[lt][0] + "COMP = %r\nwant = {}\n" % comp + FIELD % {"cls": cls} + f
                        + "".join("got%s = fi[%r]\nwant%s = want[%r]\n" % (k, k, k, k) for k in comp))
    for lt, (args, gmax, _, _) in LATS.items():
        for trunc in ("tbt", "abs"):
            d, n = sets(lt, trunc)
            for nm, x in (("gme", GME), ("pwe", PWE), ("ese", ESE)):
                if (nm, trunc) != ("pwe", "abs"):
                    c["map_%s_%s_%s" % (nm, trunc, lt)] = (
                        HEAD % args + "TRUNC = %r\nDIFFS = %r\n" % (trunc, d) + MAP % (x % gmax, n))
    for lt in ("sq", "hex"):
        c["wave_" + lt] = HEAD % LATS[lt][0] + WAVE
    return c


def decl(name):
    d = {"X": {"shape": (3,)}, "Y": {"shape": (2,)}, "V": {"shape": ("k", 4, "n"), "real": False},
         "dist": {"positive": True}}
    for c in "xyz":
        for f in "FS":
            d[f + c] = {"shape": (4,), "real": False}
    return d


CON = {"xy": "get_field_xy", "xz": "get_field_xz", "yz": "get_field_yz", "dxy": "get_field_xy",
       "dxz": "get_field_xz", "dyz": "get_field_yz"}
OWN = {"Gui": "GuidedModeExp.", "Pla": "PlaneWaveExp.", "gme": "GuidedModeExp.get_eps_xy",
       "pwe": "PlaneWaveExp.get_eps_xy", "ese": "ExcitonSchroedEq.get_pot_xy"}


def analyse(name, I, st, res):
    if st is None:
        return
    A = Alg(I, st, decl(name))
    A.maxdim = 64
    A.generic = True
    val = lambda nm: client_val(I, st, nm)
    part = name.split("_")
    con = {"field": lambda: OWN[part[1]] + CON[part[2]], "map": lambda: OWN[part[1]],
           "wave": lambda: "ExcitonSchroedEq.get_wavef_xy"}[part[0]]()
    for k in (part[3] if part[0] == "field" else ("",)):
        if part[0] == "field":
            k = k
        check_equal(A, res, "fourier-sum", con, val("got" + k), val("want" + k), "%s %s" % (name, k))
    for g, w in (("xg", "wx"), ("yg", "wy")):
        check_equal(A, res, "grid", con, val(g), val(w), "returned grid %s (%s)" % (g[0], name))
