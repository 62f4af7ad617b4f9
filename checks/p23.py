"""P23: stacking of layers and the permittivity assigned to every position."""
from fractions import Fraction as Fr

from sa.alg import Alg
from sa.spec import check_equal
from sa.util import client_val

EXPLANATION = (
    "Structures of one to three layers with symbolic thicknesses, permittivities and shapes are analysed from "
    "their source.  Normal forms of every layer position, of the layer and permittivity assigned to a point "
    "in each layer, of the permittivity bounds and of the slab parameters handed to the guided-mode solver are "
    "compared with the definition of the stack.")
RULE = "normal form of the value equals the normal form of the specification"
ASSUMPTIONS = ["heights are not within rounding of an interface"]
REQUIRED = {"obligations": 1}

HEAD = """import legume
import numpy as np
from legume.utils import z_to_lind
SYM = __SYM__
lat = legume.Lattice('square')
phc = legume.PhotCryst(lat, eps_l=SYM('el'), eps_u=SYM('eu'))
d = [SYM('d%d' % i) for i in range(N)]
eb = [SYM('eb%d' % i) for i in range(N)]
for i in range(N):
    phc.add_layer(d=d[i], eps_b=eb[i])
zs = [0]
for i in range(N):
    zs.append(zs[i] + d[i])
class Sh(legume.Circle):
    def __init__(self, eps, area):
        self.eps, self.area = eps, area
"""
STACK = """
L, C = phc.layers, phc.claddings
got = np.array([[l.z_min, l.z_max, l.d, l.z_mid, l.eps_b] for l in L])
want = np.array([[zs[i], zs[i + 1], d[i], (zs[i] + zs[i + 1]) / 2, eb[i]] for i in range(N)])
got1 = np.array([C[0].z_max, C[1].z_min, C[0].eps_b, C[1].eps_b])
want1 = np.array([0, zs[N], SYM('el'), SYM('eu')])
got2 = phc.z_grid(Nz=3, dist=SYM('dist'))
want2 = np.array([-SYM('dist'), zs[N] / 2, zs[N] + SYM('dist')])
"""
LIND = """
pos = [-SYM('u')] + [(zs[i] + zs[i + 1]) / 2 for i in range(N)] + [zs[N] + SYM('u')]
got = np.array([z_to_lind(phc, z) for z in pos])
want = np.arange(N + 2)
"""
EPS = """
def value(i, x, y):
    return SYM('w%d' % i, 'array')[0] * x + SYM('w%d' % i, 'array')[1] * y
class Lay(legume.ShapesLayer):
    def get_eps(self, points):
        return value(self.num, points[0], points[1])
new = []
for i in range(N):
    l = Lay(lat, zs[i], zs[i + 1])
    l.num = i + 1
    new.append(l)
phc.layers = new
c0, c1 = Lay(lat, -1e10, 0), Lay(lat, zs[N], 1e10)
c0.num, c1.num = 0, N + 1
phc.claddings = [c0, c1]
pos = [-SYM('u')] + [(zs[i] + zs[i + 1]) / 2 for i in range(N)] + [zs[N] + SYM('u')]
order = ORDER
x = np.array([SYM('x%d' % k) for k in range(len(order))])
y = np.array([SYM('y%d' % k) for k in range(len(order))])
z = np.array([pos[i] for i in order])
got = phc.get_eps((x, y, z))
want = np.array([value(i, x[k], y[k]) for k, i in enumerate(order)])
"""
BOUNDS = """
phc.layers[0].add_shape([Sh(SYM('s0'), 1), Sh(SYM('s1'), 1)])
phc.layers[N - 1].add_shape(Sh(SYM('s2'), 1))
phc.add_shape(Sh(SYM('s3'), 1), cladding=1)
lo, hi = phc.get_eps_bounds()
got = np.array([lo, hi])
every = [SYM('el'), SYM('eu'), SYM('s0'), SYM('s1'), SYM('s2'), SYM('s3')] + eb
want = np.array([min(every), max(every)])
"""
PLACES = """
phc = legume.PhotCryst(lat, eps_l=V[0], eps_u=V[1])
for i in range(2):
    phc.add_layer(d=d[0], eps_b=V[2 + i])
phc.add_shape([Sh(V[4], 1), Sh(V[5], 1)], layer=0)
phc.add_shape(Sh(V[6], 1))
phc.add_shape(Sh(V[7], 1), cladding=0)
phc.add_shape(Sh(V[8], 1), cladding='u')
lo, hi = phc.get_eps_bounds()
got = np.array([lo, hi])
want = np.array([min(V), max(V)])
"""
EFF = """
phc.add_shape(Sh(SYM('s0'), SYM('area0')), layer=0)
phc.add_shape([Sh(SYM('s1'), SYM('area1'))], layer=-1)
phc.add_shape(Sh(SYM('s2'), SYM('area2')), cladding='l')
phc.add_shape(Sh(SYM('s3'), SYM('area3')), cladding=1)
lay = [phc.claddings[0]] + phc.layers + [phc.claddings[1]]
for i, l in enumerate(lay):
    l.eps_eff = SYM('c%d' % i)
class Exp(legume.GuidedModeExp):
    def _compute_ft_abs(self):
        pass
    def compute_eps_inv(self, only_gmodes=False):
        pass
    def _compute_guided(self, g):
        pass
    def _construct_mat(self, kind):
        return SYM('mat', 'array')
x = Exp(phc, gmax=1.2)
x.run(kpoints=np.array([[SYM('kx')], [SYM('ky')]]), eps_eff=MODE, numeig=2, verbose=False, compute_im=False,
      gmode_inds=[0], gmode_compute=COMP)
base = [SYM('el')] + eb + [SYM('eu')]
avg = list(base)
for i, s, a in ((1, 's0', 'area0'), (N, 's1', 'area1'), (0, 's2', 'area2'), (N + 1, 's3', 'area3')):
    avg[i] = avg[i] + (SYM(s) - base[i]) * SYM(a)
want = np.array({'average': avg, 'background': base, 'custom': [SYM('c%d' % i) for i in range(N + 2)]}[MODE])
got, got1 = x.eps_array, x.eps_array_val
want1 = want
got2, got3 = x.d_array, x.d_array_val
want2 = want3 = np.array(d)
"""
QW = """
phc.add_qw(zs[0] + d[0] / 2, SYM('V'), SYM('a'), SYM('M'), SYM('E0'), SYM('loss'), [SYM('ox'), SYM('oy'), SYM('oz')])
phc.add_qw(zs[N - 1] + d[N - 1] / 3, SYM('V2'), SYM('a2'), SYM('M2'), SYM('E2'), SYM('loss2'), np.array([SYM('ox'), 0, 1]))
q = phc.qws
got = np.array([[w.z, w.V_shapes, w.a, w.M, w.E0, w.loss, w.osc_str[0], w.osc_str[1], w.osc_str[2]] for w in q])
want = np.array([[d[0] / 2, SYM('V'), SYM('a'), SYM('M'), SYM('E0'), SYM('loss'), SYM('ox'), SYM('oy'), SYM('oz')],
                 [zs[N - 1] + d[N - 1] / 3, SYM('V2'), SYM('a2'), SYM('M2'), SYM('E2'), SYM('loss2'), SYM('ox'), 0, 1]])
ese = [legume.ExcitonSchroedEq(phc=phc, z=w.z, V_shapes=w.V_shapes, a=w.a, M=w.M, E0=w.E0, loss=w.loss, gmax=1.2) for w in q]
got1 = np.array([e.layer.z_min for e in ese])
want1 = np.array([0, zs[N - 1]])
"""
COVER = """
lat = legume.Lattice(%s)
lay = legume.ShapesLayer(lat, 0, 1, eps_b=SYM('eb'))
xc, yc, r = %s
lay.add_shape(Sh2(SYM('e0'), 0.375, 0.5, 1 / 16))
lay.add_shape([Sh2(SYM('e1'), xc, yc, r), Sh2(SYM('e2'), xc + r, yc, r)])
P = %s
got = lay.get_eps((np.array([p[0] for p in P]), np.array([p[1] for p in P])))
a1, a2 = lat.a1, lat.a2
"""
CLASS = """
class Sh2(legume.Circle):
    def __init__(self, eps, x, y, r):
        self.eps, self.x_cent, self.y_cent, self.r, self.area = eps, x, y, r, 1
"""
COVERS = {"sq": ("'square'", (Fr(0), Fr(0), Fr(1, 8))), "obl": ("[1., 0.], [0.875, 0.375]", (Fr(1, 8), Fr(0), Fr(1, 8))),
          "rect": ("[0.5, 0], [0, 1.5]", (Fr(0), Fr(1, 4), Fr(1, 16)))}
VECS = {"sq": ((1, 0), (0, 1)), "obl": ((1, 0), (Fr(7, 8), Fr(3, 8))), "rect": ((Fr(1, 2), 0), (0, Fr(3, 2)))}
PTS = [(Fr(1, 32), Fr(1, 32)), (Fr(3, 8), Fr(1, 2)), (Fr(17, 16), Fr(-1, 8)), (Fr(-9, 8), Fr(65, 64)),
       (Fr(1, 4), Fr(3, 4)), (Fr(-1, 2), Fr(-9, 8))]


FAR = [(Fr(-63, 32), Fr(1, 64)), (Fr(3, 8), Fr(1, 64)), (Fr(31, 16), Fr(-1, 64))]


def cover(lt, pts):
    """index of the permittivity at every point: 0 background, 1, 2, 3 shapes"""
    u, v = VECS[lt]
    x, y, r = COVERS[lt][1]
    shapes = [(Fr(3, 8), Fr(1, 2), Fr(1, 16)), (x, y, r), (x + r, y, r)]
    out = []
    for p in pts:
        best = 0
        for k, (a, b, c) in enumerate(shapes):
            for i in range(-12, 13):
                for j in range(-12, 13):
                    dx, dy = p[0] + i * u[0] + j * v[0] - a, p[1] + i * u[1] + j * v[1] - b
                    if dx * dx + dy * dy <= c * c:
                        best = k + 1
        out.append(best)
    return out


NAMES = {"cover": ["ShapesLayer.get_eps"], "stack": ["PhotCryst.add_layer", "PhotCryst.add_layer", "PhotCryst.z_grid"], "lind": ["utils.z_to_lind"],
         "eps": ["PhotCryst.get_eps"], "bounds": ["PhotCryst.get_eps_bounds"],
         "eff": ["GuidedModeExp.run"] * 4, "qw": ["PhotCryst.add_qw", "ExcitonSchroedEq.__init__"]}


def clients(tier):
    c = {}
    for n in (1, 2, 3):
        h = "N = %d\n" % n + HEAD
        c["stack_%d" % n] = h + STACK
        c["lind_%d" % n] = h + LIND
        for k, o in enumerate((list(range(n + 2)), [n + 1, 0, n, 1, 1])):
            c["eps_%d_%d" % (n, k)] = h.replace("import legume", "ORDER = %r\nimport legume" % o, 1) + EPS
        c["bounds_%d" % n] = h + BOUNDS
        c["qw_%d" % n] = h + QW
        for m in ("average", "background", "custom"):
            for comp in ("exact", "interp"):
                c["eff_%d_%s_%s" % (n, m, comp)] = "MODE, COMP = %r, %r\n" % (m, comp) + h + EFF
    for i in range(9):
        for j, v in enumerate((1., 9.)):
            V = [2. + k / 4 for k in range(9)]
            V[i] = v
            c["bounds_place_%d%d" % (i, j)] = "N, V = 1, %r\n" % V + HEAD + PLACES
    for k, (lat, s) in COVERS.items():
        for q, pts in (("", PTS), ("_far", [(a / 2, b / 2) for a, b in FAR] if k == "obl" else FAR)):
            c["cover_" + k + q] = ("N = 1\n" + HEAD + CLASS + COVER % (
                lat, "%s, %s, %s" % tuple(map(float, s)), [(float(a), float(b)) for a, b in pts])
                + "want = np.array([[SYM('eb'), SYM('e0'), SYM('e1'), SYM('e2')][k] for k in %r])\n" % cover(k, pts))
    return c


def decl(name):
    d = {v: {"positive": True} for v in ("u", "dist", "d0", "d1", "d2", "el", "eu", "s0", "s1", "s2", "s3", "eb0",
                                         "eb1", "eb2")}
    for i in range(5):
        d["w%d" % i] = {"shape": (2,)}
    d["mat"] = {"shape": (5, 5), "real": False}
    return d


def analyse(name, I, st, res):
    if st is None:
        return
    A = Alg(I, st, decl(name))
    A.maxdim = 64
    A.generic = True
    val = lambda nm: client_val(I, st, nm)
    for k, con in enumerate(NAMES[name.split("_")[0]]):
        t = str(k) if k else ""
        check_equal(A, res, "stack", con, val("got" + t), val("want" + t), "%s #%d" % (name, k))
