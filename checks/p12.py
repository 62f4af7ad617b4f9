"""P12: reported fields are the Maxwell fields of the eigenvectors."""
from checks import p11
from sa.alg import Alg
from sa.spec import check_equal
from sa.util import client_val

EXPLANATION = (
    "ft_field_xy of the guided-mode expansion is analysed for symbolic modes, eigenvectors and heights in "
    "every layer.  Normal forms of the H, D and E coefficients at every reciprocal vector are compared with "
    "the superposition of the plane-wave fields of the modes: H from the mode profile, D from curl H, E from "
    "the inverse permittivity matrix of the layer at z.")
RULE = "normal form of the value equals the normal form of the specification"
ASSUMPTIONS = ["the offsets 1e-10 and 1e-15 of k are infinitesimal"]
REQUIRED = {"obligations": 1}

THICK = """
D = [SYM('t%d' % i) for i in range(N - 2)]
if 0 < LAYER < N - 1:
    D[LAYER - 1] = SYM('dz') + SYM('dw')
D = np.array(D)
"""
SPEC = """
x._eigvecs = [SYM('V0', 'array'), SYM('V1', 'array')]
x._freqs = SYM('F', 'array')
x.modes_numg = [[5, 5, 5, 5], [len(sets[m]) for m in INDS]]
x.gmode_include = [np.array([9, 9]), np.array(INDS)]
lat = legume.Lattice('square')
phc = legume.PhotCryst(lat, eps_l=SYM('el'), eps_u=SYM('eu'))
for i in range(N - 2):
    phc.add_layer(d=D[i], eps_b=SYM('eb%d' % i))
x.phc = phc
z = SYM('z')
zs = [0]
for i in range(N - 2):
    zs.append(zs[i] + D[i])
if LAYER == 0:
    org, z = 0, -SYM('dz')
elif LAYER == N - 1:
    org, z = zs[N - 2], zs[N - 2] + SYM('dz')
else:
    org, z = (zs[LAYER - 1] + zs[LAYER]) / 2, zs[LAYER - 1] + SYM('dz')
om = 2 * np.pi * x._freqs[1, 2]
Vec = x._eigvecs[1][:, 2]

def field(kind):
    # cartesian components at every reciprocal vector
    tot = [[0, 0, 0] for _ in range(3)]
    count = 0
    for m in INDS:
        pol, ind, oms, A, B, c = mode(m)
        for k in range(len(sets[m])):
            g = SETS[m][k]
            p = (px[g], py[g])
            q = (py[g], -px[g])
            chi = c[LAYER, k]
            for s, a in ((1, A), (-1, B)):
                if s == 1 and LAYER == 0 or s == -1 and LAYER == N - 1:
                    continue
                w = Vec[count + k] * a[LAYER, k] * np.exp(s * 1j * chi * (z - org)) / np.sqrt(AREA)
                if kind == 'h':
                    f = (-s * 1j * chi, 0, 1j * gk[g]) if pol == 0 else (0, 1, 0)
                else:
                    f = curl(pol, LAYER, s, oms[k], chi, gk[g])
                    f = [-1j / om * t for t in f]
                tot[g][0] = tot[g][0] + w * (f[0] * p[0] + f[1] * q[0])
                tot[g][1] = tot[g][1] + w * (f[0] * p[1] + f[1] * q[1])
                tot[g][2] = tot[g][2] + w * f[2]
        count = count + len(sets[m])
    return tot
AREA = lat.ec_area
got = x.ft_field_xy(FIELD, 1, 2, z)
if FIELD == 'E':
    d = field('d')
    w = [[sum(M[LAYER][i, j] * d[j][k] for j in range(3)) for k in range(3)] for i in range(3)]
else:
    w = field(FIELD.lower())
"""
READ = """
got%d = got[%d]
want%d = np.array([w[0][%d], w[1][%d], w[2][%d]])
"""
PWE = """import legume
import numpy as np
SYM = __SYM__
class Exp(legume.PlaneWaveExp):
    def __init__(self):
        pass
x = Exp()
x.layer = legume.ShapesLayer(legume.Lattice('square'), 0, 1)
x.pol = POL
G = x._gvec = SYM('G', 'array')
K = x._kpoints = SYM('K', 'array')
x._freqs = SYM('F', 'array')
V = [SYM('V0', 'array'), SYM('V1', 'array')]
x._eigvecs = V
W = x.eps_inv_mat = SYM('W', 'array')
got = x.ft_field_xy(FIELD, 1, 2)
om = 2 * np.pi * x._freqs[1, 2]
gx, gy = G[0] + K[0, 1], G[1] + K[1, 1]
gk = np.sqrt(gx**2 + gy**2)
v, zero = V[1][:, 2], 0 * gx
qx, qy = gy / gk, -gx / gk
# H along z (te) or along q (tm);  D = (g x H) / omega;  E = W D
h = (zero, zero, v) if POL == 'te' else (qx * v, qy * v, zero)
d = (gy * h[2] / om, -gx * h[2] / om, (gx * h[1] - gy * h[0]) / om)
w = h if FIELD.lower() == 'h' else d
if FIELD.lower() == 'e':
    w = [W.dot(t) for t in d]
want0, want1, want2 = w
got0, got1, got2 = got
"""


def clients(tier):
    c = {}
    for f in "HDEde":
        for pol in ("te", "tm"):
            c["pwe_%s_%s" % (f, pol)] = "POL = %r\nFIELD = %r\n" % (pol, f) + PWE
    for f in "HDE":
        for n, inds in ((3, [0, 1]), (4, [0, 1, 2, 3])):
            for lay in range(n):
                c["field%s_%d_%d" % (f, lay, n)] = (
                    "NLAY = %d\nINDS = %r\nSETS = %r\nLAYER = %d\nFIELD = %r\n" % (
                        n, inds, p11.SETS, lay, f)
                    + p11.HEAD + THICK + p11.SPEC + p11.MODES + SPEC
                    + "".join(READ % ((k,) * 6) for k in range(3)))
    return c


def decl(name):
    if name.startswith("pwe"):
        d = {"G": {"shape": (2, 3)}, "K": {"shape": (2, "nk")}, "F": {"shape": ("nk", "ne")},
             "W": {"shape": (3, 3), "real": False}}
        for v in ("V0", "V1"):
            d[v] = {"shape": (3, "ne"), "real": False}
        return d
    d = p11.decl("asm_x_" + name.split("_")[2])
    d["F"] = {"shape": ("nk", "ne")}
    for v in ("dz", "dw", "t0", "t1"):
        d[v] = {"positive": True}
    for v in ("V0", "V1"):
        d[v] = {"shape": ("nb", "ne"), "real": False}
    return d


def analyse(name, I, st, res):
    if st is None:
        return
    A = Alg(I, st, decl(name))
    A.generic = True
    if name.startswith("field"):
        A.positive.add(list(A.elatom("dz", (), True))[0][0][0][0])
    val = lambda nm: client_val(I, st, nm)
    con = "PlaneWaveExp.ft_field_xy" if name.startswith("pwe") else "ft_field_xy"
    for k, comp in enumerate("xyz"):
        check_equal(A, res, "maxwell-field", con, val("got%d" % k), val("want%d" % k),
                    "%s_%s at the reciprocal vectors (%s)" % (name[5 if con[0] == 'f' else 4].upper(), comp, name))
