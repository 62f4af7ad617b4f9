"""P25: figures show the stored results."""
import re

from sa.alg import Alg, Unk
from sa.nf import TooBig
from sa.spec import check_equal, near_site, verdict
from sa.util import client_val

EXPLANATION = (
    "Every plotting function is analysed with stand-in axes that keep what is drawn, for symbolic stored results, grids "
    "and options.  What is drawn (points, colours, shaded regions, images, extents, limits, outlines, contours) is "
    "compared by normal forms with what the stored results say; points are compared as sets.")
RULE = "normal form of what is drawn equals the normal form of the stored result"
ASSUMPTIONS = ["matplotlib draws what its axes methods are given",
               "numbers of wave vectors, bands and grid points are enumerated, their values are symbolic"]
REQUIRED = {"obligations": 1}

PRE = """import legume
import numpy as np
import legume.viz as viz
from legume.utils import from_freq_to_e
SYM = __SYM__
class Image(object):
    def __init__(self):
        self.lim = []
    def set_clim(self, vmin=None, vmax=None):
        self.lim = [vmin, vmax]
class Ax(object):
    def __init__(self):
        self.curves, self.fills, self.images, self.clouds, self.kws, self.lims, self.titles = [], [], [], [], [], {}, []
        self.contours, self.lines = [], []
    def scatter(self, x, y, s=None, c=None, **kw):
        self.clouds = self.clouds + [(x, y, c)]
        self.kws = self.kws + [kw]
        return Image()
    def plot(self, x, y, *args, **kw):
        self.curves = self.curves + [(x, y)]
        return []
    def fill_between(self, x, y1, y2=0, **kw):
        self.fills = self.fills + [(x, y1, y2)]
    def imshow(self, Z, cmap=None, origin=None, extent=None, vmin=None, vmax=None, **kw):
        im = Image()
        im.lim = [vmin, vmax]
        self.images = self.images + [(Z if origin == 'lower' else Z[::-1], extent, im)]
        return im
    def contour(self, x, y, Z, *args, **kw):
        self.contours = self.contours + [(x, y, Z, args)]
    def hlines(self, y, xmin, xmax, **kw):
        self.lines = self.lines + [(y, xmin, xmax)]
    def set_xlim(self, left=None, right=None):
        self.lims['x'] = (left, right) if right is not None else left
    def set_ylim(self, bottom=None, top=None):
        self.lims['y'] = (bottom, top) if top is not None else bottom
    def set_title(self, t, **kw):
        self.titles = self.titles + [t]
    def set_xlabel(self, t, **kw):
        pass
    def set_ylabel(self, t, **kw):
        self.label = t
    def set_aspect(self, t, **kw):
        pass
class Norm(object):
    def __init__(self, vmin=None, vmax=None, **kw):
        self.lim = [vmin, vmax]
class Colors(object):
    LogNorm = Norm
class Mpl(object):
    colors = Colors
class Fig(object):
    def __init__(self, axs):
        self.axs = axs
    def colorbar(self, *args, **kw):
        pass
class Plt(object):
    clouds, curves = [], []
    def colorbar(self, *args, **kw):
        pass
    def plot(self, x, y, *args, **kw):
        self.curves = self.curves + [(x, y)]
        return []
    def get_cmap(self, name, *args):
        return lambda v: ('colours', name, v)
    def subplots(self, n=1, m=1, **kw):
        self.n = n * m
        self.axs = [Ax() for i in range(n * m)]
        return Fig(self.axs), self.axs[0] if n * m == 1 else self.axs
plt = Plt()
viz.plt, viz.mpl = plt, Mpl
def flat(a):
    return np.array(a).flatten()
def points(ax):
    out = []
    for x, y, c in ax.clouds:
        x, y = flat(x), flat(y)
        cs = flat(c) if c is not None else [0] * len(x)
        out = out + [(x[i], y[i], cs[i]) for i in range(len(x))]
    for x, y in ax.curves:
        x, y = flat(x), flat(y)
        out = out + [(x[i], y[i], 0) for i in range(len(x))]
    return out
got, want = np.array([0]), np.array([0])
"""
BANDS = """
class G(BASE):
    freqs, freqs_im, kz_symms, kz_symmetry, kpoints, phc, claddings = [None] * 7
    def __init__(self):
        pass
    ran = 0
    def run_im(self):
        self.ran = 1
        self.freqs_im = SYM('fi', 'array')
class Clad(object):
    def __init__(self, e):
        self.eps_avg = e
class Phc(object):
    def __init__(self):
        self.claddings = [Clad(SYM('e0')), Clad(SYM('e1'))]
x = G()
x.phc = Phc()
x.freqs, x.kz_symms, x.kz_symmetry, x.kpoints = SYM('f', 'array'), SYM('sg', 'array'), SYMM, SYM('kp', 'array')
x.freqs_im = [] if LATE else SYM('fi', 'array')
ax = Ax()
r = viz.bands(x, Q=QQ, cone=CONE, ax=ax, show_symmetry=SHOW, eV=EV, a=SYM('a') if EV else None, k_units=KU)
conv = from_freq_to_e(SYM('a')) if EV else 1
f, fi, kp, sg = SYM('f', 'array'), SYM('fi', 'array'), SYM('kp', 'array'), SYM('sg', 'array')
if KU:
    d = [np.sqrt((kp[0, i + 1] - kp[0, i])**2 + (kp[1, i + 1] - kp[1, i])**2) for i in range(K - 1)]
    xs = [sum(d[:i]) / sum(d) for i in range(K)]
else:
    xs = [i for i in range(K)]
both = SYMM is not None and SYMM.lower() == 'both' and SHOW
want = np.array([[xs[i], conv * f[i, j]] for i in range(K) for j in range(N)])
P = points(ax)
got = np.array([[p[0], p[1]] for p in P])
gotc, wantc = np.array([0]), np.array([0])
if QQ or both:
    gotc = np.array([[p[0], p[1], p[2]] for p in P])
    wantc = np.array([[xs[i], conv * f[i, j], f[i, j] / 2 / (fi[i, j] + 1e-16) if QQ else sg[i, j]] for i in range(K) for j in range(N)])
gotn, wantn = np.array([len(P), len(ax.fills)]), np.array([K * N, 1 if CONE else 0])
gotf, wantf = np.array([0]), np.array([0])
if CONE and len(ax.fills):
    fx, y1, y2 = ax.fills[0]
    gotf = np.array([[fx[i], y1[i]] for i in range(K)])
    wantf = np.array([[xs[i], conv * np.sqrt(kp[0, i]**2 + kp[1, i]**2) / 2 / np.pi / np.sqrt(max([SYM('e0'), SYM('e1')]))] for i in range(K)])
lx, ly = ax.lims['x'], ax.lims['y']
if LATE:
    gotm, wantm = np.array([x.ran]), np.array([1])
gotl, wantl = np.array([lx[0], lx[1], ly[0], ly[1]]), np.array([0, max(xs), 0, conv * f.max()])
gote, wante = np.array([0]), np.array([0])
if QQ and both:
    ec = ax.kws[0]['edgecolors']
    if ec[0] == 'colours' and ec[1] == 'bwr':
        es = flat(ec[2])
        gote = np.array([[P[i][0], P[i][1], es[i]] for i in range(K * N)])
        wante = np.array([[xs[i], conv * f[i, j], (1 + sg[i, j]) / 2] for i in range(K) for j in range(N)])
"""
CLIP = """
class G(legume.GuidedModeExp):
    freqs, freqs_im, kz_symms, kz_symmetry, kpoints = [None] * 5
    def __init__(self):
        pass
x = G()
x.freqs, x.freqs_im = np.array([[0.25, 0.5], [0.375, 0.625]]), np.array(FI)
x.kz_symms, x.kz_symmetry, x.kpoints = np.array([[1, -1], [1, -1]]), SYMM, np.array([[0., 1.], [0., 0.]])
ax = Ax()
viz.bands(x, Q=True, Q_clip=1000, cone=False, ax=ax, show_symmetry=SHOW)
gotv, wantv = np.array([ax.kws[0]['norm'].lim[1]]), np.array([WANT])
"""
POL = """
class G(legume.HopfieldPol):
    eners, eners_im, fractions_ex, fractions_ph, kpoints, gme, a = [None] * 7
    def __init__(self):
        pass
class Clad(object):
    def __init__(self, e):
        self.eps_avg = e
class Phc(object):
    def __init__(self):
        self.claddings = [Clad(SYM('e0')), Clad(SYM('e1'))]
class Gme(object):
    def __init__(self):
        self.phc = Phc()
x = G()
x.a, x.kpoints, x.eners, x.eners_im = SYM('a'), SYM('kp', 'array'), SYM('f', 'array'), SYM('fi', 'array')
x.fractions_ex, x.fractions_ph, x.gme = SYM('fr', 'array'), SYM('fp', 'array'), Gme()
ax = Ax()
viz.pol_bands(x, Q=QQ, fraction=FRAC, cone=CONE, ax=ax, k_units=KU)
f, fi, kp, sg = SYM('f', 'array'), SYM('fi', 'array'), SYM('kp', 'array'), SYM('sg', 'array')
if KU:
    d = [np.sqrt((kp[0, i + 1] - kp[0, i])**2 + (kp[1, i + 1] - kp[1, i])**2) for i in range(K - 1)]
    xs = [sum(d[:i]) / sum(d) for i in range(K)]
else:
    xs = [i for i in range(K)]
P = points(ax)
got, want = np.array([[p[0], p[1]] for p in P]), np.array([[xs[i], f[i, j]] for i in range(K) for j in range(N)])
gotn, wantn = np.array([len(P), len(ax.fills)]), np.array([K * N, 1 if CONE else 0])
gotc, wantc = np.array([0]), np.array([0])
if FRAC or QQ:
    gotc = np.array([[p[0], p[1], p[2]] for p in P])
    wantc = np.array([[xs[i], f[i, j], SYM('fr', 'array')[i, j] if FRAC else f[i, j] / 2 / (fi[i, j] + 1e-16)] for i in range(K) for j in range(N)])
gotf, wantf = np.array([0]), np.array([0])
if CONE and len(ax.fills):
    fx, y1, y2 = ax.fills[0]
    gotf = np.array([[fx[i], y1[i]] for i in range(K)])
    wantf = np.array([[xs[i], from_freq_to_e(SYM('a')) * np.sqrt(kp[0, i]**2 + kp[1, i]**2) / 2 / np.pi / np.sqrt(max([SYM('e0'), SYM('e1')]))] for i in range(K)])
lx, ly = ax.lims['x'], ax.lims['y']
gotl, wantl = np.array([lx[0], lx[1], ly[0], ly[1]]), np.array([0, max(xs), 0, f.max()])
"""
CUT = """
class Lattice(object):
    def xy_grid(self, Nx=100, Ny=100, **kw):
        self.n = getattr(self, 'n', []) + [(Nx, Ny)]
        return SYM('gx', 'array'), SYM('gy', 'array')
lat = Lattice()
def law(p):
    return 1 + 2 * p[0] + 3 * p[0] * p[1]**2 + (5 * p[2] + 7 * p[2]**2 * p[0] + 11 * p[1] * p[2] if len(p) > 2 else 0)
class Struct(object):
    lattice = lat
    def get_eps(self, p):
        return law(p)
    def z_grid(self, Nz=100, **kw):
        self.nz = Nz
        return SYM('gz', 'array')
s, ax = Struct(), Ax()
gx, gy, gz, c = SYM('gx', 'array'), SYM('gy', 'array'), SYM('gz', 'array'), SYM('c')
U, V = {'eps': (gx, gy), 'xy': (gx, gy), 'xz': (gx, gz), 'yz': (gy, gz)}[CUT]
def at(u, v):
    return {'eps': (u, v), 'xy': (u, v, c), 'xz': (u, c, v), 'yz': (c, u, v)}[CUT]
nx, ny = SYM('nx'), SYM('ny')
if CUT == 'eps':
    r = None
    viz.eps(s, Nx=nx, Ny=ny, ax=ax, clim=[SYM('lo'), SYM('hi')] if CLIM else None, cbar=CLIM)
elif CUT == 'xy':
    r = viz.eps_xy(s, z=c, Nx=nx, Ny=ny, ax=ax, clim=[SYM('lo'), SYM('hi')] if CLIM else None, plot=PLOT)
elif CUT == 'xz':
    r = viz.eps_xz(s, y=c, Nx=nx, Nz=ny, ax=ax, clim=[SYM('lo'), SYM('hi')] if CLIM else None, plot=PLOT)
else:
    r = viz.eps_yz(s, x=c, Ny=nx, Nz=ny, ax=ax, clim=[SYM('lo'), SYM('hi')] if CLIM else None, plot=PLOT)
want = np.array([[law(at(U[i], V[j])) for i in range(len(U))] for j in range(len(V))])
got = want if r is None else r
gotn, wantn = np.array([len(ax.images)]), np.array([1 if PLOT or CUT == 'eps' else 0])
m = lat.n[0]
gotc, wantc = np.array([m[0] if CUT in ('eps', 'xy', 'xz') else s.nz, m[1] if CUT in ('eps', 'xy', 'yz') else s.nz]), np.array([nx, ny])
if CUT == 'yz':
    gotc, wantc = np.array([m[1], s.nz]), np.array([nx, ny])
gotf, wantf, gotl, wantl, gote, wante = [np.array([0])] * 6
if len(ax.images):
    Z, ext, im = ax.images[0]
    gotf, wantf = Z, want
    gotl, wantl = np.array(ext), np.array([U[0], U[-1], V[0], V[-1]])
    if CLIM:
        gote, wante = np.array(im.lim), np.array([SYM('lo'), SYM('hi')])
"""
SHAPES = """
from legume import Circle, Ellipse, Square, Poly, Hexagon, FourierShape, ShapesLayer
lat = legume.Lattice((SYM('a0'), 0), (SYM('b0'), SYM('b1')))
lay = ShapesLayer(lat, eps_b=1)
x0, y0, ph, r, q = SYM('x0'), SYM('y0'), SYM('ph'), SYM('r'), SYM('q')
if KIND == 'circle':
    sh = Circle(eps=2, x_cent=x0, y_cent=y0, r=r)
elif KIND == 'ellipse':
    sh = Ellipse(eps=2, x_cent=x0, y_cent=y0, rx=r, ry=q, phi=ph)
else:
    sh = Poly(eps=2, x_edges=[0, SYM('u'), 0], y_edges=[0, 0, SYM('v')])
if MANY:
    lay.shapes.append(Circle(eps=3, x_cent=SYM('x1'), y_cent=SYM('y1'), r=SYM('r1')))
lay.shapes.append(sh)
ax = Ax()
viz.shapes(lay, ax=ax, npts=NP, pad=PAD)
shift = [(0, 0)] + ([(SYM('a0'), 0), (-SYM('a0'), 0), (SYM('b0'), SYM('b1')), (-SYM('b0'), -SYM('b1'))] if PAD else [])
n = len(shift)
P = [(flat(p[0]), flat(p[1])) for p in ax.curves]
def on(kind, p, s, k):
    X, Y = p[0][k] - s[0], p[1][k] - s[1]
    if kind == 'first':
        return [((X - SYM('x1'))**2 + (Y - SYM('y1'))**2) / SYM('r1')**2]
    if kind == 'circle':
        return [((X - x0)**2 + (Y - y0)**2) / r**2]
    if kind == 'ellipse':
        c, d = np.cos(ph), np.sin(ph)
        return [((X - x0) * c + (Y - y0) * d)**2 / r**2 + (-(X - x0) * d + (Y - y0) * c)**2 / q**2]
    U, V = [0, SYM('u'), 0, 0], [0, 0, SYM('v'), 0]
    return [X - U[k] + 1, Y - V[k] + 1]
S = lay.shapes
order = (['first'] if MANY else []) + [KIND]
gotn, wantn = np.array([len(P)] + [len(p[0]) for p in P]), np.array([n * len(order)] + [4 if o == 'poly' else NP for o in order for i in range(n)])
if len(P) == n * len(order) and len(P[-1][0]) == (4 if KIND == 'poly' else NP):
    got = np.array([v for i in range(len(P)) for k in range(NP if order[i // n] != 'poly' else 4) for v in on(order[i // n], P[i], shift[i % n], k)])
    want = np.array([1 for i in range(len(P)) for k in range(NP if order[i // n] != 'poly' else 4) for v in on(order[i // n], P[i], shift[i % n], k)])
    if KIND != 'poly':
        j = len(P) - n
        gotc, wantc = np.array([P[j][0][0], P[j][1][0]]), np.array([P[j][0][-1], P[j][1][-1]])      # closed
gx, gy = lat.xy_grid(Nx=2, Ny=2)
lx, ly = ax.lims['x'], ax.lims['y']
gotl, wantl = np.array([lx[0], lx[1], ly[0], ly[1]]), np.array([gx[0], gx[1], gy[0], gy[1]])
"""
FIELD = """
class Phc(object):
    def get_eps(self, p):
        return law(p)
def law(p):
    u = 1 + 2 * p[0] + 3 * p[0] * p[1]**2
    return u if BASE is legume.PlaneWaveExp else u + 5 * p[2] + 7 * p[2]**2 * p[0] + 11 * p[1] * p[2]
asked = []
def given(where, g1, g2, field, kind, mind, pos, component, n1, n2):
    asked.append((where, field, kind, mind, pos, component, n1, n2))
    return {q: SYM('F' + q, 'array') for q in component}, g1, g2
class G(BASE):
    freqs, freqs_im, kz_symmetry, kpoints, phc, layer = [None] * 6
    def __init__(self):
        pass
    def get_field_xy(self, field, kind, mind, z=0, component='xyz', Nx=100, Ny=100):
        return given('xy', SYM('ga', 'array'), SYM('gb', 'array'), field, kind, mind, z, component, Nx, Ny)
    def get_field_xz(self, field, kind, mind, y, component='xyz', Nx=100, Nz=100):
        return given('xz', SYM('ga', 'array'), SYM('gb', 'array'), field, kind, mind, y, component, Nx, Nz)
    def get_field_yz(self, field, kind, mind, x, component='xyz', Ny=100, Nz=100):
        return given('yz', SYM('ga', 'array'), SYM('gb', 'array'), field, kind, mind, x, component, Ny, Nz)
x = G()
x.phc, x.layer = Phc(), Phc()
x.freqs, x.freqs_im, x.kpoints = SYM('f', 'array'), SYM('fi', 'array'), SYM('kp', 'array')
pwe = BASE is legume.PlaneWaveExp
p = SYM('p')
pos = {'xy': {} if pwe else {'z': p}, 'xz': {'y': p}, 'yz': {'x': p}}[CUT]
fig = viz.field(x, FIELD, KIND, MIND, periodic=PER, component=COMP, val=VAL, N1=SYM('na'), N2=SYM('nb'), eps=EPS, cbar=False, **pos)
axs = plt.axs
gotn, wantn = np.array([len(asked), len(axs)] + [len(a.images) for a in axs] + [len(a.contours) for a in axs]), np.array(
    [1, len(COMP)] + [1] * len(COMP) + [1 if EPS else 0] * len(COMP))
w = asked[0]
gotc, wantc = np.array([w[2], w[3], 0 if w[4] is None else w[4], w[6], w[7]]), np.array([KIND, MIND, 0 if pwe else p, SYM('na'), SYM('nb')])
gotm = np.array([(w[0] == CUT) * 1, (w[1].lower() == FIELD.lower()) * 1])
wantm = np.array([1, 1])
ga, gb, kp = SYM('ga', 'array'), SYM('gb', 'array'), SYM('kp', 'array')
def where(a, b):
    return {'xy': (a, b, p), 'xz': (a, p, b), 'yz': (p, a, b)}[CUT]
Z, L, V, C = [], [], [], []
gotZ, gotL, gotV, gotC, gotG = [], [], [], [], []
for i in range(len(COMP)):
    F = SYM('F' + COMP.lower()[i], 'array')
    if not PER:
        F = np.array([[F[b, a] * np.exp(1j * (kp[0, KIND] * where(ga[a], gb[b])[0] + kp[1, KIND] * where(ga[a], gb[b])[1])) for a in range(3)] for b in range(2)])
    M = {'re': np.real(F), 'im': np.imag(F), 'abs': np.abs(F)}[VAL.lower()]
    Z.append(M)
    top = np.abs(M).max() if VAL.lower() != 'abs' else M.max()
    V = V + [0 if VAL.lower() == 'abs' else -top, top]
    L = L + [ga[0], ga[-1], gb[0], gb[-1]]
    D, ext, im = axs[i].images[0]
    gotZ.append(D)
    gotL, gotV = gotL + list(ext), gotV + im.lim
    if EPS:
        cx, cy, cz, rest = axs[i].contours[0]
        gotC.append(cz)
        C.append(np.array([[law((ga[a], gb[b]) if pwe else where(ga[a], gb[b])) for a in range(3)] for b in range(2)]))
        gotG = gotG + [cx[j] for j in range(3)] + [cy[j] for j in range(2)]
got, want = np.array(gotZ), np.array(Z)
gotl, wantl = np.array(gotL), np.array(L)
gotv, wantv = np.array(gotV), np.array(V)
gotf, wantf = np.array(gotC), np.array(C)
title = axs[0].titles[-1]
shownf, shownQ = SYM('f', 'array')[KIND, MIND], SYM('f', 'array')[KIND, MIND] / 2 / SYM('fi', 'array')[KIND, MIND]
gote, wante = np.array(gotG), np.array([q for i in range(len(COMP)) for q in [ga[0], ga[1], ga[2], gb[0], gb[1]]] if EPS else [])
"""
WAVEF = """
asked = []
class G(legume.ExcitonSchroedEq):
    eners = None
    def __init__(self):
        pass
    def get_wavef_xy(self, kind, mind, Nx=100, Ny=100):
        asked.append((kind, mind, Nx, Ny))
        return SYM('Fx', 'array'), SYM('ga', 'array'), SYM('gb', 'array')
x = G()
x.eners = SYM('f', 'array')
viz.wavef(x, 1, 0, val=VAL, N1=SYM('na'), N2=SYM('nb'), cbar=False)
ax = plt.axs[0]
F, ga, gb = SYM('Fx', 'array'), SYM('ga', 'array'), SYM('gb', 'array')
gotc, wantc = np.array(asked[0]), np.array([1, 0, SYM('na'), SYM('nb')])
title, shownE = ax.titles[-1], SYM('f', 'array')[1, 0]
got, ext, im = ax.images[0]
want = {'re': np.real(F), 'im': np.imag(F), 'abs2': np.abs(F)**2}[VAL.lower()]
gotl, wantl = np.array(ext), np.array([ga[0], ga[-1], gb[0], gb[-1]])
top = np.abs(want).max() if VAL.lower() != 'abs2' else want.max()
gotv, wantv = np.array(im.lim), np.array([0 if VAL.lower() == 'abs2' else -top, top])
"""
RECIP = """
class G(object):
    gvec = SYM('kp', 'array')
viz.reciprocal(G())
ax = plt.axs[0]
P = points(ax) + points(plt)
got, want = np.array([[p[0], p[1]] for p in P]), np.array([[SYM('kp', 'array')[0, i], SYM('kp', 'array')[1, i]] for i in range(3)])
"""
FT = """
class Lattice(object):
    def xy_grid(self, Nx=100, Ny=100, **kw):
        return SYM('ga', 'array'), SYM('gb', 'array')
class Layer(object):
    lattice = Lattice()
    def __init__(self, k):
        self.eps_b, self.z_mid, self.z_min, self.z_max = SYM('b%d' % k), SYM('z%d' % k), SYM('z%d' % k) - SYM('h'), SYM('z%d' % k) + SYM('h')
        self.eps_avg = self.eps_b
class Phc(object):
    claddings = [Layer(0), Layer(3)]
    layers = [Layer(1), Layer(2)]
asked = []
class G(BASE):
    phc, layer, V_shapes = None, None, None
    def __init__(self):
        pass
    def get_eps_xy(self, Nx=100, Ny=100, z=0):
        asked.append((z, Nx, Ny))
        return SYM('Fx', 'array') * (1 + z), SYM('ga', 'array'), SYM('gb', 'array')
    def get_pot_xy(self, Nx=100, Ny=100):
        asked.append((0, Nx, Ny))
        return SYM('Fx', 'array'), SYM('ga', 'array'), SYM('gb', 'array')
class Figure(object):
    def __init__(self):
        self.axs = []
    def add_subplot(self, *args, **kw):
        a = Ax()
        self.axs = self.axs + [a]
        return a
class Grid(object):
    def __getitem__(self, k):
        return k
made = []
class Gs(object):
    def GridSpec(self, *args, **kw):
        return Grid()
    def GridSpecFromSubplotSpec(self, *args, **kw):
        return Grid()
def figure(**kw):
    f = Figure()
    made.append(f)
    return f
viz.mpl = Gs()
viz.mpl.gridspec = Gs()
plt.figure = figure
x = G()
x.phc, x.layer, x.V_shapes = Phc(), Layer(4), SYM('V')
F, ga, gb = SYM('Fx', 'array'), SYM('ga', 'array'), SYM('gb', 'array')
if WHAT == 'pot':
    viz.pot_ft(x, Nx=SYM('na'), Ny=SYM('nb'), cbar=False)
    zs = [0]
elif WHAT == 'pwe':
    viz.eps_ft(x, Nx=SYM('na'), Ny=SYM('nb'), cbar=False)
    zs = [SYM('z4')]
else:
    viz.eps_ft(x, Nx=SYM('na'), Ny=SYM('nb'), cladding=CLAD, cbar=CBAR)
    zs = [SYM('z%d' % k) for k in (range(4) if CLAD else (1, 2))]
axs = [a for a in made[0].axs if len(a.images)]
gotn, wantn = np.array([len(axs), len(asked)]), np.array([len(zs), len(zs)])
if len(axs) == len(zs):
    got, want = np.array([a.images[0][0] for a in axs]), np.array([np.real(F * (1 + z)) for z in zs])
    gotl, wantl = np.array([a.images[0][1] for a in axs]), np.array([[ga[0], ga[-1], gb[0], gb[-1]] for z in zs])
    gotc, wantc = np.array([q[1:] for q in asked]), np.array([[SYM('na'), SYM('nb')] for z in zs])
    lims = [a.images[0][2].lim for a in axs]
    gotm, wantm = np.array([len([v for v in q if v is not None]) for q in lims]), np.array([2 for z in zs])
    # one colour scale for all images
    D = [v for a in axs for v in flat(a.images[0][0])] + [SYM('b%d' % (4 if WHAT == 'pwe' else 0 if CLAD else 1))]
    scale = [0, np.abs(SYM('V'))] if WHAT == 'pot' else [np.array(D).min(), np.array(D).max()]
    gotv, wantv = np.array(lims), np.array([scale for z in zs])
    if not CLAD:
        gott = np.array([(axs[i].titles[-1] == 'xy in layer %d' % i) * 1 for i in range(len(axs))]) if WHAT == 'gme' else np.array([1])
        wantt = np.array([1] * (len(axs) if WHAT == 'gme' else 1))
    else:
        names = ['xy in lower cladding', 'xy in layer 1', 'xy in layer 2', 'xy in upper cladding']
        gott, wantt = np.array([(axs[i].titles[-1] == names[i]) * 1 for i in range(4)]), np.array([1] * 4)
"""
STRUCT = """
class Lattice(object):
    def xy_grid(self, Nx=100, Ny=100, **kw):
        return SYM('ga', 'array'), SYM('gb', 'array')
class Layer(object):
    lattice = Lattice()
    def __init__(self, k):
        self.z_min, self.z_max = SYM('lo%d' % k), SYM('hi%d' % k)
class Well(object):
    def __init__(self, k):
        self.z = SYM('w%d' % k)
def law(p):
    return 1 + 2 * p[0] + 3 * p[0] * p[1]**2 + 5 * p[2] + 7 * p[2]**2 * p[0] + 11 * p[1] * p[2]
class Phc(legume.PhotCryst):
    lattice, claddings, layers, qws = Lattice(), [Layer(0), Layer(3)], [Layer(1), Layer(2)], [Well(0), Well(1)]
    def __init__(self):
        pass
    def get_eps(self, p):
        return law(p)
    def z_grid(self, Nz=100, **kw):
        return SYM('gz', 'array')
    def get_eps_bounds(self):
        return SYM('emin'), SYM('emax')
class Gme(legume.GuidedModeExp):
    phc = None
    def __init__(self):
        self.phc = Phc()
class Pol(legume.HopfieldPol):
    gme, exc_list = None, None
    def __init__(self):
        self.gme, self.exc_list = Gme(), [Well(0), Well(1)]
class Figure(object):
    def __init__(self):
        self.axs = []
    def add_subplot(self, *args, **kw):
        a = Ax()
        self.axs = self.axs + [a]
        return a
class Grid(object):
    def __getitem__(self, k):
        return k
made = []
class Gs(object):
    def GridSpec(self, *args, **kw):
        return Grid()
    def GridSpecFromSubplotSpec(self, *args, **kw):
        return Grid()
def figure(**kw):
    f = Figure()
    made.append(f)
    return f
viz.mpl = Gs()
viz.mpl.gridspec = Gs()
plt.figure = figure
x = {'phc': Phc, 'gme': Gme, 'pol': Pol}[WHAT]()
viz.structure(x, Nx=SYM('na'), Ny=SYM('nb'), Nz=SYM('nc'), cladding=CLAD, cbar=CBAR, xy=XY, xz=XZ, yz=YZ)
gx, gy, gz = SYM('ga', 'array'), SYM('gb', 'array'), SYM('gz', 'array')
axs = [a for a in made[0].axs if len(a.images)]
def plane(kind, c):
    U, V = {'xy': (gx, gy), 'xz': (gx, gz), 'yz': (gy, gz)}[kind]
    at = lambda u, v: {'xy': (u, v, c), 'xz': (u, c, v), 'yz': (c, u, v)}[kind]
    return [[law(at(U[i], V[j])) for i in range(len(U))] for j in range(len(V))], [U[0], U[-1], V[0], V[-1]]
P, T, W = [], [], []
if XZ:
    P.append(plane('xz', 0))
    T.append('xz at y = 0')
    W.append((gx[0], gx[1]))
if YZ:
    P.append(plane('yz', 0))
    T.append('yz at x = 0')
    W.append((gy[0], gy[1]))
if XY:
    for k in (range(4) if CLAD else (1, 2)):
        P.append(plane('xy', (SYM('lo%d' % k) + SYM('hi%d' % k)) / 2))
        T.append('xy in lower cladding' if k == 0 else 'xy in upper cladding' if k == 3 else 'xy in layer %d' % (k if CLAD else k - 1))
        W.append(None)
gotn, wantn = np.array([len(axs)]), np.array([len(P)])
G, E, L, N, H, HW = [], [], [], [], [], []
if len(axs) == len(P):
    for i in range(len(P)):
        Z, ext, im = axs[i].images[0]
        G = G + [v for v in flat(Z)]
        E = E + [v for v in flat(P[i][0])]
        L = L + list(ext) + im.lim
        N = N + P[i][1] + [SYM('emin'), SYM('emax')]
        H = H + [len(axs[i].lines)] + [v for q in axs[i].lines for v in q]
        if W[i] is None or WHAT == 'gme':
            HW = HW + [0]
        else:
            HW = HW + [2] + [v for q in range(2) for v in (SYM('w%d' % q), W[i][0], W[i][1])]
    got, want, gotl, wantl, gotc, wantc = [np.array(q) for q in (G, E, L, N, H, HW)]
    gott, wantt = np.array([(axs[i].titles[-1] == T[i]) * 1 for i in range(len(P))]), np.array([1] * len(P))
"""


def others():
    out = {}
    for i, (q, fr, cone, ku) in enumerate(((True, False, True, False), (False, True, True, True), (True, True, False, False),
                                           (False, False, True, False), (True, False, False, True))):
        out["pol_%d" % i] = PRE + "QQ, FRAC, CONE, KU, K, N = %r, %r, %r, %r, 3, 2\n" % (q, fr, cone, ku) + POL
    for cut in ("eps", "xy", "xz", "yz"):
        for clim, plot in ((False, True), (True, True), (False, False)):
            if cut != "eps" or plot:
                out["cut_%s_%d%d" % (cut, clim, plot)] = PRE + "CUT, CLIM, PLOT = %r, %r, %r\n" % (cut, clim, plot) + CUT
    for kind in ("circle", "ellipse", "poly"):
        for many in (False, True):
            for pad in (False, True):
                out["shapes_%s_%d%d" % (kind, many, pad)] = PRE + "KIND, MANY, PAD, NP = %r, %r, %r, 5\n" % (kind, many, pad) + SHAPES
    k = 0
    for base, cuts in (("legume.GuidedModeExp", ("xy", "xz", "yz")), ("legume.PlaneWaveExp", ("xy",))):
        for cut in cuts:
            for v in ("re", "IM", "abs"):
                for per in (False, True):
                    k += 1
                    out["field_%s_%s_%s%d" % (base[7:10], cut, v, per)] = PRE + (
                        "BASE, CUT, VAL, PER, EPS, KIND, MIND, FIELD, COMP = %s, %r, %r, %r, %r, %d, %d, %r, %r\n" % (
                            base, cut, v, per, k % 3 > 0, k % 3, (k + 1) % 2, "hHEDe"[k % 5], ("xyz", "z", "yx", "XZ")[k % 4])) + FIELD
    for v in ("re", "Im", "abs2"):
        out["wavef_" + v] = PRE + "VAL = %r\n" % v + WAVEF
    out["reciprocal"] = PRE + RECIP
    for what, base in (("gme", "legume.GuidedModeExp"), ("pwe", "legume.PlaneWaveExp"), ("pot", "legume.ExcitonSchroedEq")):
        for clad in (False, True) if what == "gme" else (False,):
            out["ft_%s_%d" % (what, clad)] = PRE + "WHAT, BASE, CLAD, CBAR = %r, %s, %r, %r\n" % (what, base, clad, clad) + FT
    k = 0
    for what in ("phc", "gme", "pol"):
        for xy, xz, yz, clad in ((True, False, False, False), (True, True, True, True), (False, True, False, False), (True, False, True, False)):
            k += 1
            out["structure_%s_%d" % (what, k)] = PRE + "WHAT, XY, XZ, YZ, CLAD, CBAR = %r, %r, %r, %r, %r, %r\n" % (
                what, xy, xz, yz, clad, k % 2 == 0) + STRUCT
    return out


def bands(tier):
    out = {}
    k = 0
    for base in ("legume.GuidedModeExp", "legume.PlaneWaveExp"):
        for symm in (None, "odd", "both", "Both"):
            for q in (False, True):
                for show in (False, True):
                    for ev in (False, True):
                        k += 1
                        if "Plane" in base and symm is not None or show and symm in (None, "odd"):
                            continue
                        pw = "Plane" in base
                        head = "BASE, SYMM, QQ, SHOW, EV = %s, %r, %r, %r, %r\nCONE, KU, LATE, K, N = %r, %r, %r, %d, %d\n" % (
                            base, symm, q and not pw, show, ev, k % 3 > 0 and not pw, k % 4 in (0, 3), q and not pw and k % 5 < 2, 3, 2)
                        nm = "bands_%s_%s_%s%s%s" % ("pwe" if pw else "gme", symm, "Q" * (q and not pw), "S" * show, "E" * ev)
                        out[nm] = PRE + head + BANDS
    for symm, show in ((None, True), ("odd", False), ("both", True), ("both", False)):
        for nm, fi, want in (("part", [[0.25, 0.0625], [0., 1e-5]], 4.), ("none", [[0., 0.], [1e-6, 0.]], 1000)):
            out["bands_clip_%s_%s%s" % (nm, symm, "S" * show)] = PRE + "SYMM, SHOW, FI, WANT = %r, %r, %r, %r\n" % (symm, show, fi, want) + CLIP
    return out


def clients(tier):
    c = bands(tier)
    c.update(others())
    return c


def decl(name):
    d = {"a": {"positive": True}, "e0": {"positive": True}, "e1": {"positive": True}}
    if name.startswith("bands"):
        d.update({n: {"shape": (3, 2)} for n in ("f", "fi", "sg")})
        d["kp"] = {"shape": (2, 3)}
    elif name.startswith("pol"):
        d.update({n: {"shape": (3, 2)} for n in ("f", "fi", "fr", "fp")})
        d["kp"] = {"shape": (2, 3)}
    elif name.startswith("cut"):
        d.update({"gx": {"shape": (3,)}, "gy": {"shape": (2,)}, "gz": {"shape": (4,)}})
    elif name.split("_")[0] in ("field", "wavef", "ft", "reciprocal", "structure"):
        d.update({"F" + q: {"shape": (2, 3), "real": False} for q in "xyz"})
        d.update({"f": {"shape": (3, 2)}, "fi": {"shape": (3, 2)}, "kp": {"shape": (2, 3)},
                  "ga": {"shape": (3,)}, "gb": {"shape": (2,)}, "gz": {"shape": (2,)}})
    return d


def rows(A, v):
    sh = A.shape(v)
    if len(sh) != 2 or not all(isinstance(k, int) for k in sh):
        raise Unk("rows")
    return [[A.el(v, (A.num(i), A.num(j))) for j in range(sh[1])] for i in range(sh[0])]


def check_set(A, res, con, got, want, what):
    """the drawn points are the specified ones, in whatever order"""
    try:
        g, w = rows(A, got), rows(A, want)
    except (Unk, TooBig, ZeroDivisionError, RecursionError) as e:
        res.count("inconclusive")
        res.note("%s: not understood (%s)" % (what, e))
        return
    res.count("obligations", len(w))
    memo = {}

    def same(i, j):
        if (i, j) not in memo:
            rs = [verdict(A, p, q) for p, q in zip(g[i], w[j])]
            memo[i, j] = "different" if "different" in rs or len(g[i]) != len(w[j]) else \
                "equal" if all(r == "equal" for r in rs) else "unknown"
        return memo[i, j]
    left = list(range(len(g)))
    for j in range(len(w)):
        hit = [i for i in sorted(left, key=lambda i: i != j) if same(i, j) == "equal"][:1]
        if hit:
            left.remove(hit[0])
            res.count("proved")
            continue
        if all(same(i, j) == "different" for i in range(len(g))):
            res.find("drawn", con, "%s: nothing is drawn at %s; instead %s" % (
                what, [A.show(x, 4)[:120] for x in w[j]], [A.show(x, 4)[:120] for x in g[min(j, len(g) - 1)]] if g else "nothing"),
                near_site(got))
        else:
            res.count("inconclusive")
            res.note("%s: %s" % (what, [A.show(x, 3)[:80] for x in w[j]]))


def tokens(n):
    """text and values of a formatted string; choices contribute all their alternatives"""
    if n.op == "const":
        return [str(n.val)]
    if n.op == "add":
        return tokens(n.args[0]) + tokens(n.args[1])
    if n.op == "fstr":
        return [t for a in n.args for t in tokens(a)]
    if n.op == "phi":
        return tokens(n.args[1]) + tokens(n.args[2])
    if n.op == "mod" and n.args[0].op == "const" and isinstance(n.args[0].val, str):
        v = n.args[1]
        vs = list(v.args) if v.op in ("tuple", "seq") else [v]
        out = []
        for k, part in enumerate(re.split(r"%[-0-9.]*[a-zA-Z]", n.args[0].val)):
            out.append(part)
            if k < len(vs):
                out += tokens(vs[k])
        return out
    return [n]


def numbers(n):
    """numbers shown in a text, by the label in front of them"""
    out, text = [], ""
    for t in tokens(n):
        if isinstance(t, str):
            text += t
        else:
            m = re.search(r"(\w+) *= *$", text)
            if m:
                out.append((m.group(1), t))
            text = ""
    return out


CON = {"bands": "viz.bands", "pol": "viz.pol_bands", "cut": "viz.eps", "shapes": "viz.shapes",
       "field": "viz.field", "wavef": "viz.wavef", "ft": "viz.eps_ft", "structure": "viz.structure", "reciprocal": "viz.reciprocal"}


def analyse(name, I, st, res):
    if st is None:
        res.note("%s does not complete" % name)
        return
    A = Alg(I, st, decl(name))
    A.maxdim = 64
    val = lambda nm: client_val(I, st, nm)
    con = CON[name.split("_")[0]]
    shown = val("title")
    if shown is not None:
        for label, n in numbers(shown):
            if label in "fQE" and val("shown" + label) is not None:
                check_equal(A, res, "drawn", con, n, val("shown" + label), "%s, %s in the title" % (name, label), near_site(n))
    for t in ("", "n", "c", "f", "l", "e", "m", "v", "t"):
        g, w = val("got" + t), val("want" + t)
        if g is None or w is None:
            continue
        if t in ("", "c", "e") and con in ("viz.bands", "viz.pol_bands", "viz.reciprocal"):
            try:
                sets = len(A.shape(w)) == 2
            except (Unk, RecursionError):
                sets = False
            if sets:
                check_set(A, res, con, g, w, "%s %s" % (name, t))
                continue
        if t == "v" and name.startswith("bands_clip"):
            try:
                bad = [X for X in A.atoms_of(A.el(g, (A.num(0),))).values() if X.kind == "undefined"]
            except (Unk, TooBig, RecursionError):
                bad = []
            if bad:
                res.find("drawn", con, "%s: the figure needs the extreme of no values at all, which is an error" % name,
                         near_site(bad[0].data))
                continue
        check_equal(A, res, "drawn", con, g, w, "%s %s" % (name, t))
