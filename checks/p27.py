"""P27: exported GDS layouts contain exactly the shapes of the structure."""
from checks.p25 import rows
from sa.alg import Alg, Unk
from sa.nf import TooBig
from sa.spec import check_equal, near_site, verdict
from sa.util import client_val

EXPLANATION = (
    "The layout export is analysed with a stand-in for the GDS library that keeps every element of the library that is "
    "current when the file is written.  Outlines, layer numbers, units and file names are compared by normal forms with "
    "the shapes of the photonic crystal, for symbolic geometry.")
RULE = "normal form of every exported element equals the normal form of the shape it stands for"
ASSUMPTIONS = ["gdspy writes the cells of its current library; Round and rotate have their documented meaning",
               "numbers of layers, shapes and contour points are enumerated, geometry is symbolic"]
REQUIRED = {"obligations": 1}

PRE = """import legume
import numpy as np
import legume.gds as gds
from legume import Circle, Ellipse, Poly, Square, Hexagon, FourierShape
SYM = __SYM__
class Library(object):
    def __init__(self, *args, **kw):
        self.cells = []
class Round(object):
    def __init__(self, center, radius, inner_radius=0, initial_angle=0, final_angle=0, tolerance=0.01,
                 number_of_points=None, max_points=199, layer=0, datatype=0):
        self.kind, self.layer, self.datatype, self.tolerance, self.phi = 'round', layer, datatype, tolerance, 0
        self.x, self.y, self.inner, self.arc = center[0], center[1], inner_radius, final_angle - initial_angle
        q = np.ones(2) * np.array(radius)
        self.rx, self.ry = q[0], q[1]
    def rotate(self, angle, center=(0, 0)):
        c, s, u, v = np.cos(angle), np.sin(angle), self.x - center[0], self.y - center[1]
        self.x, self.y, self.phi = center[0] + u * c - v * s, center[1] + u * s + v * c, self.phi + angle
        return self
class Polygon(object):
    def __init__(self, points, layer=0, datatype=0):
        self.kind, self.layer, self.datatype, self.points = 'polygon', layer, datatype, points
class Cell(object):
    def __init__(self, name, *args):
        self.elements = []
        G.current_library.cells = G.current_library.cells + [self]
    def add(self, e):
        self.elements = self.elements + (e if isinstance(e, list) else [e])
        return self
written = []
class Gdspy(object):
    current_library = Library()
    def GdsLibrary(self, *args, **kw):
        return Library()
    def Cell(self, name, *args):
        return Cell(name)
    def Polygon(self, points, layer=0, datatype=0):
        return Polygon(points, layer, datatype)
    def Round(self, *args, **kw):
        return Round(*args, **kw)
    def write_gds(self, outfile, cells=None, name='library', unit=1e-6, precision=1e-9, **kw):
        written.append((outfile, unit, [e for c in self.current_library.cells for e in c.elements]))
G = Gdspy()
gds.gdspy = G
got, want = np.array([0]), np.array([0])
"""
SHAPES = {
    "circle": "Circle(eps=2, x_cent=SYM('x'), y_cent=SYM('y'), r=SYM('r'))",
    "ellipse": "Ellipse(eps=2, x_cent=SYM('x'), y_cent=SYM('y'), rx=SYM('r'), ry=SYM('q'), phi=SYM('p'))",
    "poly": "Poly(eps=2, x_edges=[SYM('x'), SYM('x') + SYM('r'), SYM('x')], y_edges=[SYM('y'), SYM('y'), SYM('y') + SYM('q')])",
    "square": "Square(eps=2, x_cent=SYM('x'), y_cent=SYM('y'), a=SYM('r'))",
    "hexagon": "Hexagon(eps=2, x_cent=SYM('x'), y_cent=SYM('y'), a=SYM('r'))"}
EXPORT = """
first = Circle(eps=3, x_cent=SYM('u'), y_cent=SYM('v'), r=SYM('w'))
phc = legume.PhotCryst(legume.Lattice('square'))
# the tested shapes have the permittivity of their layer, as islands inside other shapes do
for shapes in ([first], [], [SHAPE, first]) if MANY else ([SHAPE],):
    phc.add_layer(d=SYM('d'), eps_b=2)
    for s in shapes:
        phc.add_shape(s)
if AGAIN:
    gds.generate_gds(phc, 'before', unit=1e-6)
    written = []
gds.generate_gds(phc, 'name', unit=SYM('m'), tolerance=SYM('t'))
f, unit, E = written[0]
n = 3 if MANY else 1
gotn, wantn = np.array([len(written), len(E), (f == 'name') * 1, unit]), np.array([1, n, 1, SYM('m')])
gotl, wantl = np.array([e.layer for e in E]), np.array([0, 2, 2] if MANY else [0])
def circle(e, x, y, r):
    return [e.x - x + 1, e.y - y + 1, e.rx / r, e.ry / r, 1 + e.inner, 1 + e.arc]
if len(E) == n:
    if MANY:
        got = np.array(circle(E[0], SYM('u'), SYM('v'), SYM('w')) + circle(E[2], SYM('u'), SYM('v'), SYM('w')))
        want = np.array([1] * 12)
    e = E[1 if MANY else 0]
    if KIND == 'circle':
        gotc, wantc = np.array(circle(e, SYM('x'), SYM('y'), SYM('r'))), np.array([1] * 6)
    elif KIND == 'ellipse':
        gotc = np.array([e.x, e.y, e.rx, e.ry, np.cos(2 * e.phi), np.sin(2 * e.phi), e.inner, e.arc])
        wantc = np.array([SYM('x'), SYM('y'), SYM('r'), SYM('q'), np.cos(2 * SYM('p')), np.sin(2 * SYM('p')), 0, 0])
    else:
        s = SHAPE
        x, y, r, q = SYM('x'), SYM('y'), SYM('r'), SYM('q')
        h = r * np.sqrt(3) / 2
        V = {'poly': [(x, y), (x + r, y), (x, y + q)],
             'square': [(x - r / 2, y - r / 2), (x + r / 2, y - r / 2), (x + r / 2, y + r / 2), (x - r / 2, y + r / 2)],
             'hexagon': [(x + r, y), (x + r / 2, y + h), (x - r / 2, y + h), (x - r, y), (x - r / 2, y - h), (x + r / 2, y - h)]}[KIND]
        gots, wants = np.array([[p[0], p[1]] for p in e.points]), np.array([[p[0], p[1]] for p in V])
"""
RASTER = """
class Measure(object):
    def find_contours(self, raster, level=None, *args, **kw):
        asked.append((raster, level))
        return [SYM('c0', 'array'), SYM('c1', 'array')]
class Skimage(object):
    measure = Measure()
asked = []
gds.skimage = Skimage()
lat = legume.Lattice((SYM('a0'), 0), (SYM('b0'), SYM('b1')))
R = SYM('R', 'array')
gds.generate_gds_raster(lat, R, 'name', unit=SYM('m'), cell_bound=BOUND, levels=[SYM('lev')])
f, unit, E = written[0]
n = 3 if BOUND else 2
gotn, wantn = np.array([len(written), len(E), (f == 'name') * 1, unit]), np.array([1, n, 1, SYM('m')])
gotc, wantc = np.array(asked[0][0]), R
gotl, wantl = np.array(asked[0][1]), np.array([SYM('lev')])
def place(u, v):
    return [SYM('a0') * u + SYM('b0') * v, SYM('b1') * v]
if len(E) == n:
    got = np.array([[p[0], p[1]] for k in range(2) for p in E[k].points])
    want = np.array([place(c[i, 0] / (R.shape[0] - 1) - 0.5, c[i, 1] / (R.shape[1] - 1) - 0.5)
                     for c in (SYM('c0', 'array'), SYM('c1', 'array')) for i in range(3)])
    if BOUND:
        gots = np.array([[p[0], p[1]] for p in E[2].points])
        wants = np.array([place(u, v) for u, v in ((-0.5, -0.5), (-0.5, 0.5), (0.5, 0.5), (0.5, -0.5))])
"""


def clients(tier):
    out = {}
    for k, kind in enumerate(sorted(SHAPES)):
        for many in (False, True):
            out["export_%s_%d" % (kind, many)] = PRE + "KIND, MANY, AGAIN = %r, %r, %r\nSHAPE = %s\n" % (
                kind, many, (k + many) % 2 == 0, SHAPES[kind]) + EXPORT
    for b in (False, True):
        out["raster_%d" % b] = PRE + "BOUND = %r\n" % b + RASTER
    return out


def decl(name):
    d = {n: {"positive": True} for n in ("r", "q", "w", "d", "a0", "b1", "m", "t")}
    d.update({"R": {"shape": (4, 5)}, "c0": {"shape": (3, 2)}, "c1": {"shape": (3, 2)}})
    return d


def join(rs):
    return "different" if "different" in rs else "equal" if all(r == "equal" for r in rs) else "unknown"


def outline(A, res, con, got, want, what):
    """one closed polygon, from whatever vertex and in whatever sense it is listed"""
    try:
        g, w = rows(A, got), rows(A, want)
    except (Unk, TooBig, ZeroDivisionError, RecursionError) as e:
        res.count("inconclusive")
        res.note("%s: not understood (%s)" % (what, e))
        return
    same = lambda p, q: join([verdict(A, x, y) for x, y in zip(p, q)])
    g = [p for k, p in enumerate(g) if len(g) == 1 or same(p, g[k - 1]) != "equal"]      # closing vertex
    res.count("obligations", len(w))
    if len(g) != len(w):
        r = "different"
    else:
        r = set(join([same(p, q) for p, q in zip(v[k:] + v[:k], w)]) for v in (g, g[::-1]) for k in range(len(g)))
        r = "equal" if "equal" in r else "unknown" if "unknown" in r else "different"
    if r == "equal":
        res.count("proved", len(w))
    elif r == "different":
        res.find("exported", con, "%s: the polygon %s is not the outline %s" % (
            what, *["-".join("(%s)" % ", ".join(A.show(x, 3)[:60] for x in p) for p in v) for v in (g, w)]), near_site(got))
    else:
        res.count("inconclusive", len(w))
        res.note("%s: polygon not compared" % what)


def refused(I, res, name):
    """no path of the client completes: an explicit raise of the library is the reason"""
    sinks = [s for frame in I.raise_sinks for s in frame]
    res.count("obligations")
    if sinks and all(not s[3] and s[2] and s[2][0] != "<client>" for s in sinks):
        res.find("refused", "gds", "%s: the export of a documented shape raises %s" % (name, sinks[0][1]), sinks[0][2])
    else:
        res.count("inconclusive")
        res.note("%s does not complete" % name)


def analyse(name, I, st, res):
    if st is None:
        refused(I, res, name)
        return
    A = Alg(I, st, decl(name))
    A.maxdim = 64
    val = lambda nm: client_val(I, st, nm)
    con = "gds.generate_gds_raster" if name.startswith("raster") else "gds.generate_gds"
    for t in ("n", "", "c", "l", "s"):
        g, w = val("got" + t), val("want" + t)
        if g is not None and w is not None:
            (outline if t == "s" else lambda A, res, *a: check_equal(A, res, "exported", *a))(
                A, res, con, g, w, "%s %s" % (name, t))
