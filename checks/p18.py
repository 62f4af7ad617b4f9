"""P18: Fourier transforms and indicator functions of the shapes."""
from sa import clients as C
from sa.alg import Alg
from sa.spec import check_equal
from sa.util import client_val

EXPLANATION = (
    "The Fourier transform of every shape is reduced to an exact normal form per "
    "g-vector (value numbering modulo the algebra of exponentials, quotients and "
    "roots) and compared with the analytic transform of the documented region: the "
    "disc, the rotated ellipse, and Green's theorem over the documented polygon "
    "vertices, in the three regimes g generic, g_x = 0 and g = 0.  Indicator "
    "functions of disc and ellipse are compared in the same way.")
RULE = "normal form of the value equals normal form of the specification, element by element"
ASSUMPTIONS = ["regularising constants are infinitesimal", "g components compared with thresholds are generic"]
REQUIRED = {"obligations": 3}

HEAD = """import legume
import numpy as np
SYM = __SYM__
g = SYM('g', 'array')
gx = g[0, :]
gy = g[1, :]
def green(xs, ys):
    n = len(xs)
    tot = 0
    for j in range(n):
        x1, y1, x2, y2 = xs[j], ys[j], xs[(j + 1) % n], ys[(j + 1) % n]
        e1 = np.exp(-1j * (gx * x1 + gy * y1))
        e2 = np.exp(-1j * (gx * x2 + gy * y2))
        dx, dy = x2 - x1, y2 - y1
        if REGIME == 'generic':
            if not ZERO_DY[j]:
                tot = tot - dy * (e2 - e1) / (gx * (gx * dx + gy * dy))
        elif REGIME == 'gx0':
            if not ZERO_DX[j]:
                tot = tot + dx * (e2 - e1) / (gy * (gx * dx + gy * dy))
        else:
            tot = tot + (x1 * y2 - x2 * y1) / 2
    return tot + 0 * gx
"""
TRI = """
xs = [SYM('x1'), SYM('x2'), SYM('x3')]
ys = [SYM('y1'), SYM('y2'), SYM('y3')]
ZERO_DX = ZERO_DY = [False] * 3
s = legume.Poly(eps=SYM('e'), x_edges=xs, y_edges=ys)
"""
QUAD = """
xs = [SYM('x1'), SYM('x2'), SYM('x3'), SYM('x4')]
ys = [SYM('y1'), SYM('y2'), SYM('y3'), SYM('y4')]
ZERO_DX = ZERO_DY = [False] * 4
s = legume.Poly(eps=SYM('e'), x_edges=xs, y_edges=ys)
"""
SQ = """
a, xc, yc = SYM('a'), SYM('xc'), SYM('yc')
xs = [xc - a / 2, xc + a / 2, xc + a / 2, xc - a / 2]
ys = [yc - a / 2, yc - a / 2, yc + a / 2, yc + a / 2]
ZERO_DX = [False, True, False, True]
ZERO_DY = [True, False, True, False]
s = legume.Square(eps=SYM('e'), x_cent=xc, y_cent=yc, a=a)
"""
HEX = """
a, xc, yc = SYM('a'), SYM('xc'), SYM('yc')
h = np.sqrt(3) / 2 * a
xs = [xc + a, xc + a / 2, xc - a / 2, xc - a, xc - a / 2, xc + a / 2]
ys = [yc, yc + h, yc + h, yc, yc - h, yc - h]
ZERO_DX = [False] * 6
ZERO_DY = [False, True, False, False, True, False]
s = legume.Hexagon(eps=SYM('e'), x_cent=xc, y_cent=yc, a=a)
"""
END = """
got = s.compute_ft(g)
want = green(xs, ys)
"""
CIRC = HEAD + """
from legume.backend import backend as bd
r, xc, yc = SYM('r'), SYM('xc'), SYM('yc')
s = legume.Circle(eps=SYM('e'), x_cent=xc, y_cent=yc, r=r)
got = s.compute_ft(g)
q = np.sqrt(gx**2 + gy**2)
want = np.exp(-1j * (gx * xc + gy * yc)) * 2 * np.pi * r * bd.bessel1(q * r) / q
X, Y = SYM('X', 'array'), SYM('Y', 'array')
got2 = s.is_inside(X, Y)
want2 = (X - xc)**2 + (Y - yc)**2 <= r**2
"""
ELL = HEAD + """
from legume.backend import backend as bd
rx, ry, phi, xc, yc = SYM('rx'), SYM('ry'), SYM('phi'), SYM('xc'), SYM('yc')
s = legume.Ellipse(eps=SYM('e'), x_cent=xc, y_cent=yc, rx=rx, ry=ry, phi=phi)
got = s.compute_ft(g)
c, t = np.cos(phi), np.sin(phi)
q = np.sqrt((rx * (c * gx + t * gy))**2 + (ry * (c * gy - t * gx))**2)
want = np.exp(-1j * (gx * xc + gy * yc)) * 2 * np.pi * rx * ry * bd.bessel1(q) / q
X, Y = SYM('X', 'array'), SYM('Y', 'array')
got2 = s.is_inside(X, Y)
want2 = ((c * (X - xc) + t * (Y - yc)) / rx)**2 + ((c * (Y - yc) - t * (X - xc)) / ry)**2 <= 1
"""


VERT = {
    "square": """
got = s.x_edges
want = np.array([xc - a / 2, xc + a / 2, xc + a / 2, xc - a / 2, xc - a / 2])
got2 = s.y_edges
want2 = np.array([yc - a / 2, yc - a / 2, yc + a / 2, yc + a / 2, yc - a / 2])
""",
    "hexagon": """
got = s.x_edges
want = np.array([xc + a, xc + a / 2, xc - a / 2, xc - a, xc - a / 2, xc + a / 2, xc + a, xc + a])[0:GOTN]
got2 = s.y_edges
want2 = np.array([yc, yc + h, yc + h, yc, yc - h, yc - h, yc, yc])[0:GOTN]
""".replace("GOTN", "8")}
FOUR = """
a0, a1, a2, b1, b2, xc, yc = [SYM(v) for v in ('a0', 'a1', 'a2', 'b1', 'b2', 'xc', 'yc')]
s = legume.FourierShape(eps=SYM('e'), x_cent=xc, y_cent=yc, f_as=np.array([a0, a1, a2]),
                        f_bs=np.array([b1, b2]), npts=NPTS)
X, Y = [], []
for k in range(NPTS + 1):
    p = 2 * np.pi * k / NPTS
    R = a0 / 2 + a1 * np.cos(p) + a2 * np.cos(2 * p) + b1 * np.sin(p) + b2 * np.sin(2 * p)
    X.append(xc + R * np.cos(p))
    Y.append(yc + R * np.sin(p))
got = s.x_edges[:NPTS + 1]
want = np.array(X)
got2 = s.y_edges[:NPTS + 1]
want2 = np.array(Y)
"""
ROT = HEAD + """
xs = [SYM('x1'), SYM('x2'), SYM('x3')]
ys = [SYM('y1'), SYM('y2'), SYM('y3')]
t = SYM('t')
s = legume.Poly(eps=SYM('e'), x_edges=xs, y_edges=ys)
s.rotate(t)
mx, my = (xs[0] + xs[1] + xs[2]) / 3, (ys[0] + ys[1] + ys[2]) / 3
c, q = np.cos(t), np.sin(t)
got = s.x_edges[:3]
want = np.array([mx + c * (x - mx) - q * (y - my) for x, y in zip(xs, ys)])
got2 = s.y_edges[:3]
want2 = np.array([my + q * (x - mx) + c * (y - my) for x, y in zip(xs, ys)])
"""


def clients(tier):
    c = {"circle": CIRC, "ellipse": ELL}
    polys = {"triangle": TRI, "quadrilateral": QUAD, "square": SQ, "hexagon": HEX}
    for nm, s in polys.items():
        for reg in ("generic", "gx0", "g0"):
            if nm in ("square", "hexagon") and reg == "generic":
                continue        # no finite limit of the regularised slopes in reach
            c["%s_%s" % (nm, reg)] = "REGIME = %r\n" % reg + HEAD + s + END
        if nm in VERT:
            c[nm + "_vertices"] = HEAD + s + VERT[nm]
    for npts in (4, 6):
        c["fouriershape_vertices%d" % npts] = HEAD + ("NPTS = %d" % npts) + FOUR
    c["triangle_rotated"] = ROT
    c["circle_ag"] = CIRC.replace("SYM = __SYM__", "SYM = __SYM__\nlegume.set_backend('autograd')")
    c["triangle_ag"] = "REGIME = 'generic'\n" + (HEAD + TRI + END).replace(
        "SYM = __SYM__", "SYM = __SYM__\nlegume.set_backend('autograd')")
    return c


def gval(reg):
    def f(A, idx):
        k = A.int_(idx[0])
        if k is None:
            return A.elatom("g", idx, True)
        if reg == "g0" or reg == "gx0" and k == 0:
            return {}
        return A.elatom("g", idx, True)
    return f


def analyse(name, I, st, res):
    if st is None:
        return
    reg = name.split("_")[-1] if name.split("_")[-1] in ("gx0", "g0") else "generic"
    A = Alg(I, st, {"g": {"shape": (2, "n"), "value": gval(reg)},
                    "X": {"shape": ("nx", "ny")}, "Y": {"shape": ("nx", "ny")}})
    sh = name.split("_")[0].capitalize()
    val = lambda nm: client_val(I, st, nm)
    if "vertices" in name:
        check_equal(A, res, "shape-vertices", sh, val("got"), val("want"), "x of the vertices of " + sh)
        check_equal(A, res, "shape-vertices", sh, val("got2"), val("want2"), "y of the vertices of " + sh)
        return
    if "rotated" in name:
        for a, b, ax in (("got", "want", "x"), ("got2", "want2", "y")):
            check_equal(A, res, "shape-rotation", "Poly.rotate", val(a), val(b),
                        "%s of the vertices after rotation" % ax)
        return
    A.generic = True
    check_equal(A, res, "shape-ft", sh + ".compute_ft", val("got"),
                val("want"), "Fourier transform of %s (%s)" % (sh, name))
    if val("got2") is not None:
        A.generic = False
        A.memo.clear()
        check_equal(A, res, "shape-indicator", sh + ".is_inside", val("got2"),
                    val("want2"), "indicator of %s" % sh)


