"""P24: lattices, Brillouin-zone paths and reciprocal sets."""
from fractions import Fraction as Fr

from sa.alg import Alg, Unk
from sa.nf import TooBig
from sa.spec import check_equal, near_site
from sa.util import client_val

EXPLANATION = (
    "Lattice vectors, areas, special points, paths and grids are reduced to normal forms and compared with "
    "their definitions for symbolic primitive vectors and end points.  The reciprocal sets of the three "
    "expansions are folded exactly for literal lattices and cutoffs and compared, as sets, with the set of all "
    "lattice vectors inside the documented region.")
RULE = "normal form of the value equals the definition; folded sets are equal"
ASSUMPTIONS = ["exact arithmetic: rounding does not move a vector across the cutoff"]
REQUIRED = {"obligations": 1}

HEAD = """import legume
import numpy as np
SYM = __SYM__
"""
BASIS = """
lat = legume.Lattice(%s)
a1, a2, b1, b2 = lat.a1, lat.a2, lat.b1, lat.b2
det = a1[0] * a2[1] - a1[1] * a2[0]
dot = lambda u, v: u[0] * v[0] + u[1] * v[1]
got = np.array([dot(a1, b1), dot(a1, b2), dot(a2, b1), dot(a2, b2), lat.ec_area**2, lat.bz_area**2 * det**2])
want = np.array([2 * np.pi, 0, 0, 2 * np.pi, det**2, (2 * np.pi)**4])
"""
NAMED = {
    "given": ("SYM('A1', 'array'), SYM('A2', 'array')",
              "got1 = np.array([a1[0], a1[1], a2[0], a2[1]])\n"
              "want1 = np.array([SYM('A1', 'array')[0], SYM('A1', 'array')[1], SYM('A2', 'array')[0], SYM('A2', 'array')[1]])"),
    "list": ("[SYM('p'), SYM('q')], [SYM('r'), SYM('s')]",
             "got1 = np.array([a1[0], a1[1], a2[0], a2[1]])\n"
             "want1 = np.array([SYM('p'), SYM('q'), SYM('r'), SYM('s')])"),
    "square": ("'square'", "got1 = np.array([dot(a1, a1), dot(a2, a2), dot(a1, a2)])\nwant1 = np.array([1, 1, 0])"),
    "hex": ("'hexagonal'", "got1 = np.array([dot(a1, a1), dot(a2, a2), dot(a1, a2)**2])\n"
            "want1 = np.array([1, 1, 1 / 4])"),
}
POINTS = """
lat = legume.Lattice(%r)
pts = [lat._parse_point(s) for s in %r]
b1, b2 = lat.b1, lat.b2
dot = lambda u, v: u[0] * v[0] + u[1] * v[1]
got = np.array(pts)
want = np.array(%s)
"""
SQP = "[[0, 0], [0, 0], (b1 / 2), ((b1 + b2) / 2)]"
HXP = "[[0, 0], [0, 0], (b1 / 2), (b1 + b2) / 3]"
PATH = """
lat = legume.Lattice(%s)
P = %s
path = lat.bz_path(%s, %s%s)
N = %r
pos, k = [], 0
for s in range(len(P) - 1):
    for j in range(N[s]):
        pos.append([P[s][c] + (P[s + 1][c] - P[s][c]) * j / N[s] for c in range(2)])
pos.append(P[-1])
got = path['kpoints']
want = np.array([[p[c] for p in pos] for c in range(2)])
got1 = np.array(path['indexes'])
want1 = np.array([sum(N[:s]) for s in range(len(P))])
seg = [np.sqrt((P[s + 1][0] - P[s][0])**2 + (P[s + 1][1] - P[s][1])**2) for s in range(len(P) - 1)]
got2 = np.array(path['k_indexes'])
want2 = np.array([sum(seg[:s]) / sum(seg) if s else 0 for s in range(len(P))])
got3 = np.array(path['angles'])
ang = [GANG if i in GZERO else np.angle(pos[i][0] + 1j * pos[i][1], deg=True) for i in range(len(pos))]
want3 = np.array(ang)
labels = tuple(path['labels'])
"""
PATHS = {
    "sq_gxm": ("'square'", "[[0, 0], [np.pi, 0], [np.pi, np.pi]]", "['G', 'X', 'M']", "[2, 3]", "", [2, 3], "0", [0]),
    "sq_back": ("'square'", "[[np.pi, 0], [0, 0], [np.pi, np.pi]]", "['x', 'gamma', 'm']", "2", ", symm_g='M'",
                [2, 2], "45", [2]),
    "hex": ("'hexagonal'", "[[0, 0], [np.pi, np.pi / np.sqrt(3)], [4 * np.pi / 3, 0], [0, 0]]", "['G', 'M', 'K', 'g']",
            "[1, 2, 1]", ", symm_g=[0, 1]", [1, 2, 1], "90", [0, 4]),
    "pts": ("SYM('A1', 'array'), SYM('A2', 'array')", "[[SYM('p'), SYM('q')], [SYM('r'), SYM('s')], [SYM('t'), SYM('u')]]",
            "[[SYM('p'), SYM('q')], np.array([SYM('r'), SYM('s')]), [SYM('t'), SYM('u')]]", "[2, 1]", "", [2, 1], "0", []),
}
GRID = """
lat = legume.Lattice(%s)
xg, yg = lat.xy_grid(Nx=4, Ny=3%s)
px, py = %s
mx = max(abs(lat.a1[0]), abs(lat.a2[0]))
my = max(abs(lat.a1[1]), abs(lat.a2[1]))
got, got1 = xg, yg
want = np.array([(j / 3 - 1 / 2) * px * mx for j in range(4)])
want1 = np.array([(j / 2 - 1 / 2) * py * my for j in range(3)])
"""
GRIDS = {"sq": ("'square'", "", "1, 1"), "hex": ("'hexagonal'", "", "2, 2"),
         "rect": ("[0.75, 0], [0, 1.5]", "", "1, 1"), "obl": ("[1, 0], [0.25, 0.75]", "", "2, 2"),
         "p3": ("'square'", ", periods=3", "3, 3"), "p23": ("'hexagonal'", ", periods=[2, 3]", "2, 3")}
SETS = {
    "gme": "x = legume.GuidedModeExp(phc, gmax=%s, truncate_g=%r)",
    "pwe": "x = legume.PlaneWaveExp(phc.layers[0], gmax=%s)",
    "ese": "x = legume.ExcitonSchroedEq(phc=phc, z=0.5, V_shapes=1, a=1, M=1, E0=1, loss=1, gmax=%s, truncate_g=%r)",
}
SET = """
lat = legume.Lattice(%s)
phc = legume.PhotCryst(lat)
phc.add_layer(d=1, eps_b=2)
%s
G = x.gvec
b = np.array([lat.b1, lat.b2])
"""
LATS = {"sq": ("'square'", ["1.2", "2.0", "2.3"]), "hex": ("'hexagonal'", ["1.3", "2.5"]),
        "rect": ("[0.75, 0], [0, 1.5]", ["1.5", "1.1"]), "obl": ("[1., 0.], [0.25, 0.75]", ["1.1", "2.1"]),
        "steep": ("[1., 0.], [0.875, 0.375]", ["2.1", "1.4"]), "neg": ("[0.5, 1.], [1., 0.25]", ["1.7"])}


def clients(tier):
    c = {}
    for k, (args, extra) in NAMED.items():
        c["basis_" + k] = HEAD + BASIS % args + extra + "\n"
    c["points_square"] = HEAD + POINTS % ("square", ["G", "gamma", "X", "m"], SQP)
    c["points_hexagonal"] = HEAD + POINTS % ("hexagonal", ["g", "Gamma", "M", "K"], HXP)
    for k, (lat, P, pts, ns, kw, N, gang, gz) in PATHS.items():
        c["path_" + k] = HEAD + "GANG, GZERO = %s, %r\n" % (gang, gz) + PATH % (lat, P, pts, ns, kw, N)
    for k, a in GRIDS.items():
        c["grid_" + k] = HEAD + GRID % a
    for k, (args, gms) in LATS.items():
        for s, t in SETS.items():
            for tr in ("tbt", "abs"):
                if s == "pwe" and tr == "abs":
                    continue
                for j, g in enumerate(gms):
                    c["set_%s_%s_%s_%d" % (s, tr, k, j)] = HEAD + "GMAX = %s\n" % g + SET % (
                        args, t % ((g, tr) if s != "pwe" else g))
    return c


def decl(name):
    d = {"A1": {"shape": (2,)}, "A2": {"shape": (2,)}, "unit": {"positive": True}}
    return d


CON = {"basis": ["Lattice", "Lattice"], "points": ["Lattice._parse_point"],
       "path": ["Lattice.bz_path"] * 4, "grid": ["Lattice.xy_grid"] * 2}
WHAT = {"basis": ["duality and areas", "primitive vectors"], "points": ["special points"],
        "path": ["kpoints", "indexes", "k_indexes", "angles"], "grid": ["x grid", "y grid"]}
NAMES = {"path_sq_gxm": ["G", "X", "M"], "path_sq_back": ["X", "GAMMA", "M"], "path_hex": ["G", "M", "K", "G"]}
OWN = {"gme": "GuidedModeExp", "pwe": "PlaneWaveExp", "ese": "ExcitonSchroedEq"}


def folded(A, n):
    s = A.shape(n)
    if len(s) != 2 or any(not isinstance(d, int) for d in s):
        raise Unk("extent")
    out = []
    for j in range(s[1]):
        v = []
        for i in range(s[0]):
            p = A.el(n, (A.num(i), A.num(j)))
            x = A.closed(p) if p else 0.
            if x is None:
                raise Unk("value")
            v.append(x)
        out.append(tuple(v))
    return out


def the_set(name, b, gmax):
    import math
    _, s, tr = name.split("_")[:3]
    R = 2 * math.pi * gmax
    n = [math.hypot(*v) for v in b]
    if tr == "tbt":
        m = [int(R / x) for x in n]
    else:
        det = abs(b[0][0] * b[1][1] - b[0][1] * b[1][0])
        m = [int(R * n[1 - k] / det + 1) for k in (0, 1)]
    out = set()
    for i in range(-m[0], m[0] + 1):
        for j in range(-m[1], m[1] + 1):
            g = [i * b[0][c] + j * b[1][c] for c in (0, 1)]
            if tr == "tbt" or math.hypot(*g) <= R + 1e-6:
                out.add((i, j))
    return out


def labels(A, I, n, name, res):
    want = NAMES.get(name)
    got = [a.val for a in n.args] if n is not None and n.op == "tuple" and all(
        a.op == "const" for a in n.args) else None
    if want is None or got is None:
        if want is not None:
            res.count("inconclusive")
            res.note("%s: labels not folded" % name)
        return
    res.count("obligations")
    if got != want:
        res.find("lattice", "Lattice.bz_path", "%s: labels are %r instead of %r" % (name, got, want), n.site)
    else:
        res.count("proved")


def analyse(name, I, st, res):
    if st is None:
        return
    A = Alg(I, st, decl(name))
    A.maxdim = 64
    A.generic = True
    val = lambda nm: client_val(I, st, nm)
    kind = name.split("_")[0]
    if kind != "set":
        for k, con in enumerate(CON[kind]):
            t = str(k) if k else ""
            check_equal(A, res, "lattice", con, val("got" + t), val("want" + t),
                        "%s (%s)" % (WHAT[kind][k], name))
        if kind == "path":
            labels(A, I, val("labels"), name, res)
        return
    G = val("G")
    con = OWN[name.split("_")[1]] + ".gvec"
    try:
        got = folded(A, G)
        bb = folded(A, val("b"))
    except (Unk, TooBig, ZeroDivisionError, RecursionError) as e:
        res.count("inconclusive")
        res.note("%s: reciprocal set not folded (%s)" % (name, e))
        return
    b = [[bb[c][k] for c in (0, 1)] for k in (0, 1)]
    det = b[0][0] * b[1][1] - b[0][1] * b[1][0]
    # integer coordinates in the reciprocal basis
    got = [((x * b[1][1] - y * b[1][0]) / det, (y * b[0][0] - x * b[0][1]) / det) for x, y in got]
    if any(abs(t - round(t)) > 1e-6 for v in got for t in v):
        got = [tuple(round(t, 4) for t in v) for v in got]
    else:
        got = [tuple(int(round(t)) for t in v) for v in got]
    want = the_set(name, b, float(Fr(str(val("GMAX").val))))
    res.count("obligations")
    if len(set(got)) != len(got):
        res.find("reciprocal-set", con, "%s: a vector occurs twice" % name, near_site(G))
    elif set(got) != want:
        miss, more = sorted(want - set(got)), sorted(set(got) - want)
        res.find("reciprocal-set", con, "%s: %d vectors missing (first %s), %d outside the region (first %s)" % (
            name, len(miss), miss[:1], len(more), more[:1]), near_site(G))
    else:
        res.count("proved")
