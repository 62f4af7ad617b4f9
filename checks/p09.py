"""P09: scale covariance (dimension inference over the value graph)."""
from fractions import Fraction as Fr

from sa import clients as C
from sa.dims import Dims, Tup
from sa.util import client_val, func_of

EXPLANATION = (
    "Dimension inference: every input carries an exponent of length (L) and of "
    "permittivity (K); a linear equation system over the rationals is generated "
    "from every sum, comparison, branch join, loop, store, root search and "
    "eigenproblem of the value graph of each result, and must be consistent; the "
    "dimension of each result must be the one Maxwell's equations prescribe "
    "(frequency L^-1 K^-1/2).  A solution exists iff the computation is covariant "
    "under a change of the unit of length and under a common rescaling of the "
    "permittivities.")
RULE = "homogeneity equations consistent; result has the prescribed dimension"
ASSUMPTIONS = ["additive numeric constants below 1e-3 are regularisers",
               "arrays are homogeneous"]
REQUIRED = {"equations": 3000, "results_checked": 40}

L, K = "L", "K"


def D(l=0, k=0):
    d = {}
    if l:
        d[L] = Fr(l)
    if k:
        d[K] = Fr(k)
    return d


FREQ = {L: Fr(-1), K: Fr(-1, 2)}
SYMS = {"gmax": D(-1), "kp": D(-1), "a1": D(1), "a2": D(1), "ax": D(1), "ay": D(1),
        "r": D(1), "xc": D(1), "yc": D(1), "rx": D(1), "ry": D(1), "phi": D(),
        "x1": D(1), "x2": D(1), "x3": D(1), "y1": D(1), "y2": D(1), "y3": D(1), "aa": D(1),
        "fas": D(1), "fbs": D(1), "z": D(1), "y": D(1), "x": D(1),
        "eps_l": D(0, 1), "eps_u": D(0, 1), "epsr": D(0, 1), "epsrl": D(0, 1),
        "epsru": D(0, 1), "eps0": D(0, 1), "eps1": D(0, 1), "d0": D(1), "d1": D(1),
        "angles": D(), "gstep": FREQ, "gtol": D(), "sigma": FREQ, "q": D(-1),
        "X": D(1), "Y": D(1), "Z": D(1), "dist": D(1),
        "zgr": D(1)}


# the z grid is given: its default spacing is a documented absolute number
FIELDS = C.FIELDS.replace("SYM('y'))", "SYM('y'), zgrid=SYM('zgr', 'array'))").replace(
    "SYM('x'))", "SYM('x'), zgrid=SYM('zgr', 'array'))")


def cases(tier):
    c = {}
    g = dict(lat="general")
    res = {"F": FREQ, "FI": FREQ, "KP": D(-1), "GV": D(-1), "ee": D(0, 1), "V": D(),
           "UB": D()}
    o = {"gmode_step": "SYM('gstep')", "gmode_tol": "SYM('gtol')"}

    def gme(tr, run=None, ang=False, fields=True, **k):
        r = dict(o)
        r.update(run or {})
        return (C.gme(tr, None, dict(g, **k), r, ang, C.READ_GME + C.READ_IM +
                      (FIELDS if fields else "") + C.RAD), dict(res))
    for sh in C.SHAPES:
        c["gme_abs_" + sh] = gme("abs", shape=sh)
    c["gme_tbt"] = gme("tbt")
    c["gme_abs_2l"] = gme("abs", layers=2, clad=True)
    c["gme_tbt_2l"] = gme("tbt", layers=2, clad=True, shape="poly")
    for tr in ("abs", "tbt"):
        c["gme_%s_interp" % tr] = gme(tr, {"gmode_compute": "'interp'"}, layers=2)
        c["gme_%s_bg" % tr] = gme(tr, {"eps_eff": "'background'"})
        c["gme_%s_eigsh" % tr] = gme(tr, {"eig_solver": "'eigsh'", "eig_sigma": "SYM('sigma')"}, fields=False)
        for s in ("odd", "even", "both"):
            c["gme_%s_%s" % (tr, s)] = gme(tr, {"kz_symmetry": repr(s)}, True, False)
    for sh in C.SHAPES:
        for p in ("te", "tm"):
            c["pwe_%s_%s" % (p, sh)] = (C.pwe(p, sh, "general", C.READ_PWE + C.FIELDS_PWE), dict(res))
    c["structure"] = (C.phc(lat="general", layers=2, clad=True) + """
e = phc.get_eps((SYM('X', 'array'), SYM('Y', 'array'), SYM('Z', 'array')))
b = phc.get_eps_bounds()
zg = phc.z_grid(Nz=SYM('nz', 'int'), dist=SYM('dist'))
el = phc.layers[0].get_eps((SYM('X', 'array'), SYM('Y', 'array')))
ea = phc.layers[1].eps_avg
kk = lat.bz_path(['G', SYM('q', 'array')], [SYM('nk', 'int')])['kpoints']
gr = lat.xy_grid(Nx=SYM('nx', 'int'), Ny=SYM('ny', 'int'), periods=[SYM('p1', 'int'), SYM('p2', 'int')])
bb = lat.b1
""", {"e": D(0, 1), "b": D(0, 1), "zg": D(1), "el": D(0, 1), "ea": D(0, 1),
      "kk": D(-1), "gr": D(1), "bb": D(-1)})
    return c


_C = {}


def get(t="quick"):
    if t not in _C:
        _C[t] = cases(t)
    return _C[t]


def clients(tier):
    return {k: v[0] for k, v in get(tier).items()}


RATIO = [("fe", "fd", D(0, -1)), ("xy", "fe", D())]


def project(d, keep):
    return {k: v for k, v in d.items() if k == keep}


ORDER = ("F", "FI", "V", "KP", "GV", "UB", "RC", "ri", "rs", "ee", "fe", "fh", "fd",
         "xy", "xz", "yz", "xyh", "xyd", "e", "b", "zg", "el", "ea", "kk", "gr", "bb")


CTX = [(L, (0, 0)), (L, (0, 1)), (L, (1, 0)), (L, (1, 1)), (K, (0, 0)), (K, (0, 1)), (K, (1, 1))]


def analyse(name, I, st, res):
    if st is None:
        return
    want = get()[name][1]
    first = {}
    for base, par in CTX if name.startswith("gme") else [(L, (0, 0)), (K, (0, 0))]:
        dm = Dims(I, st, {k: project(v, base) for k, v in SYMS.items()}, base == L, par)
        forms = {}
        for v in ORDER:
            n = client_val(I, st, v)
            if n is None:
                continue
            f = dm.of(n)
            res.count("results_checked")
            forms[v] = f
            if v in want:
                w = project(want[v], base)
                if v == "ee":
                    f = f.items[0] if isinstance(f, Tup) else f
            elif v in ("fe", "fh", "fd", "RC", "ri", "rs"):
                # same scaling in every mode family and for every component
                w = first.get((base, v))
                if w is None:
                    f = dm.flat(f, n) if v[0] == "f" else dm.comp0(f)
                    if f is not None:
                        w = dm.red(f)
                        if not any(isinstance(y, tuple) for y in w):
                            first[(base, v)] = w
                    continue
                f = f if v[0] == "f" else dm.comp0(f)
            else:
                continue
            f = dm.flat(f, n)
            if f is None:
                continue
            r = dm.red(f)
            if any(isinstance(y, tuple) for y in r):
                dm.eqn(f, w, n, "result dimension")
            elif r != w:
                res.find("result-dimension", "%s:%s" % (name.split("_")[0], v),
                         "result %s of '%s' scales as [%s] instead of [%s]" % (
                             v, name, dm.show(f), dm.show(w)), n.site)
        for (site, why), (n, a, b, w) in dm.conflicts.items():
            res.find("inhomogeneous", "%s:%s" % (func_of(site) if site else "?", why),
                     "%s in '%s': [%s] against [%s]" % (why, name, dm.show(a), dm.show(b)), site)
        res.count("equations", dm.equations)
        res.count("values_with_dimension", sum(1 for x in dm.memo.values() if x is not None))
        res.count("values_without_dimension", sum(1 for x in dm.memo.values() if x is None))
        for k in dm.unknown:
            res.note("operation without a dimension rule: %s" % k)
        res.sample("%s %s %s: %s" % (name, base, par, ", ".join("%s=[%s]" % (k, dm.show(f)) for k, f in forms.items())))
