"""P04: the numpy and autograd backends describe the same computation."""
from sa import clients as C
from sa.equiv import Equiv
from sa.util import client_val

EXPLANATION = (
    "Translation-style equivalence: each client is analysed twice in one value "
    "graph, under the numpy and under the autograd backend, and the result values "
    "are compared by bisimulation modulo the naming of the numerical library "
    "(autograd.numpy.f = numpy.f, a primitive = the function it wraps).  Any "
    "operator, constant, operand or loop that differs is reported.")
RULE = "value graph of a result under autograd is bisimilar to the one under numpy"
ASSUMPTIONS = ["autograd.numpy.f and numpy.f agree on plain arrays"]
REQUIRED = {"results_compared": 40}


def split(src):
    """client source -> twice, with results suffixed."""
    body = src.replace(C.PRE, "").replace("legume.set_backend('autograd')\n", "")
    names = [l.split(" = ")[0] for l in body.splitlines() if " = " in l and
             l.split(" = ")[0].isidentifier()]
    out = C.PRE + "legume.set_backend('numpy')\n" + body
    for n in names:
        if n in NAMES:
            out += "A_%s = %s\n" % (n, n)
    out += "legume.set_backend('autograd')\n" + body
    return out


NAMES = ["F", "V", "KP", "GV", "FI", "RC", "RG", "UB", "KS", "fe", "fh", "fd", "xy",
         "xz", "yz", "ee", "ri", "rs", "xyh", "xyd", "EE", "EV", "pot", "fw", "wf",
         "PE", "PI", "PV", "FX", "FP", "e", "b", "zg", "kk", "ea", "ft", "gr", "w", "co",
         "w2", "co2", "r1", "r2", "r3", "r4", "inside"]


def clients(tier):
    c = {}
    for tr in ("abs", "tbt"):
        c["gme_%s" % tr] = C.gme(tr, phcargs=dict(layers=2), post=C.READ_GME + C.READ_IM + C.RAD + C.FIELDS)
        c["gme_%s_interp" % tr] = C.gme(tr, run={"gmode_compute": "'interp'"}, post=C.READ_GME + C.READ_IM)
        c["gme_%s_approx" % tr] = C.gme(tr, run={"gradients": "'approx'"}, post=C.READ_GME + C.READ_IM)
        c["gme_%s_eigsh" % tr] = C.gme(tr, run={"eig_solver": "'eigsh'"}, post=C.READ_GME)
        for s in ("odd", "even", "both"):
            for sp in ("True", "False"):
                if tr == "tbt" and sp == "True" and tier == "quick":
                    continue
                c["gme_%s_%s_%s" % (tr, s, sp)] = C.gme(
                    tr, phcargs=dict(lat="hexagonal"), angles=True,
                    run={"kz_symmetry": repr(s), "use_sparse": sp},
                    post=C.READ_GME + C.READ_IM + "KS = gme.kz_symms\n")
        c["ese_" + tr] = C.ese(trunc=tr, post=C.READ_ESE)
    c["gme_clad"] = C.gme("tbt", phcargs=dict(layers=1, shape="poly", clad=True, lat="general"),
                          run={"eps_eff": "'background'"}, post=C.READ_GME + C.READ_IM + C.FIELDS)
    for sh in C.SHAPES:
        for p in ("te", "tm"):
            c["pwe_%s_%s" % (p, sh)] = C.pwe(p, sh, post=C.READ_PWE + C.FIELDS_PWE)
    c["pol"] = C.pol(2, layers=2, post=C.READ_POL)
    for lat in ("hexagonal", "general"):
        c["structure_" + lat] = C.phc(lat=lat, layers=2, clad=True) + """
e = phc.get_eps((SYM('X', 'array'), SYM('Y', 'array'), SYM('Z', 'array')))
b = phc.get_eps_bounds()
zg = phc.z_grid()
ft = phc.layers[1].compute_ft(SYM('gv', 'array'))
ea = phc.layers[1].eps_avg
kk = lat.bz_path(['G', 'M', SYM('q', 'array')], [SYM('nk', 'int')])
gr = lat.xy_grid(Nx=SYM('nx', 'int'), periods=SYM('p1', 'int'))
"""
    c["slab"] = C.PRE + """
(w, co) = legume.guided_modes(SYM('g', 'array'), SYM('ea', 'array'), SYM('da', 'array'), n_modes=SYM('nm', 'int'), step=SYM('st'), tol=SYM('tol'), pol='TE')
(w2, co2) = legume.guided_modes(SYM('g', 'array'), SYM('ea', 'array'), SYM('da', 'array'), n_modes=SYM('nm', 'int'), step=SYM('st'), tol=SYM('tol'), pol='TM')
r1 = legume.rad_modes(SYM('om'), SYM('g', 'array'), SYM('ea', 'array'), SYM('da', 'array'), 'TE', 0)
r2 = legume.rad_modes(SYM('om'), SYM('g', 'array'), SYM('ea', 'array'), SYM('da', 'array'), 'TM', 0)
r3 = legume.rad_modes(SYM('om'), SYM('g', 'array'), SYM('ea', 'array'), SYM('da', 'array'), 'TE', 1)
r4 = legume.rad_modes(SYM('om'), SYM('g', 'array'), SYM('ea', 'array'), SYM('da', 'array'), 'TM', 1)
"""
    return {k: split2(v) for k, v in c.items()}


def split2(src):
    body = src.replace(C.PRE, "")
    out = C.PRE + "legume.set_backend('numpy')\n" + body
    import re
    names = []
    for l in body.splitlines():
        m = re.match(r"\(?(\w+)(?:, (\w+)\))? = ", l)
        if m:
            names += [x for x in m.groups() if x]
    for n in names:
        if n in NAMES:
            out += "A_%s = %s\n" % (n, n)
    return out + "legume.set_backend('autograd')\n" + body


def analyse(name, I, st, res):
    if st is None:
        return
    for v in NAMES:
        a, b = client_val(I, st, "A_" + v), client_val(I, st, v)
        if a is None or b is None:
            continue
        eq = Equiv(I, st)
        ok = eq.eq(a, b)
        res.count("results_compared")
        res.count("node_pairs_compared", eq.pairs)
        if not ok:
            x, y, why = eq.diff
            site = y.site or x.site
            from sa.util import func_of
            fn = func_of(site) if site else "?"
            res.find("backend-divergence", "%s:%s" % (fn, why),
                     "result %s of '%s' is computed differently under the two backends: %s "
                     "(numpy side at %s, autograd side at %s)" % (
                         v, name, why, x.site, y.site), site)
        else:
            res.sample("%s.%s: %d node pairs bisimilar" % (name, v, eq.pairs))
