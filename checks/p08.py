"""P08: every documented input has an effect (may-dependence must not be empty)."""
from sa import clients as C
from sa.util import client_val, reach, reach_ctx, syms

EXPLANATION = (
    "Dependence analysis: the value graph over-approximates every dependence, so "
    "an input that is absent from the backward slice of a result is provably "
    "ignored by it.  For every configuration the slice of every result accessor "
    "is intersected with the list of inputs the documentation says it depends on.")
RULE = "every documented input occurs in slice(result), in every configuration"
ASSUMPTIONS = ["presence in the slice does not prove the size or sign of the effect"]
REQUIRED = {"obligations": 800}

GEO = {
    "circle": ["epsr", "xc", "yc", "r"],
    "ellipse": ["epsr", "xc", "yc", "rx", "ry", "phi"],
    "poly": ["epsr", "x1", "x2", "x3", "y1", "y2", "y3"],
    "square": ["epsr", "xc", "yc", "aa"],
    "hexagon": ["epsr", "xc", "yc", "aa"],
    "fourier": ["epsr", "xc", "yc", "fas", "fbs"],
}
LATS = {"square": [], "hexagonal": [], "rectangle": ["ax", "ay"], "general": ["a1", "a2"]}

FLD = ["gme", "fe", "fh", "fd", "xy", "xz", "yz"]


def gme_case(tr, shape="circle", lat="square", layers=1, run=None, angles=False,
             backend=None, ctor=None):
    o = dict(run or {})
    base = {"gmode_tol": "SYM('gtol')", "gmode_step": "SYM('gstep')"}
    if o.get("gmode_compute") == "'interp'":
        base["gmode_npts"] = "SYM('gnpts', 'int')"
    base["eig_sigma"] = "SYM('sigma')"
    base["delta_gx"] = "SYM('dgx')"
    if o.get("gmode_compute") == "'interp'":
        base["delta_gabs"] = "SYM('dga')"
    if o.get("kz_symmetry"):
        base["symm_thr"] = "SYM('symthr')"
    base.update({"gmode_inds": "[SYM('gi0', 'int'), SYM('gi1', 'int')]"})
    base.update(o)
    src = C.gme(tr, backend, dict(layers=layers, shape=shape, lat=lat), base, angles,
                C.READ_GME + C.READ_IM + C.FIELDS + C.RAD)
    dep = GEO[shape] + LATS[lat] + ["eps_l", "eps_u", "gmax", "kp", "numeig"]
    dep += ["d%d" % i for i in range(layers)] + ["eps%d" % i for i in range(layers)]
    dep += ["gi0", "gi1", "gtol", "gstep"]
    if "gmode_npts" in base:
        dep.append("gnpts")
    dep += ["sigma", "dgx"]
    if "delta_gabs" in base:
        dep.append("dga")
    if angles:
        dep.append("angles")
    deps = {}
    for v in ("F", "V", "FI", "RC", "RG", "UB", "fe", "fh", "fd", "xy", "xz", "yz", "ri", "rs"):
        deps[v] = list(dep)
    for v in ("fe", "fh", "fd", "xy"):
        deps[v] += ["kind", "mind", "z"]
    deps["xz"] += ["kind", "mind", "y"]
    deps["yz"] += ["kind", "mind", "x"]
    for v in ("ri", "rs"):
        deps[v] += ["kind", "m0"]
    deps["ee"] = GEO[shape] + LATS[lat] + ["gmax", "z", "eps0"] + \
        (["eps1", "d0", "d1"] if layers > 1 else ["d0"])
    deps["KP"] = ["kp"]
    deps["GV"] = ["gmax"] + LATS[lat]
    if tr == "tbt":
        pass
    return src, deps


def pwe_case(pol, shape, lat="square", backend=None):
    src = C.pwe(pol, shape, lat, C.READ_PWE + C.FIELDS_PWE, backend)
    dep = GEO[shape] + LATS[lat] + ["eps0", "gmax", "kp", "numeig"]
    deps = {v: list(dep) for v in ("F", "V")}
    for v in ("fe", "fh", "fd", "xy", "xyh", "xyd"):
        deps[v] = dep + ["kind", "mind"]
    deps["ee"] = GEO[shape] + LATS[lat] + ["eps0", "gmax"]
    deps["KP"] = ["kp"]
    deps["GV"] = ["gmax"] + LATS[lat]
    return src, deps


def cases(tier):
    c = {}
    for sh in C.SHAPES:
        c["gme_abs_" + sh] = gme_case("abs", sh)
    for lat in C.LAT:
        c["gme_tbt_" + lat] = gme_case("tbt", "circle", lat, 2)
    c["gme_abs_interp"] = gme_case("abs", "circle", "general", 2, {"gmode_compute": "'interp'"})
    c["gme_tbt_interp_bg"] = gme_case("tbt", "poly", "square", 1, {"gmode_compute": "'interp'", "eps_eff": "'background'"})
    c["gme_abs_eigsh"] = gme_case("abs", run={"eig_solver": "'eigsh'"})
    c["gme_tbt_ag"] = gme_case("tbt", backend="autograd")
    c["gme_abs_ag_approx"] = gme_case("abs", run={"gradients": "'approx'"}, backend="autograd")
    for s in ("odd", "even", "both"):
        c["gme_abs_" + s] = gme_case("abs", lat="hexagonal", run={"kz_symmetry": repr(s)}, angles=True)
    for s in ("even", "both"):
        c["gme_tbt_%s_sp" % s] = gme_case("tbt", lat="square", run={"kz_symmetry": repr(s), "use_sparse": "True"}, angles=True)
    for sh in C.SHAPES:
        for p in ("te", "tm"):
            c["pwe_%s_%s" % (p, sh)] = pwe_case(p, sh)
    c["pwe_te_general"] = pwe_case("te", "circle", "general")
    c["pwe_tm_rect"] = pwe_case("tm", "circle", "rectangle")
    c["pwe_eps_eff"] = (C.pwe("te", post=C.READ_PWE, eps_eff=True),
                        {"F": ["eps_eff"]})
    for tr in ("abs", "tbt"):
        s = C.ese(trunc=tr, post=C.READ_ESE)
        dep = ["V", "aper", "M", "E0", "loss", "gmax", "kp", "numeig_ex", "r", "xc", "yc"]
        d = {"EE": dep, "EV": [x for x in dep if x not in ("E0", "loss")]}
        d["pot"] = ["V", "gmax", "r", "xc", "yc"]
        d["fw"] = d["wf"] = ["kind", "mind", "V", "gmax", "M", "kp", "aper"]
        c["ese_" + tr] = (s, d)
        s = C.pol(1, trunc=tr, post=C.READ_POL)
        dep = ["V0", "aper", "M0", "E00", "loss0", "osc0", "zq0", "gmax", "kp",
               "numeig", "numeig_ex", "eps0", "d0", "epsr", "r", "eps_l", "eps_u"]
        c["pol_" + tr] = (s, {v: dep for v in ("PE", "PI", "PV", "FX", "FP")})
    s = C.pol(2, layers=2, post=C.READ_POL)
    dep = ["V0", "M0", "E00", "loss0", "osc0", "zq0", "V1", "M1", "E01", "loss1",
           "osc1", "zq1", "aper"]
    c["pol_2qw"] = (s, {v: dep for v in ("PE", "PI", "PV", "FX", "FP")})
    c["gme_noim"] = (C.gme("abs", run={"compute_im": "False"}, post="gme.run_im()\n" + C.READ_IM),
                     {v: ["eps0", "d0", "r", "kp"] for v in ("FI", "RC", "RG", "UB")})
    c["gme_clad"] = (C.gme("abs", phcargs=dict(layers=1, clad=True),
                           post=C.READ_GME + C.READ_IM + C.FIELDS),
                     {v: ["epsrl", "epsru"] for v in ("F", "FI", "fe", "xy", "xz")})
    c["structure"] = (C.phc(layers=2, clad=True) + """
e = phc.get_eps((SYM('X', 'array'), SYM('Y', 'array'), SYM('Z', 'array')))
b = phc.get_eps_bounds()
zg = phc.z_grid(Nz=SYM('nz', 'int'), dist=SYM('dist'))
el = phc.layers[0].get_eps((SYM('X', 'array'), SYM('Y', 'array')))
ft = phc.layers[1].compute_ft(SYM('gv', 'array'))
ea = phc.layers[1].eps_avg
bz = lat.bz_path(['G', SYM('q', 'array')], [SYM('nk', 'int')])
kk = bz['kpoints']
an = bz['angles']
ind = bz['indexes']
gr = lat.xy_grid(Nx=SYM('nx', 'int'), Ny=SYM('ny', 'int'), periods=[SYM('p1', 'int'), SYM('p2', 'int')])
""", {"e": ["X", "Y", "Z", "eps0", "eps1", "eps_l", "eps_u", "d0", "d1", "epsr", "r", "xc",
            "yc", "epsrl", "epsru"],
      "b": ["eps0", "eps1", "eps_l", "eps_u", "epsr", "epsrl", "epsru"],
      "zg": ["nz", "dist", "d0", "d1"],
      "el": ["X", "Y", "eps0", "epsr", "r", "xc", "yc"],
      "ft": ["gv", "eps1", "epsr", "r", "xc", "yc"],
      "ea": ["eps1", "epsr", "r"],
      "kk": ["q", "nk"], "an": ["q", "nk"], "ind": ["nk"],
      "gr": ["nx", "ny", "p1", "p2"]})
    c["minimize"] = (C.PRE + """
from legume.minimize import Minimize
def obj(p, *a):
    return SYM('o')
m = Minimize(obj)
(p1, o1) = m.adam(SYM('p0', 'array'), Nepochs=SYM('ne', 'int'), step_size=SYM('ss'), beta1=SYM('b1'), beta2=SYM('b2'), bounds=[SYM('lo'), SYM('hi')])
""", {"p1": ["p0", "ne", "ss", "b1", "b2", "lo", "hi"]})
    c["slab"] = (C.PRE + """
(w, co) = legume.guided_modes(SYM('g', 'array'), SYM('ea', 'array'), SYM('da', 'array'), n_modes=SYM('nm', 'int'), step=SYM('st'), tol=SYM('tol'), pol='TE')
(w2, co2) = legume.guided_modes(SYM('g', 'array'), SYM('ea', 'array'), SYM('da', 'array'), n_modes=SYM('nm', 'int'), step=SYM('st'), tol=SYM('tol'), pol='TM')
r1 = legume.rad_modes(SYM('om'), SYM('g', 'array'), SYM('ea', 'array'), SYM('da', 'array'), 'TE', 0)
r2 = legume.rad_modes(SYM('om'), SYM('g', 'array'), SYM('ea', 'array'), SYM('da', 'array'), 'TM', 0)
r3 = legume.rad_modes(SYM('om'), SYM('g', 'array'), SYM('ea', 'array'), SYM('da', 'array'), 'TE', 1)
r4 = legume.rad_modes(SYM('om'), SYM('g', 'array'), SYM('ea', 'array'), SYM('da', 'array'), 'TM', 1)
""", dict([(v, ["g", "ea", "da", "nm", "st", "tol"]) for v in ("w", "co", "w2", "co2")] +
          [(v, ["om", "g", "ea", "da"]) for v in ("r1", "r2", "r3", "r4")]))
    return c


_CACHE = {}


def get(tier):
    if tier not in _CACHE:
        _CACHE[tier] = cases(tier)
    return _CACHE[tier]


def clients(tier):
    return {k: v[0] for k, v in get(tier).items()}


PERMODE = ("F", "V", "FI", "RC", "fe", "fh", "fd")


def analyse(name, I, st, res):
    if st is None:
        return
    import os
    deps = get("quick")[name][1]
    for v, want in sorted(deps.items()):
        n = client_val(I, st, v)
        if n is None:
            continue
        have = syms(reach(I, st, [n]))
        for w in want:
            res.count("obligations")
            if w not in have:
                res.find("ignored-input", "%s:%s<-%s" % (group(name), v, w),
                         "input '%s' has no effect on result '%s' in configuration '%s'" % (
                             w, v, name))
        if name.startswith("gme") and v in PERMODE:
            for par, fam in (((0, 0), "TE"), ((1, 1), "TM")):
                hv = syms(reach_ctx(I, st, [n], par))
                for w in want:
                    if w in ("gi0", "gi1", "m0", "angles"):
                        continue
                    res.count("obligations_per_mode_family")
                    if w in have and w not in hv:
                        res.find("ignored-input", "%s:%s<-%s:%s" % (group(name), v, w, fam),
                                 "input '%s' has no effect on result '%s' through the %s guided "
                                 "modes in configuration '%s'" % (w, v, fam, name))
        res.sample("%s.%s depends on all of %s" % (name, v, ", ".join(want)))


def group(name):
    return name.split("_")[0]
