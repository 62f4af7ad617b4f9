"""Synthetic client programs: the analysed entry points of the public API.

Each client is *analysed*, never executed.  `SYM(name, kind)` is an unknown
input; option values are literals so that the option space is partitioned into
a finite set of configurations, each of which is analysed for every value of
the symbolic inputs.
"""

PRE = "import legume\nSYM = __SYM__\n"

LAT = {
    "square": "lat = legume.Lattice('square')\n",
    "hexagonal": "lat = legume.Lattice('hexagonal')\n",
    "rectangle": "lat = legume.Lattice([SYM('ax'), 0.], [0., SYM('ay')])\n",
    "general": "lat = legume.Lattice(SYM('a1', 'array'), SYM('a2', 'array'))\n",
}

SHAPES = {
    "circle": "legume.Circle(eps=SYM('epsr'), x_cent=SYM('xc'), y_cent=SYM('yc'), r=SYM('r'))",
    "ellipse": "legume.Ellipse(eps=SYM('epsr'), x_cent=SYM('xc'), y_cent=SYM('yc'), "
               "rx=SYM('rx'), ry=SYM('ry'), phi=SYM('phi'))",
    "poly": "legume.Poly(eps=SYM('epsr'), x_edges=[SYM('x1'), SYM('x2'), SYM('x3')], "
            "y_edges=[SYM('y1'), SYM('y2'), SYM('y3')])",
    "square": "legume.Square(eps=SYM('epsr'), x_cent=SYM('xc'), y_cent=SYM('yc'), a=SYM('aa'))",
    "hexagon": "legume.Hexagon(eps=SYM('epsr'), x_cent=SYM('xc'), y_cent=SYM('yc'), a=SYM('aa'))",
    "fourier": "legume.FourierShape(eps=SYM('epsr'), x_cent=SYM('xc'), y_cent=SYM('yc'), "
               "f_as=SYM('fas', 'array'), f_bs=SYM('fbs', 'array'))",
}


def phc(lat="square", layers=1, shape="circle", clad=False):
    s = PRE + LAT[lat]
    s += "phc = legume.PhotCryst(lat, eps_l=SYM('eps_l'), eps_u=SYM('eps_u'))\n"
    for i in range(layers):
        s += "phc.add_layer(d=SYM('d%d'), eps_b=SYM('eps%d'))\n" % (i, i)
        s += "phc.add_shape(%s)\n" % SHAPES[shape]
    if clad:
        s += "phc.add_shape(%s, cladding=0)\n" % SHAPES[shape].replace("epsr", "epsrl")
        s += "phc.add_shape(%s, cladding=1)\n" % SHAPES[shape].replace("epsr", "epsru")
    return s


def opts(o):
    return "".join(", %s=%s" % (k, v) for k, v in o.items())


def gme(trunc="abs", backend=None, phcargs=None, run=None, angles=False, post="",
        gmax="SYM('gmax')"):
    s = phc(**(phcargs or {}))
    if backend:
        s += "legume.set_backend(%r)\n" % backend
    s += "gme = legume.GuidedModeExp(phc, gmax=%s, truncate_g=%r)\n" % (gmax, trunc)
    o = {"gmode_inds": "[0, 1, 2, 3]", "numeig": "SYM('numeig', 'int')",
         "verbose": "False"}
    o.update(run or {})
    s += "gme.run(kpoints=SYM('kp', 'kpoints')%s%s)\n" % (
        ", angles=SYM('angles', 'array')" if angles else "", opts(o))
    return s + post


READ_GME = """
F = gme.freqs
V = gme.eigvecs
KP = gme.kpoints
GV = gme.gvec
"""
READ_IM = """
FI = gme.freqs_im
RC = gme.rad_coup
RG = gme.rad_gvec
UB = gme.unbalance_sp
"""
FIELDS = """
fe = gme.ft_field_xy('E', SYM('kind', 'int'), SYM('mind', 'int'), SYM('z'))
fh = gme.ft_field_xy('H', SYM('kind', 'int'), SYM('mind', 'int'), SYM('z'))
fd = gme.ft_field_xy('D', SYM('kind', 'int'), SYM('mind', 'int'), SYM('z'))
xy = gme.get_field_xy('E', SYM('kind', 'int'), SYM('mind', 'int'), SYM('z'))
xz = gme.get_field_xz('H', SYM('kind', 'int'), SYM('mind', 'int'), SYM('y'))
yz = gme.get_field_yz('D', SYM('kind', 'int'), SYM('mind', 'int'), SYM('x'))
ee = gme.get_eps_xy(SYM('z'))
"""
RAD = """
ri = gme.compute_rad(SYM('kind', 'int'), [SYM('m0', 'int')])
rs = gme.compute_rad_sp(SYM('kind', 'int'), [SYM('m0', 'int')])
"""


def pwe(pol="te", shape="circle", lat="square", post="", backend=None, eps_eff=None):
    s = phc(lat=lat, shape=shape)
    if backend:
        s += "legume.set_backend(%r)\n" % backend
    s += "pwe = legume.PlaneWaveExp(phc.layers[0], gmax=SYM('gmax')%s)\n" % (
        ", eps_eff=SYM('eps_eff')" if eps_eff else "")
    s += "pwe.run(kpoints=SYM('kp', 'kpoints'), pol=%r, numeig=SYM('numeig', 'int'))\n" % pol
    return s + post


READ_PWE = """
F = pwe.freqs
V = pwe.eigvecs
KP = pwe.kpoints
GV = pwe.gvec
"""
FIELDS_PWE = """
fe = pwe.ft_field_xy('E', SYM('kind', 'int'), SYM('mind', 'int'))
fh = pwe.ft_field_xy('H', SYM('kind', 'int'), SYM('mind', 'int'))
fd = pwe.ft_field_xy('D', SYM('kind', 'int'), SYM('mind', 'int'))
xy = pwe.get_field_xy('E', SYM('kind', 'int'), SYM('mind', 'int'))
xyh = pwe.get_field_xy('H', SYM('kind', 'int'), SYM('mind', 'int'))
xyd = pwe.get_field_xy('D', SYM('kind', 'int'), SYM('mind', 'int'))
ee = pwe.get_eps_xy()
"""

QW = ("phc.add_qw(z=SYM('zq%d'), V_shapes=SYM('V%d'), a=SYM('aper'), M=SYM('M%d'), "
      "E0=SYM('E0%d'), loss=SYM('loss%d'), osc_str=SYM('osc%d', 'array'))\n")


def qws(n=1, layers=1, lat="square", shape="circle", trunc="abs"):
    s = phc(lat=lat, layers=layers, shape=shape)
    for i in range(n):
        s += QW % ((i,) * 6)
    return s


def ese(shape="circle", trunc="abs", post="", lat="square"):
    s = phc(lat=lat, shape=shape)
    s += ("ese = legume.ExcitonSchroedEq(phc, z=SYM('zq'), V_shapes=SYM('V'), "
          "a=SYM('aper'), M=SYM('M'), E0=SYM('E0'), loss=SYM('loss'), "
          "osc_str=SYM('osc', 'array'), gmax=SYM('gmax'), truncate_g=%r)\n" % trunc)
    s += ("ese.run(kpoints=SYM('kp', 'kpoints'), numeig_ex=SYM('numeig_ex', 'int'), "
          "verbose_ex=False)\n")
    return s + post


READ_ESE = """
EE = ese.eners
EV = ese.eigvecs
KP = ese.kpoints
GV = ese.gvec
pot = ese.get_pot_xy()
fw = ese.ft_wavef_xy(SYM('kind', 'int'), SYM('mind', 'int'))
wf = ese.get_wavef_xy(SYM('kind', 'int'), SYM('mind', 'int'))
"""


def pol(n=1, layers=1, trunc="abs", gopts=None, post="", verbose="False", pre=""):
    s = qws(n, layers)
    s += pre
    s += "pol = legume.HopfieldPol(phc, gmax=SYM('gmax'), truncate_g=%r)\n" % trunc
    o = {"'gmode_inds'": "[0, 1]", "'numeig'": "SYM('numeig', 'int')",
         "'verbose'": "False"}
    o.update(gopts or {})
    s += "go = {%s}\n" % ", ".join("%s: %s" % kv for kv in o.items())
    s += "eo = {'numeig_ex': SYM('numeig_ex', 'int'), 'verbose_ex': False}\n"
    s += ("pol.run(gme_options=go, exc_options=eo, kpoints=SYM('kp', 'kpoints'), "
          "verbose=%s)\n" % verbose)
    return s + post


READ_POL = """
PE = pol.eners
PI = pol.eners_im
PV = pol.eigvecs
FX = pol.fractions_ex
FP = pol.fractions_ph
KP = pol.kpoints
GV = pol.gvec
"""


def corpus():
    """name -> client source: the configuration partition used by the
    whole-program properties."""
    c = {}
    c["gme_tbt"] = gme("tbt", post=READ_GME + READ_IM + RAD)
    c["gme_abs"] = gme("abs", post=READ_GME + READ_IM + RAD)
    c["gme_abs_2l"] = gme("abs", phcargs=dict(layers=2, clad=True), post=READ_GME + READ_IM + FIELDS)
    c["gme_tbt_2l_interp"] = gme("tbt", phcargs=dict(layers=2, lat="general", shape="poly"),
                                 run={"gmode_compute": "'interp'"},
                                 post=READ_GME + READ_IM + FIELDS)
    c["gme_abs_interp"] = gme("abs", run={"gmode_compute": "'interp'", "eps_eff": "'background'"},
                              post=READ_GME + READ_IM)
    c["gme_tbt_ag"] = gme("tbt", "autograd", post=READ_GME + READ_IM)
    c["gme_tbt_ag_approx"] = gme("tbt", "autograd", run={"gradients": "'approx'"},
                                 post=READ_GME + READ_IM)
    c["gme_abs_ag_eigsh"] = gme("abs", "autograd", run={"eig_solver": "'eigsh'"},
                                post=READ_GME + READ_IM)
    c["gme_tbt_ag_interp"] = gme("tbt", "autograd", run={"gmode_compute": "'interp'"},
                                 post=READ_GME + READ_IM)
    c["gme_tbt_eigsh"] = gme("tbt", run={"eig_solver": "'eigsh'"}, post=READ_GME + READ_IM)
    for sym in ("odd", "even", "both"):
        for tr, sp in (("abs", "False"), ("abs", "True"), ("tbt", "False")):
            c["gme_%s_%s_%s" % (tr, sym, "sparse" if sp == "True" else "dense")] = gme(
                tr, phcargs=dict(lat="hexagonal"), angles=True,
                run={"kz_symmetry": repr(sym), "use_sparse": sp},
                post=READ_GME + READ_IM + "KS = gme.kz_symms\n")
    c["gme_abs_onlyg"] = gme("abs", run={"only_gmodes": "True"}, post=READ_GME + READ_IM)
    c["gme_noim"] = gme("abs", run={"compute_im": "False"}, post=READ_GME + """
gme.run_im()
""" + READ_IM + RAD)
    c["gme_tbt_bg"] = gme("tbt", phcargs=dict(shape="square"), run={"eps_eff": "'background'"},
                          post=READ_GME + READ_IM + FIELDS)
    for sh in SHAPES:
        for p in ("te", "tm"):
            c["pwe_%s_%s" % (p, sh)] = pwe(p, sh, post=READ_PWE + FIELDS_PWE)
    c["pwe_te_ag"] = pwe("te", backend="autograd", post=READ_PWE)
    c["pwe_tm_general"] = pwe("tm", "fourier", "general", post=READ_PWE + FIELDS_PWE)
    for tr in ("abs", "tbt"):
        c["ese_" + tr] = ese(trunc=tr, post=READ_ESE)
        c["pol_" + tr] = pol(1, trunc=tr, post=READ_POL)
    c["pol_2qw"] = pol(2, layers=2, post=READ_POL)
    return c
