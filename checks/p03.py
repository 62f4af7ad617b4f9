"""P03: no name / attribute / arity fault on any supported path."""
from sa import clients as C
from sa.scope import unresolved, tuple_raises

EXPLANATION = (
    "Definite-assignment and attribute-typestate analysis: every client program "
    "(one per supported configuration) is interpreted abstractly over all paths; "
    "a read of a name, attribute, dictionary key or module member that is "
    "undefined on every path reaching it, a call whose arguments cannot be bound, "
    "and a local that some feasible path leaves unbound are reported.  In "
    "addition every function body of the package (reached or not) has its free "
    "names resolved against its lexical scopes.")
RULE = "no undefined/unbound name, missing attribute, unbindable call on any path"
ASSUMPTIONS = ["attributes of external libraries exist as used",
               "loops over k-points, layers, modes and shapes run at least once"]
REQUIRED = {"loads": 3000, "clients_analysed": 30}

FAULT = {
    "undefined": "name '%s' is not defined in any enclosing scope",
    "unbound": "local '%s' is read before any assignment on this path",
    "missing_attr": "object %s has no attribute '%s'",
    "maybe_unbound": "local '%s' is unassigned on a feasible path",
    "bad_call": "call of %s: %s",
    "import_error": "cannot import %s",
    "none_attr": "attribute '%s' of None",
    "call_nonfunc": "%s is not callable",
    "unpack_mismatch": "cannot unpack %s values into %s targets",
    "set_readonly": "attribute '%s.%s' has no setter",
    "raise_nonexc": "raise of a value that is not an exception",
    "type_error": "%s raises TypeError",
}

VIZ = {
    "gme": C.gme("abs", post=C.READ_GME + C.READ_IM) + """
V = legume.viz
V.bands(gme, Q=True)
V.bands(gme, Q=False, cone=False, k_units=True, eV=True, a=SYM('a'), ax=SYM('ax'))
for f in ['E', 'H', 'D', 'e', 'h', 'd']:
    V.field(gme, f, SYM('kind', 'int'), SYM('m', 'int'), z=SYM('z'))
    V.field(gme, f, SYM('kind', 'int'), SYM('m', 'int'), x=SYM('x'), val='im', component='z')
    V.field(gme, f, SYM('kind', 'int'), SYM('m', 'int'), y=SYM('y'), val='abs', component='xy')
V.field(gme, 'H', SYM('kind', 'int'), SYM('m', 'int'), z=SYM('z'), periodic=False, val='abs')
V.field(gme, 'H', SYM('kind', 'int'), SYM('m', 'int'), x=SYM('x'), periodic=False, eps=False)
V.field(gme, 'H', SYM('kind', 'int'), SYM('m', 'int'), y=SYM('y'), periodic=False, cbar=False)
V.reciprocal(gme)
V.eps_ft(gme)
V.eps_ft(gme, cladding=True)
""",
    "gme_both": C.gme("abs", angles=True, run={"kz_symmetry": "'both'"}) + """
legume.viz.bands(gme, show_symmetry=True)
legume.viz.bands(gme, show_symmetry=True, Q=True)
legume.viz.bands(gme, show_symmetry=False, Q=True, k_units=True)
""",
    "pwe": C.pwe("te") + """
V = legume.viz
for f in ['E', 'H', 'D']:
    for c in ['x', 'y', 'z', 'xyz']:
        V.field(pwe, f, SYM('kind', 'int'), SYM('m', 'int'), component=c, val='abs')
V.field(pwe, 'H', SYM('kind', 'int'), SYM('m', 'int'), z=SYM('z'), periodic=False)
V.bands(pwe)
V.bands(pwe, eV=True, a=SYM("a"), k_units=True)
V.reciprocal(pwe)
V.eps_ft(pwe)
V.eps_ft(pwe, cladding=True)
V.structure(phc, cladding=True)
""",
    "structure": C.phc(layers=2, shape="poly", clad=True) + """
V = legume.viz
V.structure(phc)
V.structure(phc, xy=True, xz=True, yz=True, cladding=True)
V.structure(phc, xy=False, xz=True, cbar=False)
V.structure(phc, xy=False, yz=True, fig=SYM('fig'), gridspec=SYM('gs'), figsize=SYM('fs'))
V.eps(phc.layers[0])
V.eps(phc.layers[0], ax=SYM('ax'), cbar=True, clim=SYM('cl'))
V.eps_xz(phc)
V.eps_xz(phc, cbar=True, cax=SYM('cax'), plot=False)
V.eps_xy(phc, cbar=True, plot=False)
V.eps_yz(phc, cbar=True, plot=False)
V.shapes(phc.layers[0])
""",
    "pol": C.pol(1) + """
legume.viz.pol_bands(pol)
legume.viz.pol_bands(pol, Q=False, fraction=True, k_units=True, cone=False)
legume.viz.pol_bands(pol, Q=False, fraction=False, ax=SYM('ax'))
""",
    "ese": C.ese() + """
for v in ['re', 'im', 'abs2']:
    legume.viz.wavef(ese, SYM('kind', 'int'), SYM('m', 'int'), val=v)
legume.viz.pot_ft(ese)
legume.viz.pot_ft(ese, cbar=False, figsize=SYM('fs'), fig=SYM('fig'), gridspec=SYM('gs'))
legume.viz.reciprocal(ese)
""",
}

MISC = {}
for _s in C.SHAPES:
    MISC["shape_" + _s] = C.phc(shape=_s) + """
s = phc.layers[0].shapes[0]
t = str(s)
f = s.compute_ft(SYM('gv', 'array'))
i = s.is_inside(SYM('x', 'array'), SYM('y', 'array'))
e = phc.layers[0].get_eps((SYM('x', 'array'), SYM('y', 'array')))
""" + ("s.rotate(SYM('ang'))\n" if _s in ("poly", "square", "hexagon", "fourier") else "")
MISC["repr"] = C.qws(1, 2) + """
a = [str(lat), str(phc), str(phc.layers[0]), str(phc.claddings[0]), str(phc.qws[0])]
gme = legume.GuidedModeExp(phc, gmax=SYM('gmax'))
pwe = legume.PlaneWaveExp(phc.layers[0], gmax=SYM('gmax'))
b = [str(gme), str(pwe), str(legume.backend), str(legume.print_backend)]
pol = legume.HopfieldPol(phc, gmax=SYM('gmax'))
c = str(pol)
"""
MISC["structure_api"] = C.PRE + """
lats = [legume.Lattice('square'), legume.Lattice('hexagonal'),
        legume.Lattice([1., 0.], [0., SYM('ay')]), legume.Lattice(SYM('a1', 'array'), SYM('a2', 'array'))]
lat = lats[0]
g = lat.xy_grid()
g2 = lat.xy_grid(Nx=SYM('nx', 'int'), Ny=SYM('ny', 'int'), periods=SYM('per', 'int'))
g3 = lat.xy_grid(periods=[SYM('p1', 'int'), SYM('p2', 'int')])
p = lat.bz_path(['G', 'X', 'M', 'G'], [SYM('n', 'int')])
p2 = lat.bz_path([SYM('q1', 'array'), 'X', SYM('q2', 'array')], [SYM('n1', 'int'), SYM('n2', 'int')])
p3 = lats[1].bz_path(['G', 'K', 'M'], [10, 20])
phc = legume.PhotCryst(lat)
phc.add_layer(d=SYM('d'))
phc.add_shape([legume.Circle(eps=SYM('e'))], layer=0)
phc.add_shape(legume.Circle(eps=SYM('e')), cladding='l')
phc.add_shape(legume.Circle(eps=SYM('e')), cladding='u')
z = phc.z_grid()
b = phc.get_eps_bounds()
e = phc.get_eps((SYM('x', 'array'), SYM('y', 'array'), SYM('z', 'array')))
phc.layers[0].eps_eff = SYM('ee')
x = phc.layers[0].eps_eff
"""
MISC["gds"] = C.phc(shape="poly") + """
phc.add_shape(legume.Circle(eps=SYM('e2'), r=SYM('r')))
legume.gds.generate_gds(phc, 'out.gds', unit=SYM('u'), tolerance=SYM('t'))
legume.gds.generate_gds_raster(lat, SYM('raster', 'array'), 'out.gds')
legume.gds.generate_gds_raster(lat, SYM('raster', 'array'), 'out.gds', cell_bound=False, levels=[SYM('l1'), SYM('l2')])
"""
MISC["minimize"] = C.PRE + """
from legume.minimize import Minimize
def obj(p, *args):
    return SYM('o')
def cbk(m):
    return m.of_list
m = Minimize(obj)
a = m.adam(SYM('p', 'array'), Nepochs=SYM('n', 'int'), bounds=[0., 1.], disp_p=True, callback=cbk, args=(SYM('x'),), pass_self=True)
b = m.adam(SYM('p', 'array'), Nepochs=SYM('n', 'int'))
c = m.lbfgs(SYM('p', 'array'), Nepochs=SYM('n', 'int'), bounds=[(0., 1.), (0., 1.)], callback=cbk, res=True)
d = m.lbfgs(SYM('p', 'array'), pass_self=True, args=(SYM('x'),))
of, cb = None, None
"""
MISC["backends"] = C.PRE + """
legume.set_print_backend('base')
legume.set_print_backend('rich')
legume.set_backend('autograd')
legume.set_backend('numpy')
"""
for _b in ("base", "rich"):
    MISC["print_" + _b] = C.qws(1) + """
legume.set_print_backend(%r)
gme = legume.GuidedModeExp(phc, gmax=SYM('gmax'), truncate_g='abs')
gme.run(kpoints=SYM('kp', 'kpoints'), gmode_inds=[0, 1], numeig=SYM('n', 'int'), verbose=True)
gme.run(kpoints=SYM('kp', 'kpoints'), gmode_inds=[0, 1], numeig=SYM('n', 'int'), verbose=True, kz_symmetry='both', angles=SYM('ang', 'array'))
pol = legume.HopfieldPol(phc, gmax=SYM('gmax'), truncate_g='abs')
pol.run(gme_options={'verbose': True}, exc_options={'verbose_ex': True}, kpoints=SYM('kp', 'kpoints'), verbose=True)
ese = legume.ExcitonSchroedEq(phc, z=SYM('zq'), V_shapes=SYM('V'), a=SYM('aper'), M=SYM('M'), E0=SYM('E0'), loss=SYM('loss'), osc_str=SYM('osc', 'array'))
ese.run(kpoints=SYM('kp', 'kpoints'), verbose_ex=True)
""" % _b
MISC["slab"] = C.PRE + """
w, c = legume.guided_modes(SYM('garr', 'array'), SYM('epsa', 'array'), SYM('darr', 'array'), n_modes=2, pol='TE')
w2, c2 = legume.guided_modes(SYM('garr', 'array'), SYM('epsa', 'array'), SYM('darr', 'array'), n_modes=2, pol='TM')
for pol in ['TE', 'TM']:
    for clad in [0, 1]:
        r = legume.rad_modes(SYM('om'), SYM('gv', 'array'), SYM('epsa', 'array'), SYM('darr', 'array'), pol, clad)
"""
MISC["utils"] = C.PRE + """
from legume import utils
a = utils.grad_num(SYM('fn'), SYM('arg', 'array'))
b = utils.ftinv(SYM('ft', 'array'), SYM('gv', 'array'), SYM('xg', 'array'), SYM('yg', 'array'))
c = utils.find_nearest(SYM('arr', 'array'), SYM('v'), SYM('n', 'int'))
d = utils.RedhefferStar(SYM('SA', 'array'), SYM('SB', 'array'))
e = utils.toeplitz_block(SYM('n', 'int'), SYM('T1', 'array'), SYM('T2', 'array'))
f = utils.extend(SYM('vals', 'array'), SYM('inds', 'array'), SYM('sh', 'int'))
g = utils.from_freq_to_e(SYM('a'))
h = utils.ft2square(legume.Lattice('square'), SYM('ft', 'array'), SYM('gv', 'array'))
from legume import print_utils
i = print_utils.verbose_print(SYM('t', 'str'), SYM('v', 'bool'))
j = utils.vjp_maker_num(SYM('fn'), [0, 1], [SYM('s1'), SYM('s2')])
"""


def clients(tier):
    c = {"program": None}
    for k, v in C.corpus().items():
        c[k] = v
    for k, v in VIZ.items():
        c["viz_" + k] = v
    c.update(MISC)
    return c


def analyse_program(name, prog, res):
    for m in prog.modules.values():
        u, cnt = unresolved(m)
        res.count("loads", cnt["loads"])
        res.count("functions_resolved", cnt["functions"])
        for q, nm, line in u:
            res.find("undefined-name", "%s:%s" % (q, nm),
                     "name '%s' used in %s is not defined in any enclosing scope" % (
                         nm, q), (m.rel, line, q))


def analyse(name, I, st, res):
    for e in I.events:
        if e.kind not in FAULT or e.site[0] == "<client>":
            if e.kind in ("missing_attr", "bad_call", "import_error") and \
                    e.site[0] == "<client>":
                # public API vanished or changed signature
                res.find("api-%s" % e.kind, "%s" % (e.data,),
                         "client use of the public API fails: %s" % (e.data,), e.site)
            continue
        res.count("fault_candidates")
        if handled(I, e):
            continue
        d = e.data if isinstance(e.data, tuple) else (e.data,)
        try:
            msg = FAULT[e.kind] % tuple(d[:FAULT[e.kind].count("%s")])
        except TypeError:
            msg = "%s %s" % (e.kind, d)
        cons = "%s:%s" % (e.site[2].split(":")[-1], d[-1] if e.kind != "bad_call" else d[0])
        rule = {"undefined": "undefined-name"}.get(e.kind, e.kind)
        res.find(rule, cons, msg + (" [call chain %s]" % " > ".join(
            q.split(":")[-1] for q in e.stack[-4:])), e.site)
    res.count("paths_checked", len(I.inlined))


def handled(I, e):
    """The implicit exception is caught by a handler in the library."""
    want = {"missing_attr": "AttributeError", "undefined": "NameError",
            "unbound": "UnboundLocalError", "none_attr": "AttributeError",
            "bad_call": "TypeError", "import_error": "ImportError",
            "type_error": "TypeError", "raise_nonexc": "TypeError"}.get(e.kind)
    for h in I.handled_sites:
        if h == (want, e.site):
            return True
    return False
