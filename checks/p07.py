"""P07: unsupported requests are rejected by an explicit raise."""
from sa import clients as C

EXPLANATION = (
    "Reachability analysis of the option space: for every enumerated option a "
    "client passes a value outside the documented set; the analysis must prove "
    "that no path reaches the end of the client (every path leaves through an "
    "exception) and that at least one of the leaving paths is an explicit raise "
    "statement of the library.  For the documented values the client must "
    "complete.  For numeric requests the guard is looked up: an explicit raise "
    "whose path condition depends on the requested quantity, and requests with "
    "literal sizes just inside and just outside the limit (modes per symmetry "
    "sector, mode indices, angles per lattice) are decided from the extents of "
    "the symbolic matrices: just outside must reach a raise, just inside must not.")
RULE = "bad value: end of client unreachable, explicit raise reached; good value: completes"
ASSUMPTIONS = ["loops over layers, k-points and modes execute at least once"]
REQUIRED = {"rejections_checked": 20, "acceptances_checked": 20}
ALLOW_DEAD = True

KP = "SYM('kp', 'kpoints')"
BAD = "'no-such-option'"


def gme_ctor(tr="abs"):
    return C.phc() + "gme = legume.GuidedModeExp(phc, gmax=SYM('gmax'), truncate_g=%r)\n" % tr


def run(extra, tr="abs", ang=False, post=""):
    return gme_ctor(tr) + (
        "gme.run(kpoints=%s%s, gmode_inds=[0, 1], numeig=SYM('n', 'int'), verbose=False%s)\n"
        % (KP, ", angles=SYM('ang', 'array')" if ang else "",
           "".join(", %s=%s" % kv for kv in extra.items()))) + "F = gme.freqs\n" + post


def bad_clients():
    b = {}
    for tr in ("abs", "tbt"):
        for o in ("gmode_compute", "gradients", "eig_solver", "eps_eff", "use_sparse",
                  "kz_symmetry"):
            b["%s_%s" % (o, tr)] = run({o: BAD}, tr, o == "kz_symmetry")
    for s in ("'odd'", "'even'", "'both'"):
        b["eigsh_with_symmetry_%s" % s.strip("'")] = run(
            {"kz_symmetry": s, "eig_solver": "'eigsh'"}, "abs", True)
        b["symmetry_without_angles_%s" % s.strip("'")] = run({"kz_symmetry": s}, "abs", False)
    b["only_gmodes_tbt"] = run({"only_gmodes": "True"}, "tbt")
    b["unknown_keyword"] = run({"no_such_keyword": "1"})
    b["truncate_g"] = gme_ctor("no-such-option")
    b["ese_truncate_g"] = C.ese(trunc="no-such-option")
    b["pol_truncate_g"] = C.pol(1, trunc="no-such-option")
    for f in ("xy", "xz", "yz"):
        b["field_component_%s" % f] = run({}, "abs", post="gme.get_field_%s('E', 0, 0, SYM('p'), component='w')\n" % f)
    b["pwe_field_component"] = C.pwe("te") + "pwe.get_field_xy('E', 0, 0, component='w')\n"
    for nm in ("'no-such-option'", "None"):
        b["pwe_pol_%s" % nm.strip("'")] = C.pwe("te").replace("pol='te'", "pol=" + nm)
    b["backend"] = C.PRE + "legume.set_backend('no-such-option')\n"
    b["print_backend"] = C.PRE + "legume.set_print_backend('no-such-option')\n"
    b["lattice_name"] = C.PRE + "lat = legume.Lattice('no-such-option')\n"
    b["lattice_no_args"] = C.PRE + "lat = legume.Lattice()\n"
    b["lattice_three_args"] = C.PRE + "lat = legume.Lattice([1., 0.], [0., 1.], [1., 1.])\n"
    b["bz_label"] = C.PRE + C.LAT["square"] + "lat.bz_path(['G', 'Q'], [10])\n"
    b["bz_label_K_square"] = C.PRE + C.LAT["square"] + "lat.bz_path(['G', 'K'], [10])\n"
    b["bz_one_point"] = C.PRE + C.LAT["square"] + "lat.bz_path(['G'], [10])\n"
    b["bz_wrong_ns"] = C.PRE + C.LAT["square"] + "lat.bz_path(['G', 'X', 'M', 'G'], [10, 10])\n"
    b["cladding_index"] = C.phc() + "phc.add_shape(legume.Circle(), cladding=2)\n"
    b["cladding_name"] = C.phc() + "phc.add_shape(legume.Circle(), cladding='middle')\n"
    b["layer_index"] = C.phc() + "phc.add_shape(legume.Circle(), layer=5)\n"
    b["not_a_shape"] = C.phc() + "phc.add_shape('circle')\n"
    b["list_with_non_shape"] = C.phc() + "phc.add_shape([legume.Circle(), 3.])\n"
    b["layer_type"] = C.PRE + C.LAT["square"] + ("phc = legume.PhotCryst(lat)\n"
                                                 "phc.add_layer(d=SYM('d'), layer_type='no-such-option')\n")
    b["custom_eps_unset"] = run({"eps_eff": "'custom'"}, "abs")
    b["rad_before_run"] = gme_ctor() + "gme.compute_rad(0, [0])\n"
    b["run_im_before_run"] = gme_ctor() + "gme.run_im()\n"
    b["viz_field_no_slice"] = run({}, post="legume.viz.field(gme, 'e', 0, 0)\n")
    b["viz_field_two_slices"] = run({}, post="legume.viz.field(gme, 'e', 0, 0, x=0., z=0.)\n")
    b["viz_field_name"] = run({}, post="legume.viz.field(gme, 'q', 0, 0, z=0.)\n")
    b["slab_pol"] = C.PRE + ("legume.guided_modes(SYM('g', 'array'), SYM('ea', 'array'), "
                             "SYM('da', 'array'), pol='no-such-option')\n")
    b["rad_modes_pol"] = C.PRE + ("legume.rad_modes(SYM('om'), SYM('g', 'array'), SYM('ea', 'array'), "
                                  "SYM('da', 'array'), 'no-such-option', 0)\n")
    b["rad_modes_clad"] = C.PRE + ("legume.rad_modes(SYM('om'), SYM('g', 'array'), SYM('ea', 'array'), "
                                   "SYM('da', 'array'), 'TE', 2)\n")
    V = "import legume.viz\n"
    b["bz_too_many_ns"] = C.PRE + C.LAT["square"] + "lat.bz_path(['G', 'X', 'M', 'G'], [10, 5, 10, 5])\n"
    b["bz_unknown_point_type"] = C.PRE + C.LAT["square"] + "lat.bz_path(['G', 3], [10])\n"
    b["bz_x_hexagonal"] = C.PRE + C.LAT["hexagonal"] + "lat.bz_path(['G', 'X'], [10])\n"
    b["freeform_transform"] = C.PRE + C.LAT["square"] + (
        "legume.phc.FreeformLayer(lat, 0., SYM('d')).compute_ft(SYM('gv', 'array'))\n")
    b["structure_of_lattice"] = V + C.phc() + "legume.viz.structure(lat)\n"
    b["eps_ft_of_phc"] = V + C.phc() + "legume.viz.eps_ft(phc)\n"
    b["pot_ft_of_phc"] = V + C.phc() + "legume.viz.pot_ft(phc)\n"
    b["wavef_of_phc"] = V + C.phc() + "legume.viz.wavef(phc, 0, 0)\n"
    b["field_of_phc"] = V + C.phc() + "legume.viz.field(phc, 'e', 0, 0, z=0.)\n"
    b["wavef_val"] = C.ese() + "import legume.viz\nlegume.viz.wavef(ese, 0, 0, val='q')\n"
    b["viz_field_val"] = run({}, post="legume.viz.field(gme, 'e', 0, 0, z=0., val='q')\n")
    b["viz_bands_ev_without_a"] = run({}, post="legume.viz.bands(gme, eV=True)\n")
    b["structure_half_grid"] = V + C.phc() + "legume.viz.structure(phc, gridspec=SYM('gs'))\n"
    for c in ("x", "y"):
        b["viz_field_pwe_%s" % c] = C.pwe("te") + "import legume.viz\nlegume.viz.field(pwe, 'e', 0, 0, %s=0.)\n" % c
    for fld in ("'J'", "''"):
        for f in ("xy", "xz", "yz"):
            b["gme_field_%s_%s" % (fld.strip("'"), f)] = run({}, post="gme.get_field_%s(%s, 0, 0, SYM('p'))\n" % (f, fld))
        b["pwe_field_%s" % fld.strip("'")] = C.pwe("te") + "pwe.get_field_xy(%s, 0, 0)\n" % fld
    return b


def good_clients():
    g = {}
    g["opt_abs"] = run({"gmode_compute": "'interp'", "gradients": "'approx'"}, "abs")
    for tr in ("abs", "tbt"):
        for o, vals in (("gmode_compute", ("'exact'", "'interp'")),
                        ("gradients", ("'exact'", "'approx'")),
                        ("eig_solver", ("'eigh'", "'eigsh'")),
                        ("eps_eff", ("'average'", "'background'")),
                        ("use_sparse", ("True", "False"))):
            for v in vals:
                g["%s_%s_%s" % (o, v.strip("'"), tr)] = run({o: v}, tr)
        for s in ("None", "'odd'", "'even'", "'both'"):
            g["kz_%s_%s" % (s.strip("'"), tr)] = run({"kz_symmetry": s}, tr, True)
    g["only_gmodes_abs"] = run({"only_gmodes": "True"}, "abs")
    g["pwe_te"] = C.pwe("te")
    g["pwe_tm"] = C.pwe("tm")
    g["pwe_TE"] = C.pwe("TE")
    g["ese"] = C.ese()
    g["pol"] = C.pol()
    g["cladding_l"] = C.phc() + "phc.add_shape(legume.Circle(), cladding='l')\nphc.add_shape(legume.Circle(), cladding='u')\n"
    g["slab"] = C.PRE + "\n".join(
        "legume.guided_modes(SYM('g', 'array'), SYM('ea', 'array'), SYM('da', 'array'), pol=%r)\n"
        "legume.rad_modes(SYM('om'), SYM('g', 'array'), SYM('ea', 'array'), SYM('da', 'array'), %r, 0)\n"
        "legume.rad_modes(SYM('om'), SYM('g', 'array'), SYM('ea', 'array'), SYM('da', 'array'), %r, 1)" % (p, p, p)
        for p in ("TE", "TM", "te", "tm")) + "\n"
    g["bz"] = C.PRE + C.LAT["square"] + "lat.bz_path(['G', 'X', 'M', 'G'], [10])\n"
    g["bz_hex"] = C.PRE + C.LAT["hexagonal"] + "lat.bz_path(['G', 'K', 'M', 'G'], [10, 5, 10])\n"
    return g


GUARDS = {
    "numeig_too_large": (run({}), ["n"]),
    "numeig_too_large_odd": (run({"kz_symmetry": "'odd'"}, "abs", True), ["n"]),
    "numeig_too_large_even": (run({"kz_symmetry": "'even'"}, "abs", True), ["n"]),
    "unsupported_angle": (run({"kz_symmetry": "'both'"}, "abs", True), ["ang"]),
    "mode_out_of_range": (run({}, post="r = gme.compute_rad(SYM('kind', 'int'), [SYM('m', 'int')])\n"), ["m"]),
    "mode_out_of_range_sp": (run({}, post="r = gme.compute_rad_sp(SYM('kind', 'int'), [SYM('m', 'int')])\n"), ["m"]),
    "qw_outside": (C.qws(1), ["zq0"]),
    "layer_index": (C.phc() + "phc.add_shape(legume.Circle(), layer=SYM('li', 'int'))\n", ["li"]),
    "mesh_shapes_phc": (C.phc() + "phc.get_eps((SYM('x', 'array'), SYM('y', 'array'), SYM('z', 'array')))\n", ["y"]),
    "mesh_shapes_phc_z": (C.phc() + "phc.get_eps((SYM('x', 'array'), SYM('y', 'array'), SYM('z', 'array')))\n", ["z"]),
    "mesh_shapes_layer": (C.phc() + "phc.layers[0].get_eps((SYM('x', 'array'), SYM('y', 'array')))\n", ["y"]),
}


NUM_RUN = """import legume
import numpy as np
import legume.gme.gme as module
SYM = __SYM__
lat = legume.Lattice(%s)
phc = legume.PhotCryst(lat)
phc.add_layer(d=0.5, eps_b=12.)
def nearest(array, value, n):
    return np.array(list(range(NUM)))
NE, NO = 2, 3
class Exp(legume.GuidedModeExp):
    def _construct_mat(self, kind):
        return SYM('H', 'array')
    def _separate(self, mat, symm, ik):
        self.even_counts.append(NE)
        self.odd_counts.append(NO)
        return SYM('E', 'array'), SYM('O', 'array'), SYM('V', 'array')
    def _separate_hamiltonian_dense(self, mat, symm_mat, ik):
        return self._separate(mat, symm_mat, ik)
    def _separate_hamiltonian_sparse(self, mat, symm_mat, ik):
        return self._separate(mat, symm_mat, ik)
module.find_nearest = nearest
gme = Exp(phc, gmax=1.01)
gme.run(kpoints=SYM('kp', 'array'), angles=ANGLES, numeig=NUM, compute_im=False, verbose=False, kz_symmetry=SYMM,
        use_sparse=SPARSE)
F = gme.freqs
"""
LATS = {"square": "'square'", "hexagonal": "'hexagonal'", "rectangular": "[1., 0.], [0., 1.5]",
        "general": "[1., 0.], [0.3, 1.2]"}


def num_clients():
    """Requests with concrete sizes: 'rej' must raise, 'acc' must complete."""
    c = {}
    for sp in (False, True):
        for symm, ok, bad in (("None", 5, 6), ("'odd'", 3, 4), ("'even'", 2, 3), ("'both'", 5, 6)):
            for kind, n in (("acc", ok), ("rej", bad)):
                if symm == "None" and sp:
                    continue
                c["%s_numeig_%s%s" % (kind, symm.strip("'"), "_sp" if sp else "")] = (
                    "NUM, SYMM, SPARSE, ANGLES = %d, %s, %r, [0.]\n" % (n, symm, sp) + NUM_RUN % LATS["square"])
    for lat, good, bad in (("square", ("0.", "45.", "-90."), ("20.", "30.")),
                           ("hexagonal", ("0.", "30.", "-60."), ("20.", "45.")),
                           ("rectangular", ("0.", "90."), ("20.", "45.")),
                           ("general", (), ("0.",))):
        for kind, vals in (("acc", good), ("rej", bad)):
            for i, a in enumerate(vals):
                c["%s_angle_%s_%d" % (kind, lat, i)] = (
                    "NUM, SYMM, SPARSE, ANGLES = 2, 'both', False, [%s]\n" % a + NUM_RUN % LATS[lat])
    for mode in (1, 2, 3):
        for fn in ("compute_rad", "compute_rad_sp"):
            c["%s_mode_%s_%d" % ("rej" if mode > 1 else "acc", fn, mode)] = run({}).replace(
                "SYM('n', 'int')", "2") + "r = gme.%s(0, [0, SYM('m', 'int')])\n" % fn
    for lat, pts in (("rectangular", "XMK"), ("general", "XMK"), ("square", "K"), ("hexagonal", "X")):
        for pt in pts:
            c["rej_label_%s_%s" % (pt, lat)] = "import legume\nlat = legume.Lattice(%s)\nb = lat.bz_path(['G', %r], [4])\n" % (
                LATS[lat], pt)
    for kind, sh in (("rej", "(3, 5)"), ("rej", "(2,)"), ("rej", "(5, 1)"), ("acc", "(2, 5)"), ("acc", "(5, 2)")):
        c["%s_vectors_%s" % (kind, "".join(x for x in sh if x.isdigit()))] = (
            "import legume\nimport numpy as np\ns = legume.Circle(r=0.2)\nf = s.compute_ft(np.ones(%s))\n" % sh)
    for kind, a in (("rej", "[0.1, 0.4, 0.]"), ("acc", "[1., 0.1, 0.2]")):
        c[kind + "_fourier"] = "import legume\ns = legume.FourierShape(f_as=np.array(%s), npts=9)\n" % a
        c[kind + "_fourier"] = c[kind + "_fourier"].replace("import legume\n", "import legume\nimport numpy as np\n")
    for kind, a in (("rej", "[1., 2.]"), ("rej", "(1., 2., 3.)"), ("rej", "[1., 2., 3., 4.]"), ("acc", "[1., 2., 3.]"),
                    ("acc", "np.array([1., 2., 3.])")):
        c["%s_osc_%d%s" % (kind, a.count(","), {"[": "", "(": "_tuple", "n": "_array"}[a[0]])] = ("import legume\nimport numpy as np\n"
                                                   "phc = legume.PhotCryst(legume.Lattice('square'))\n"
                                                   "phc.add_layer(d=0.5, eps_b=12.)\n"
                                                   "e = legume.ExcitonSchroedEq(phc, z=0.25, V_shapes=0.1, a=1e-6, M=1e-31, E0=1.5, "
                                                   "loss=1e-3, gmax=1.01, osc_str=%s)\n" % a)
    for kind, z in (("rej", "-0.1"), ("rej", "0.6"), ("acc", "0.25")):
        c["%s_height_%s" % (kind, z)] = ("import legume\nphc = legume.PhotCryst(legume.Lattice('square'))\n"
                                         "phc.add_layer(d=0.5, eps_b=12.)\ne = legume.ExcitonSchroedEq(phc, z=%s, V_shapes=0.1, a=1e-6, "
                                         "M=1e-31, E0=1.5, loss=1e-3, gmax=1.01)\n" % z)
    for kind, a in (("rej", (1e-6, 2e-6)), ("acc", (1e-6, 1e-6))):
        c[kind + "_wells"] = ("import legume\nphc = legume.PhotCryst(legume.Lattice('square'))\n"
                              "phc.add_layer(d=0.5, eps_b=12.)\n"
                              "kw = dict(V_shapes=0.1, M=1e-31, E0=1.5, loss=1e-3, osc_str=[1., 1., 0.])\n"
                              "phc.add_qw(z=0.1, a=%s, **kw)\nphc.add_qw(z=0.2, a=%s, **kw)\n"
                              "p = legume.HopfieldPol(phc, gmax=1.01)\n" % a)
    c["rej_no_well"] = ("import legume\nphc = legume.PhotCryst(legume.Lattice('square'))\n"
                        "phc.add_layer(d=0.5, eps_b=12.)\np = legume.HopfieldPol(phc, gmax=1.01)\n")
    for kind, b in (("rej", "[0., 1., 2.]"), ("rej", "[(0., 1.)]"), ("rej", "[(0., 1.), (0., 1., 2.)]"),
                    ("acc", "[0., 1.]"), ("acc", "[(0., 1.), (0., 2.)]")):
        c["%s_bounds_%s" % (kind, "".join(x for x in b.replace("(", "p").replace(",", "c") if x in "pc"))] = ("import legume\nfrom legume.minimize import Minimize\nSYM = __SYM__\n"
                                              "m = Minimize(lambda p: SYM('o'))\n"
                                              "r = m.adam([0.5, 0.5], Nepochs=1, bounds=%s)\n" % b)
    for nm, a in (("rej_neg", "-1e-6"), ("acc_one", "1e-6")):
        c[nm + "_f2e"] = "from legume.utils import from_freq_to_e\nx = from_freq_to_e(%s)\n" % a
    return c


NUM_DECL = {"kp": {"shape": (2, 1)}, "H": {"shape": (5, 5), "real": False}, "E": {"shape": (2, 2), "real": False},
            "O": {"shape": (3, 3), "real": False}, "V": {"shape": (5, 5)}, "positive": {"positive": True}}


def clients(tier):
    c = {}
    for k, v in bad_clients().items():
        c["bad_" + k] = v
    for k, v in good_clients().items():
        c["good_" + k] = v
    for k, (v, _) in GUARDS.items():
        c["guard_" + k] = v
    c.update(num_clients())
    return c


def prepare(name, I):
    if name[:4] in ("acc_", "rej_"):
        from sa.alg import Oracle
        d = dict(NUM_DECL)
        if "_mode_" in name:
            d["m"] = {"value": lambda A, idx: A.num(int(name[-1]))}
        I.oracle = Oracle(I, d)
    else:
        I.nonempty = True


def analyse(name, I, st, res):
    from sa.util import reach, syms
    from sa.engine import pc_list
    kind, case = name.split("_", 1)
    raises = [e for e in I.events if e.kind == "raise" and e.site[0] != "<client>"]
    explicit = [e for e in raises if not e.data[1]]
    if kind == "rej":
        res.count("sized_rejections_checked")
        open_ = [e for e in explicit if pc_list(e.pc)]
        if case.startswith("mode_"):
            # the run that precedes the request does not know the mode
            open_ = [e for e in open_ if not (e.stack and e.stack[0].split(".")[-1] in ("run", "__init__", "add_shape"))]
        if st is not None and not open_:
            res.find("accepted", case, "the request '%s', which the library cannot honour, completes: no raise "
                     "is reached" % case)
        elif st is None:
            res.count("sized_rejections_certain")
            if explicit:
                res.sample("%s -> raise at %s:%s" % (case, explicit[-1].site[0], explicit[-1].site[1]))
    elif kind == "acc":
        res.count("sized_acceptances_checked")
        if st is None:
            res.find("rejected", case, "the admissible request '%s' cannot complete" % case,
                     raises[-1].site if raises else None)
    elif kind == "bad":
        res.count("rejections_checked")
        if st is not None:
            res.find("accepted", case, "the unsupported request '%s' is not rejected: the "
                     "end of the client program is reachable" % case)
        elif not explicit and case != "unknown_keyword":
            ev = [e for e in I.events if e.kind in ("missing_attr", "type_error", "undefined",
                                                    "bad_call", "none_attr", "key_error",
                                                    "unbound", "index_error")]
            res.find("incidental-fault", case, "the unsupported request '%s' fails only by an "
                     "incidental fault (%s)" % (case, ev[-1].kind if ev else "?"),
                     ev[-1].site if ev else None)
        else:
            if explicit:
                res.sample("%s -> raise at %s:%s" % (case, explicit[-1].site[0], explicit[-1].site[1]))
    elif kind == "good":
        res.count("acceptances_checked")
        if st is None:
            site = explicit[-1].site if explicit else (raises[-1].site if raises else None)
            res.find("rejected", case, "the documented request '%s' cannot complete" % case, site)
    else:
        res.count("guards_checked")
        want = GUARDS[case][1]
        ok = False
        for e in explicit:
            conds = [c for c, pol, site in pc_list(e.pc)]
            sy = syms(reach(I, st, conds))
            if all(w in sy for w in want) and any(
                    all(w in syms(reach(I, st, [c])) for w in want) for c in conds):
                ok = True
                res.sample("%s guarded by the raise at %s:%s" % (case, e.site[0], e.site[1]))
                break
        if not ok:
            res.find("missing-guard", case, "no explicit raise guards '%s' (no raise whose "
                     "condition depends on %s)" % (case, ", ".join(want)))
