"""P01: results of a run do not depend on earlier runs (dependence analysis)."""
from sa import clients as C
from sa.equiv import Equiv
from sa.util import client_val, reach, syms, path_to, explain, func_of

EXPLANATION = (
    "Two-run clients: the first run receives inputs named r1_*, the second run "
    "is the observed one.  The backward slice (data, phi conditions, heap "
    "contents) of every result accessor after the second run is computed on the "
    "interprocedural value graph; a slice that reaches an r1_* input is a stale "
    "dependence.")
RULE = "slice(result of run 2) contains no input of run 1 / of another object"
ASSUMPTIONS = ["numpy/scipy calls are pure functions of their arguments",
               "the structure is not edited between the two runs"]
REQUIRED = {"results_sliced": 30, "results_reread": 60}

R1 = {"gmode_inds": "[SYM('r1_gi0', 'int'), SYM('r1_gi1', 'int')]",
      "numeig": "SYM('r1_numeig', 'int')", "verbose": "False",
      "gmode_npts": "SYM('r1_npts', 'int')", "gmode_step": "SYM('r1_step')",
      "gmode_tol": "SYM('r1_tol')", "eig_sigma": "SYM('r1_sigma')",
      "compute_im": "SYM('r1_im', 'bool')"}


def two(trunc, o1, o2, read, clear=""):
    s = C.phc(layers=2)
    s += "gme = legume.GuidedModeExp(phc, gmax=SYM('gmax'), truncate_g=%r)\n" % trunc
    a = dict(R1)
    a.update(o1)
    ang = ", angles=SYM('r1_ang', 'array')" if "kz_symmetry" in a else ""
    s += "gme.run(kpoints=SYM('r1_kp', 'kpoints')%s%s)\n" % (ang, C.opts(a))
    s += clear
    b = {"gmode_inds": "[0, 1]", "numeig": "SYM('numeig', 'int')", "verbose": "False"}
    b.update(o2)
    ang = ", angles=SYM('ang', 'array')" if "kz_symmetry" in b else ""
    s += "gme.run(kpoints=SYM('kp', 'kpoints')%s%s)\n" % (ang, C.opts(b))
    return s + read


GME_ALL = C.READ_GME + C.READ_IM + "KS = gme.kz_symms\n" + C.FIELDS


def clients(tier):
    c = {}
    og = {"only_gmodes": "SYM('r1_og', 'bool')"}
    c["gme_abs"] = two("abs", og, {}, GME_ALL)
    c["gme_tbt"] = two("tbt", {}, {}, GME_ALL)
    c["gme_noim"] = two("abs", og, {"compute_im": "False"}, GME_ALL)
    c["gme_onlyg"] = two("abs", og, {"only_gmodes": "True"},
                         C.READ_GME + C.READ_IM)
    c["gme_sym_then_none"] = two("abs", {"kz_symmetry": "'both'"}, {}, GME_ALL)
    c["gme_sym"] = two("abs", {"kz_symmetry": "'odd'"}, {"kz_symmetry": "'both'"}, GME_ALL)
    c["gme_interp"] = two("tbt", {"gmode_compute": "'interp'"}, {}, GME_ALL)
    c["gme_interp2"] = two("abs", {"eps_eff": "'background'"},
                           {"gmode_compute": "'interp'"}, C.READ_GME + C.READ_IM)
    c["gme_rad"] = two("abs", {}, {"compute_im": "False"},
                       "gme.run_im()\n" + C.READ_IM + C.RAD,
                       "t0 = gme.compute_rad(SYM('r1_kind', 'int'), [SYM('r1_m', 'int')])\n"
                       "t1 = gme.get_field_xy('E', SYM('r1_kind', 'int'), SYM('r1_m', 'int'), SYM('r1_z'))\n"
                       "t2 = gme.get_eps_xy(SYM('r1_z'))\n")
    for p1, p2 in (("te", "te"), ("te", "tm"), ("tm", "te")):
        s = C.phc()
        s += "pwe = legume.PlaneWaveExp(phc.layers[0], gmax=SYM('gmax'))\n"
        s += ("pwe.run(kpoints=SYM('r1_kp', 'kpoints'), pol=%r, "
              "numeig=SYM('r1_numeig', 'int'))\n" % p1)
        s += ("t0 = pwe.get_field_xy('H', SYM('r1_kind', 'int'), SYM('r1_m', 'int'))\n")
        s += ("pwe.run(kpoints=SYM('kp', 'kpoints'), pol=%r, "
              "numeig=SYM('numeig', 'int'))\n" % p2)
        c["pwe_%s_%s" % (p1, p2)] = s + C.READ_PWE + C.FIELDS_PWE
    s = C.ese(post="")
    s = s.replace("SYM('kp', 'kpoints')", "SYM('r1_kp', 'kpoints')").replace(
        "numeig_ex=SYM('numeig_ex', 'int')", "numeig_ex=SYM('r1_nex', 'int')")
    s += ("t0 = ese.get_wavef_xy(SYM('r1_kind', 'int'), SYM('r1_m', 'int'))\n"
          "ese.run(kpoints=SYM('kp', 'kpoints'), numeig_ex=SYM('numeig_ex', 'int'), "
          "verbose_ex=False)\n")
    c["ese"] = s + C.READ_ESE
    s = C.qws(2, 1)
    s += "pol = legume.HopfieldPol(phc, gmax=SYM('gmax'), truncate_g='abs')\n"
    for k, sym in (("r1_", True), ("", False)):
        s += ("pol.run(gme_options={'gmode_inds': [0, 1], 'numeig': SYM('%snumeig', 'int'), "
              "'verbose': False}, exc_options={'numeig_ex': SYM('%snex', 'int'), "
              "'verbose_ex': False}, kpoints=SYM('%skp', 'kpoints'), verbose=False)\n"
              % (k, k, k))
    c["pol"] = s + C.READ_POL
    # default option dictionaries: shared across objects
    s = C.qws(1, 1)
    s += ("p1 = legume.HopfieldPol(phc, gmax=SYM('r1_gmax'), truncate_g='abs')\n"
          "p1.run(kpoints=SYM('r1_kp', 'kpoints'), verbose=False)\n"
          "pol = legume.HopfieldPol(phc, gmax=SYM('gmax'), truncate_g='abs')\n"
          "pol.run(kpoints=SYM('kp', 'kpoints'), verbose=False)\n")
    c["pol_defaults"] = s + C.READ_POL
    # isolation between objects
    one = (C.PRE + "lat1 = legume.Lattice([SYM('r1_ax'), 0.], [0., SYM('r1_ay')])\n"
           "phc1 = legume.PhotCryst(lat1, eps_l=SYM('r1_el'), eps_u=SYM('r1_eu'))\n"
           "phc1.add_layer(d=SYM('r1_d'), eps_b=SYM('r1_eps'))\n"
           "phc1.add_shape(legume.Circle(eps=SYM('r1_e'), x_cent=SYM('r1_x'), r=SYM('r1_r')))\n"
           "g1 = legume.GuidedModeExp(phc1, gmax=SYM('r1_gmax'), truncate_g=%r)\n"
           "g1.run(kpoints=SYM('r1_kp', 'kpoints'), gmode_inds=[0, 1], "
           "numeig=SYM('r1_numeig', 'int'), verbose=False%s)\n"
           "w1 = legume.PlaneWaveExp(phc1.layers[0], gmax=SYM('r1_gmax'))\n"
           "w1.run(kpoints=SYM('r1_kp', 'kpoints'), numeig=SYM('r1_numeig', 'int'))\n")
    for tr in ("abs", "tbt"):
        c["objects_%s" % tr] = one % (tr, "") + C.gme(
            tr, post=C.READ_GME + C.READ_IM + C.FIELDS).replace(C.PRE, "")
    c["objects_pwe"] = one % ("abs", ", gmode_compute='interp'") + C.pwe(
        "tm", post=C.READ_PWE + C.FIELDS_PWE).replace(C.PRE, "")
    c.update(queries())
    if tier == "thorough":
        for sh in C.SHAPES:
            c["objects_pwe_%s" % sh] = one % ("tbt", "") + C.pwe(
                "te", sh, post=C.READ_PWE + C.FIELDS_PWE).replace(C.PRE, "")
        c["gme_tbt_sym"] = two("tbt", {"kz_symmetry": "'even'"},
                               {"kz_symmetry": "'odd'"}, GME_ALL)
        c["gme_sparse"] = two("abs", {"kz_symmetry": "'both'", "use_sparse": "True"},
                              {"eig_solver": "'eigsh'"}, GME_ALL)
        c["gme_tbt_interp2"] = two("tbt", {"gmode_compute": "'interp'"},
                                   {"gmode_compute": "'interp'"}, GME_ALL)
    return c


SNAP = {"gme": ["gme.freqs", "gme.freqs_im", "gme.eigvecs", "gme.kpoints", "gme.gvec",
                "gme.unbalance_sp"] + ["gme.rad_coup[%r]" % k for k in
                                       ("l_te", "l_tm", "u_te", "u_tm")] +
        ["gme.rad_gvec['l']", "gme.rad_gvec['u']"],
        "pwe": ["pwe.freqs", "pwe.eigvecs", "pwe.kpoints", "pwe.gvec"],
        "ese": ["ese.eners", "ese.eigvecs", "ese.kpoints", "ese.gvec"],
        "pol": ["pol.eners", "pol.eners_im", "pol.eigvecs", "pol.fractions_ex",
                "pol.fractions_ph", "pol.kpoints", "pol.gvec"],
        "phc": ["lat.a1", "lat.a2", "lat.b1", "lat.b2", "phc.layers[0].d",
                "phc.layers[0].eps_avg", "phc.layers[0].eps_b", "phc.layers[0].z_min",
                "phc.claddings[1].eps_b", "phc.layers[0].shapes[0].eps"]}


def snap(k, tag):
    return "".join("%s_%s_%d = np.copy(%s)\n" % (tag, k, i, e) for i, e in enumerate(SNAP[k]))


def around(k, src, q):
    return src + "import numpy as np\n" + snap(k, "before") + snap("phc", "before") + \
        q + snap(k, "after") + snap("phc", "after")


def queries():
    """read the results, query everything else, read them again"""
    c = {}
    viz = """
V = legume.viz
V.bands(gme, Q=False, cone=False)
V.bands(gme, Q=False, k_units=True, eV=True, a=SYM('aper'))
V.field(gme, 'E', SYM('kind', 'int'), SYM('mind', 'int'), z=SYM('z'))
V.field(gme, 'h', SYM('kind', 'int'), SYM('mind', 'int'), x=SYM('x'), val='im', component='z')
V.field(gme, 'D', SYM('kind', 'int'), SYM('mind', 'int'), y=SYM('y'), val='abs', periodic=False)
V.field(gme, 'H', SYM('kind', 'int'), SYM('mind', 'int'), z=SYM('z'), periodic=False)
V.reciprocal(gme)
V.eps_ft(gme)
V.structure(phc, cladding=True)
t = str(gme)
"""
    rest = C.RAD + C.FIELDS
    for tr in ("abs", "tbt"):
        c["query_%s" % tr] = around("gme", C.gme(tr), rest)
        c["query_im_%s" % tr] = around("gme", C.gme(tr), "gme.run_im()\n")
    c["query_viz"] = around("gme", C.gme("abs"), viz)
    c["query_viz_interp"] = around("gme", C.gme("tbt", run={"gmode_compute": "'interp'"}), viz)
    c["query_viz_sym"] = around("gme", C.gme("abs", angles=True, run={"kz_symmetry": "'both'"}),
                                "legume.viz.bands(gme, eV=True, a=SYM('aper'), cone=False)\n"
                                "legume.viz.bands(gme, show_symmetry=False)\n")
    for p in ("te", "tm"):
        c["query_pwe_%s" % p] = around("pwe", C.pwe(p), C.FIELDS_PWE + """
V = legume.viz
V.bands(pwe)
V.bands(pwe, eV=True, a=SYM('aper'), cone=False)
V.field(pwe, 'E', SYM('kind', 'int'), SYM('m', 'int'), component='xyz', val='abs')
V.field(pwe, 'H', SYM('kind', 'int'), SYM('m', 'int'), periodic=False)
V.reciprocal(pwe)
V.eps_ft(pwe)
t = str(pwe)
""")
    c["query_ese"] = around("ese", C.ese(), """
pot = ese.get_pot_xy()
fw = ese.ft_wavef_xy(SYM('kind', 'int'), SYM('mind', 'int'))
wf = ese.get_wavef_xy(SYM('kind', 'int'), SYM('mind', 'int'))
legume.viz.wavef(ese, SYM('kind', 'int'), SYM('m', 'int'))
legume.viz.pot_ft(ese)
legume.viz.reciprocal(ese)
t = str(ese)
""")
    c["query_pol"] = around("pol", C.pol(1), """
V = legume.viz
V.pol_bands(pol)
V.pol_bands(pol, Q=False, fraction=True, k_units=True, cone=False)
t = str(pol)
""")
    return c


NAMES = ["F", "V", "KP", "GV", "FI", "RC", "RG", "UB", "KS", "fe", "fh", "fd", "xy",
         "xz", "yz", "ee", "ri", "rs", "xyh", "xyd", "EE", "EV", "pot", "fw", "wf",
         "PE", "PI", "PV", "FX", "FP"]
LABEL = {"F": "frequencies", "V": "eigenvectors", "FI": "imaginary frequencies",
         "RC": "radiative couplings", "RG": "radiative g-vectors",
         "UB": "polarisation unbalance", "KS": "kz symmetry labels"}


def analyse(name, I, st, res):
    if st is None:
        return
    if name.startswith("query"):
        return compare(name, I, st, res)
    for v in NAMES:
        n = client_val(I, st, v)
        if n is None:
            continue
        res.count("results_sliced")
        sl = reach(I, st, [n])
        res.count("slice_nodes", len(sl))
        bad = sorted(k for k in syms(sl) if isinstance(k, str) and k.startswith("r1_"))
        if bad:
            t = syms(sl)[bad[0]]
            p = path_to(I, st, n, t)
            site = next((x.site for x in p if x.site and x.site[0] != "<client>"), None)
            res.find("stale-dependence", "%s.%s" % (name.split("_")[0], v),
                     "%s after the second run depend on %s of an earlier run: %s" % (
                         LABEL.get(v, v), ", ".join(bad), explain(p)), site)
        else:
            res.sample("%s: slice of %s (%d nodes) reaches no earlier input" % (
                name, LABEL.get(v, v), len(sl)))


def compare(name, I, st, res):
    for k, es in SNAP.items():
        for i, e in enumerate(es):
            a = client_val(I, st, "before_%s_%d" % (k, i))
            b = client_val(I, st, "after_%s_%d" % (k, i))
            if a is None or b is None:
                continue
            eq = Equiv(I, st)
            res.count("results_reread")
            if not eq.eq(a, b):
                x, y, why = eq.diff
                site = next((s for s in (y.site, x.site) if s and s[0] != "<client>"), None)
                res.find("query-changes-result", "%s:%s" % (e, func_of(site)),
                         "%s is not the same before and after the queries of '%s': %s" % (
                             e, name, why), site)
            else:
                res.sample("%s: %s unchanged by the queries" % (name, e))
