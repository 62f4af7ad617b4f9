"""P06: verbosity is an effect only (effect + dependence analysis)."""
from sa import clients as C
from sa.util import client_val, reach, syms, path_to, explain
from sa.runner import sitestr

EXPLANATION = (
    "Effect analysis: every console-output effect (print, rich.print, "
    "sys.stdout/stderr) reachable from the analysed clients with its path "
    "condition.  Silent clients (verbosity off, in every solver and option "
    "configuration) must reach none; in the symbolic-verbosity clients the slice "
    "of every result must not contain the verbosity flag.")
RULE = "no console effect when silent; slice(result) does not contain the verbosity flag"
ASSUMPTIONS = ["plotting functions and the one-time construction warning about a "
               "truncation radius equal to a |G| are outside the property"]
REQUIRED = {"silent_clients": 20, "results_sliced": 20}


def clients(tier):
    c = {}
    for k, v in C.corpus().items():
        if tier == "quick" and k in ("pwe_te_square", "pwe_tm_square", "pwe_te_hexagon",
                                     "pwe_tm_hexagon", "pwe_te_poly", "pwe_tm_circle",
                                     "gme_abs_ag_eigsh", "gme_tbt_even_dense",
                                     "gme_abs_even_sparse", "gme_tbt_ag_interp"):
            continue
        c["silent_" + k] = v
    for pb in ("base", "rich"):
        s = C.pol(1, post=C.READ_POL).replace(C.PRE, C.PRE + "legume.set_print_backend(%r)\n" % pb)
        c["silent_pol_" + pb] = s
        for sym in ("None", "'both'"):
            s = C.gme("abs", angles=sym != "None", run={"verbose": "SYM('VERB', 'bool')",
                      "kz_symmetry": sym}, post=C.READ_GME + C.READ_IM + C.RAD + C.FIELDS)
            c["verb_gme_%s_%s" % (pb, "sym" if sym != "None" else "nosym")] = s.replace(
                C.PRE, C.PRE + "legume.set_print_backend(%r)\n" % pb)
        s = C.pol(2, gopts={"'verbose'": "SYM('VERB', 'bool')"}, verbose="SYM('VERB', 'bool')",
                  post=C.READ_POL).replace("'verbose_ex': False", "'verbose_ex': SYM('VERB', 'bool')")
        c["verb_pol_%s" % pb] = s.replace(C.PRE, C.PRE + "legume.set_print_backend(%r)\n" % pb)
        s = C.ese(post=C.READ_ESE).replace("verbose_ex=False", "verbose_ex=SYM('VERB', 'bool')")
        c["verb_ese_%s" % pb] = s.replace(C.PRE, C.PRE + "legume.set_print_backend(%r)\n" % pb)
    c["verb_gme_interp"] = C.gme("tbt", run={"verbose": "SYM('VERB', 'bool')",
                                             "gmode_compute": "'interp'"},
                                 post=C.READ_GME + C.READ_IM)
    c["silent_structure"] = C.phc(layers=2, shape="poly", clad=True) + """
a = phc.get_eps((SYM('x', 'array'), SYM('y', 'array'), SYM('z', 'array')))
b = phc.get_eps_bounds()
k = lat.bz_path(['G', 'X', 'M'], [10])
"""
    return c


NAMES = ["F", "V", "FI", "RC", "RG", "UB", "fe", "fh", "fd", "xy", "xz", "yz", "ee",
         "ri", "rs", "EE", "EV", "pot", "fw", "wf", "PE", "PI", "PV", "FX", "FP", "KP", "GV"]


def analyse(name, I, st, res):
    if name.startswith("silent"):
        res.count("silent_clients")
        for e in I.events:
            if e.kind != "print" or e.site[0] == "<client>":
                continue
            if any("_init_reciprocal" in q for q in e.stack[-1:]) or at_construction(e):
                res.count("construction_warnings")
                continue
            res.find("console-output", e.stack[-1].split(":")[-1] if e.stack else "?",
                     "console output reached with verbosity off: call chain %s" % " > ".join(
                         q.split(":")[-1] for q in e.stack[-5:]), e.site)
        return
    if st is None:
        return
    n = sum(1 for e in I.events if e.kind == "print")
    res.count("console_effects_with_symbolic_verbosity", n)
    for v in NAMES:
        x = client_val(I, st, v)
        if x is None:
            continue
        res.count("results_sliced")
        sl = reach(I, st, [x])
        hit = syms(sl).get("VERB")
        if hit is not None:
            p = path_to(I, st, x, hit)
            site = next((y.site for y in p if y.site and y.site[0] != "<client>"), None)
            res.find("verbosity-dependence", "%s.%s" % (name.split("_")[1], v),
                     "a result depends on the verbosity flag: %s" % explain(p), site)
    res.sample("%s: %d console effects, results independent of the flag" % (name, n))


def at_construction(e):
    """The documented one-time warning issued while constructing a solver: it is
    emitted under a condition on the reciprocal vectors, not in run()."""
    return any(q.split(":")[-1].endswith("__init__") for q in e.stack) and \
        not any(q.split(":")[-1].split(".")[-1].startswith("run") for q in e.stack)
