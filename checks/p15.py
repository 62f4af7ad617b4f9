"""P15: physical constants and the conversion from dimensionless frequencies to energies."""
from sa import rnd
from sa.alg import Alg, Unk
from sa.nf import TooBig
from sa.util import client_val

EXPLANATION = (
    "The value of every constant exposed by legume.constants, and the factor by which the conversion to electronvolts "
    "multiplies, are derived from the source by constant folding and compared with the CODATA values; the constants "
    "are compared with each other through the identities that tie them.")
RULE = "relative difference from the CODATA value (or from the identity) is below 1e-6"
ASSUMPTIONS = ["SI units as documented: charge in C, mass in kg, h in J s and eV/Hz, lattice constant in m"]
REQUIRED = {"obligations": 1}

# CODATA 2018; the 2014 and 2022 adjustments agree with it to 1e-7 (1e-6 is the tolerance)
CODATA = {"e": 1.602176634e-19, "m_e": 9.1093837015e-31, "epsilon_0": 8.8541878128e-12, "c": 299792458.0,
          "h": 6.62607015e-34, "hbar": 1.054571817646156e-34, "h_eV_Hz": 4.135667696923859e-15}
HEAD = """import legume
import numpy as np
import legume.constants as cs
from legume.utils import from_freq_to_e
SYM = __SYM__
"""
IDENT = {"hbar": "cs.hbar * 2 * np.pi / cs.h", "eV": "cs.h_eV_Hz * cs.e / cs.h",
         "conversion": "from_freq_to_e(SYM('a')) * SYM('a') * cs.e / cs.h / cs.c",
         "Bohr radius": "4 * np.pi * cs.epsilon_0 * cs.hbar**2 / (cs.m_e * cs.e**2) / 5.29177210903e-11",
         "vacuum impedance": "1 / (cs.epsilon_0 * cs.c) / 376.730313668",
         "one micron": "from_freq_to_e(1e-6) / 1.23984198"}


def clients(tier):
    out = {}
    for k in sorted(CODATA):
        out["constant/" + k] = HEAD + "got = cs.%s / %r\n" % (k, CODATA[k])
    for k in sorted(IDENT):
        out["identity/" + k] = HEAD + "got = %s\n" % IDENT[k]
    return out


def decl(name):
    return {"a": {"positive": True}}


def analyse(name, I, st, res):
    A = Alg(I, st, decl(name))
    v = client_val(I, st, "got")
    if v is None:
        res.note("%s does not complete" % name)
        return
    try:
        p = A.el(v, ())
    except (Unk, TooBig, ZeroDivisionError, RecursionError) as ex:
        res.count("inconclusive")
        res.note("%s: not understood (%s)" % (name, ex))
        return
    res.count("obligations")
    kind, what = name.split("/")
    site = ("legume/utils.py", 0, "from_freq_to_e") if what in ("conversion", "one micron") else \
        ("legume/constants.py", 0, what)
    # every outcome of the conditions that remain
    cs = A.cases(p) if any(X.kind == "where" for X in A.atoms_of(p).values()) else [([], p)]
    xs = [value(A, q) for _, q in cs]
    good = [x is not None and not isinstance(x, str) and abs(x - 1) <= 1e-6 for x in xs]
    bad = [x for x, g, (asg, _) in zip(xs, good, cs) if x is not None and not g and (
        not asg or len(asg) == 1 and asg[0][1] in rnd.outcomes(A, asg[0][0]))]
    if all(good):
        res.count("proved")
    elif bad:
        x = bad[0]
        res.find("physical-constant", what, "%s: %s" % (
            "legume.constants.%s" % what if kind == "constant" else "identity of the constants (%s)" % what,
            "is %.9g times the value it must have" % x if isinstance(x, float) else
            "depends on the lattice constant as %s" % x), site)
    else:
        # a factor that still depends on the lattice constant
        res.count("inconclusive")
        res.note("%s: %s" % (name, A.show(p, 4)[:160]))


def value(A, p):
    """number (float), dependence (text) or None"""
    if not p:
        return 0.0
    seen = A.atoms_of(p)
    lib = {X.id: CODATA[X.key[1][16:]] for X in seen.values() if X.kind == "el" and
           isinstance(X.key[1], str) and X.key[1].startswith("scipy.constants.") and X.key[1][16:] in CODATA}
    free = [X for X in seen.values() if X.kind == "el" and X.id not in lib]
    if any(X.opaque or X.kind not in ("el", "pi") for X in seen.values()):
        return None
    if free:
        return A.show(p, 4)[:160]
    try:
        R = rnd.Rnd(A, 1)
        R.memo.update(lib)
        return float(R.form(p).real)
    except rnd.NoVal:
        return None
