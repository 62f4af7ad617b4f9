"""P10: modes of the effective slab solve Maxwell's equations and are normalised."""
from sa.alg import Alg
from sa.spec import check_equal
from sa.util import client_val

EXPLANATION = (
    "Clients evaluate the slab functions for symbolic permittivities, thicknesses, "
    "wave vectors and frequencies (layers with real and with imaginary transverse "
    "wave vector).  Exact normal forms are compared with: the admittance recursion of "
    "a multilayer (the dispersion function vanishes exactly when the outgoing "
    "admittances match; scalar and vectorised variants), the continuity of both "
    "tangential amplitudes at every interface, and the integral of |H|^2 over z "
    "(layer coefficients of guided modes), and the continuity, outgoing channel and "
    "normalisation of radiative states for both claddings.")
RULE = "normal form of the value equals the normal form of the specification"
ASSUMPTIONS = ["claddings evanescent and layers propagating or evanescent at generic values",
               "the regularisers 1e-20 are infinitesimal"]
REQUIRED = {"obligations": 3}

HEAD = """import legume
import numpy as np
from legume.gme import slab_modes as sm
SYM = __SYM__
om, g = SYM('om'), SYM('g')
# claddings evanescent; layers: kind R real, I imaginary transverse wave vector
qs = [SYM('q%d' % i) for i in range(len(KINDS))]
chis = [(q if k == 'R' else 1j * q) for q, k in zip(qs, KINDS)]
eps = [(g**2 + c**2) / om**2 for c in chis]
eps = [(g**2 + (q**2 if k == 'R' else -q**2)) / om**2 for q, k in zip(qs, KINDS)]
us = chis if POL == 'TE' else [c / e for c, e in zip(chis, eps)]
N = len(KINDS)
ds = [SYM('d%d' % i) for i in range(1, N - 1)]
"""
DISP = """
Y = -us[0]
for j in range(1, N - 1):
    R = (us[j] + Y) / (us[j] - Y)
    if j == N - 2:
        ds[-1] = np.log((us[j] + us[-1]) / (us[j] - us[-1]) / R) / (2j * chis[j])
    else:
        R = R * np.exp(2j * chis[j] * ds[j - 1])
        Y = us[j] * (R - 1) / (R + 1)
got = np.ravel(sm.D22(om, g, np.array(eps), np.array(ds), pol=POL))
nil = np.array([0])
got2 = sm.D22s_vec(np.array([om]), g, np.array(eps), np.array(ds), pol=POL)[0]
"""
CONT = """
AB = sm.AB_matrices(om, g, np.array(eps), np.array(ds), None, POL)
A = [AB[j, 0, 0] for j in range(N)]
B = [AB[j, 1, 0] for j in range(N)]
"""
JOIN = """
def edge(j, s):
    z = 0 if j in (0, N - 1) else s * ds[j - 1] / 2
    p, m = A[j] * np.exp(1j * chis[j] * z), B[j] * np.exp(-1j * chis[j] * z)
    return p + m, us[j] * (p - m)
lhs, rhs = [], []
for j in range(N - 1):
    f, h = edge(j, 1)
    f2, h2 = edge(j + 1, -1)
    lhs += [f, h]
    rhs += [f2, h2]
got = np.array(lhs)
want = np.array(rhs)
"""
NORM = """
A = [SYM('A%d' % j, 'array')[0] for j in range(N)]
B = [SYM('B%d' % j, 'array')[0] for j in range(N)]
AB = np.array([[[a], [b]] for a, b in zip(A, B)])
got = sm.normalization_coeff(om, g, np.array(eps), np.array(ds), np.array(chis), AB, POL)
def cell(a, d):
    return np.sin(a * d / 2) * 2 / a
tot = 0
for j in range(N):
    c, cc = chis[j], np.conj(chis[j])
    if POL == 'TE':
        same, cross = g**2 + c * cc, g**2 - c * cc
    else:
        same, cross = 1, 1
    AA, BB = A[j] * np.conj(A[j]), B[j] * np.conj(B[j])
    AsB, BsA = np.conj(A[j]) * B[j], np.conj(B[j]) * A[j]
    if j == 0:
        tot = tot + same * BB / (2 * qs[j])
    elif j == N - 1:
        tot = tot + same * AA / (2 * qs[j])
    elif KINDS[j] == 'R':
        tot = tot + same * (AA + BB) * ds[j - 1] + cross * (AsB + BsA) * cell(2 * c, ds[j - 1])
    else:
        tot = tot + same * (AA + BB) * cell(2 * c, ds[j - 1]) + cross * (AsB + BsA) * ds[j - 1]
want = tot
"""
RAD = """
gs = np.array([g])
(X, Y) = sm.rad_modes(om, gs, np.array(eps), np.array(ds), POL, CLAD)
A = [Y[j, 0] for j in range(N)]
B = [X[j, 0] for j in range(N)]
"""
RADN = RAD + """
# outgoing component in the channel cladding, no outgoing one in the other
c = 0 if CLAD == 0 else N - 1
amp = 1 if POL == 'TM' else 1 / (np.sqrt(eps[c]) * om)
if CLAD == 0:
    got = np.array([X[N - 1, 0], Y[0, 0]])
else:
    got = np.array([Y[0, 0], X[N - 1, 0]])
want = np.array([0, amp])
"""
RADC = RAD + JOIN
SOLVE = """
eps = np.array(eps)
ds = np.array(ds)
(oms, cs) = sm.guided_mode_given_g(g, eps, ds, n_modes=SYM('nm'), step=SYM('step'),
                                   tol=SYM('tol'), pol=POL)
AB = sm.AB_matrices(om, g, eps, ds, None, POL)
want = AB / np.sqrt(sm.normalization_coeff(om, g, eps, ds, None, AB, POL))
d0 = sm.D22(om, g, eps, ds, pol=POL)
dd = np.real(d0)
(om_list, cf_list) = sm.guided_modes(np.array([g, g]), eps, ds, SYM('nm'), SYM('step'), SYM('tol'), POL)
"""
KS3 = ("IRI",)
KS4 = ("IRRI", "IRII", "IIRI")


def clients(tier):
    c = {}
    for pol in ("TE", "TM"):
        for k in KS3 + KS4:
            c["modes_%s_%s" % (pol, k)] = "KINDS = %r\nPOL = %r\n" % (k, pol) + HEAD + SOLVE
    ks = KS3 + KS4 + ("IRIRI",) + (("IRRIRI", "IIRIRI") if tier == "thorough" else ())
    for pol in ("TE", "TM"):
        for k in ks:
            h = "KINDS = %r\nPOL = %r\n" % (k, pol) + HEAD
            c["dispersion_%s_%s" % (pol, k)] = h + DISP
            c["continuity_%s_%s" % (pol, k)] = h + CONT + JOIN
            c["norm_%s_%s" % (pol, k)] = h + NORM
        for k in ("RRR", "RIR", "RRRR", "RRIR"):
            for clad in (0, 1):
                h = "KINDS = %r\nPOL = %r\nCLAD = %d\n" % (k, pol, clad) + HEAD
                c["radcont_%s_%s_%d" % (pol, k, clad)] = h + RADC
                c["radnorm_%s_%s_%d" % (pol, k, clad)] = h + RADN
    return c


def decl(name):
    d = {}
    for j in range(6):
        for v in "AB":
            d["%s%d" % (v, j)] = {"shape": ("n",), "real": False}
    return d


def analyse(name, I, st, res):
    if st is None:
        return
    A = Alg(I, st, decl(name))
    A.generic = True
    for v in ["om", "g"] + ["q%d" % i for i in range(6)] + ["d%d" % i for i in range(6)]:
        f = A.elatom(v, (), True)
        A.positive.add(list(f)[0][0][0][0])
    val = lambda nm: client_val(I, st, nm)
    kind, pol = name.split("_")[:2]
    if kind == "modes":
        return modes(A, I, st, val, res, name)
    if kind == "dispersion":
        zero = I.const(0)
        for v, fn in (("got", "D22"), ("got2", "D22s_vec")):
            check_equal(A, res, "dispersion", fn, val(v), zero if v == "got2" else client_val(I, st, "nil"),
                        "%s at the dispersion of a %s mode (%s)" % (fn, pol, name))
    elif kind == "continuity":
        check_equal(A, res, "continuity", "AB_matrices", val("got"), val("want"),
                    "tangential amplitudes below and above the interfaces (%s)" % name)
    elif kind == "norm":
        check_equal(A, res, "normalization", "normalization_coeff", val("got"), val("want"),
                    "integral of |H|^2 (%s)" % name)
    elif kind == "radcont":
        check_equal(A, res, "radiative-continuity", "rad_modes", val("got"), val("want"),
                    "tangential amplitudes below and above the interfaces (%s)" % name)
    else:
        check_equal(A, res, "radiative-channel", "rad_modes", val("got"), val("want"),
                    "channel amplitudes (absent, outgoing) (%s)" % name)


def values(I, st, lst):
    """values stored in a list, loop summaries expanded"""
    h = st.heap.get(lst.val) if lst is not None and lst.op == "ref" else None
    out, seen = [], set()
    stk = (list(h.elems or []) + [h.summ]) if h is not None else []
    while stk:
        n = stk.pop()
        if n is None or n.id in seen:
            continue
        seen.add(n.id)
        if n.op in ("mu", "join"):
            stk.extend(n.operands())
        elif n.op == "phi":
            stk.extend(n.args[1:])
        elif n.op != "undef":
            out.append(n)
    return out


def modes(A, I, st, val, res, name):
    """coefficients of a root of the dispersion function are its normalised field"""
    A.generic = False
    oms = values(I, st, val("oms"))
    cs = values(I, st, val("cs"))
    roots = [A.res(n) for n in oms]
    if not roots or not cs or any(r.op != "root" for r in roots):
        res.count("inconclusive")
        res.note("guided_mode_given_g: solutions not understood")
        return
    for r in roots:
        A.given[r.args[0].id] = ((), lambda idx: A.elatom("om", (), True))
        for x, nm in zip(r.args[0].args, ("lower", "upper")):
            A.given[x.id] = ((), lambda idx, nm=nm: A.elatom(nm, (), True))
        A.memo.clear()
        A.smemo.clear()
        check_equal(A, res, "mode-equation", "guided_mode_given_g", r.args[1], val("dd"),
                    "function whose root is the mode frequency (%s)" % name)
        A.given[r.id] = ((), lambda idx: A.elatom("om", (), True))
    for c in cs:
        check_equal(A, res, "normalised-modes", "guided_mode_given_g", c, val("want"),
                    "coefficients of the mode at the root (%s)" % name)
