"""Comparison of library values with specification values written in the client."""
import itertools

from . import rnd
from .alg import Alg, Unk
from .nf import TooBig
from .util import client_val, func_of


def near_site(n):
    """closest construct of the library a value comes from"""
    q = [n]
    seen = set()
    for _ in range(600):
        if not q:
            break
        x = q.pop(0)
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.site and x.site[0] != "<client>" and x.op not in ("const", "pi"):
            return x.site
        q.extend(y for y in x.operands() if y is not None)
    return n.site


def indices(A, shape, tag=""):
    """all concrete / one symbolic index tuple(s) of an array of given shape"""
    axes = []
    for k, d in enumerate(shape):
        if isinstance(d, int):
            if d > getattr(A, "maxdim", 12):
                axes.append([A.num(0), A.num(1), A.num(d - 1)])
            else:
                axes.append([A.num(i) for i in range(d)])
        else:
            axes.append([A.ix("%s%s" % (tag, "ijkl"[k]))])
    return list(itertools.product(*axes))


def check_equal(A, res, rule, construct, got, want, what, site=None, known=None):
    """one obligation per element: library value == specification value"""
    try:
        sg, sw = A.shape(got), A.shape(want)
    except (Unk, RecursionError) as e:
        res.count("inconclusive")
        res.note("%s: shape not understood (%s)" % (construct, e))
        return None
    if len(sg) != len(sw):
        res.count("inconclusive")
        res.note("%s: rank %d against %d" % (construct, len(sg), len(sw)))
        return None
    sh = tuple(b if isinstance(b, int) else a for a, b in zip(sg, sw))
    out = True
    for idx in indices(A, sh):
        try:
            p, q = A.el(got, idx), A.el(want, idx)
        except (Unk, TooBig, ZeroDivisionError, RecursionError) as e:
            res.count("inconclusive")
            res.note("%s: not understood (%s %s)" % (construct, type(e).__name__, e))
            out = None
            continue
        r = verdict(A, p, q)
        if r == "unknown" and known is not None and known(A, p) and known(A, q) and \
                rnd.compare(A, p, q) == "different":
            r = "different"
        res.count("obligations")
        if r == "equal":
            res.count("proved")
        elif r == "different":
            out = False
            res.find(rule, construct, "%s: element %s is %s instead of %s" % (
                what, [A.show(i) for i in idx], A.show(p, 5)[:400], A.show(q, 5)[:400]),
                site or near_site(got))
        else:
            out = None if out else out
            res.count("inconclusive")
            ops = [X for X in A.atoms_of(A.sub(p, q)).values() if X.opaque or X.kind in ("where", "sel")]
            res.note("%s: comparison inconclusive (%s)" % (
                construct, ", ".join(sorted(set(describe(A, X) for X in ops)))[:160]))
    return out


def describe(A, X):
    if X.kind == "opq":
        if isinstance(X.key[1], tuple):
            return "%s" % (X.key[1][0],)
        n = A.I.g.nodes[X.key[1]]
        return "%s %s" % (n.op, n.val if isinstance(n.val, str) else "")
    return X.kind


def verdict(A, p, q):
    """compare under every outcome of the remaining selections"""
    r = A.compare(p, q)
    if r != "unknown":
        return r
    try:
        cs = A.cases(A.sub(p, q), 6)
    except (TooBig, ZeroDivisionError):
        return "unknown"
    if len(cs) < 2:
        return "unknown"
    rs = [A.compare(f, {}) for _, f in cs]
    if all(x == "equal" for x in rs):
        return "equal"
    if all(x == "different" for x in rs):
        return "different"
    # one independent condition: only outcomes that occur
    conds = set(c for asg, _ in cs for c, _ in asg)
    if len(conds) == 1 and "different" in rs and not any(
            X.opaque for X in A.atoms_of(A.forms[list(conds)[0]]).values()):
        seen = rnd.outcomes(A, list(conds)[0])
        if any(r == "different" and asg and asg[0][1] in seen for r, (asg, _) in zip(rs, cs)):
            return "different"
    return "unknown"
