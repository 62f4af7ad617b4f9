"""P22: the optimisers follow their documented steps and report what they did."""
from sa.alg import Alg
from sa.spec import check_equal
from sa.util import client_val

EXPLANATION = (
    "Both optimisers are analysed with an objective, gradients, start parameters, bounds and step parameters which are "
    "all symbols, and a recording stand-in for the differentiation library and for the SciPy driver.  Normal forms of "
    "every evaluated point, argument, recorded objective, state seen by the callback and returned value are compared "
    "with the documented method: the ADAM recurrences followed by snapping to the bounds; for L-BFGS the problem handed "
    "to SciPy and the history collected from its callbacks.")
RULE = "normal form of the value equals the normal form of the specification"
ASSUMPTIONS = ["the SciPy driver evaluates the accepted point last before it calls the callback"]
REQUIRED = {"obligations": 1}

PRE = """import legume
import numpy as np
import legume.minimize as module
SYM = __SYM__
seen = []
def objective(p, *args):
    seen.append((p, args))
    return SYM('f%d' % len(seen))
def value_and_grad(f, *rest):
    def run(p, *args):
        value = f(p, *args)
        return value, SYM('g%d' % len(seen), 'array')
    return run
module.value_and_grad = value_and_grad
states = []
def callback(o):
    states.append((o.iteration, o.params, o.of_list[-1], len(o.of_list)))
p0 = np.array([SYM('p0'), SYM('p1')])
l0, u0, l1, u1 = -0.5, 1.5, 0.25, 2.0
def clip(q):
    if BOUNDS == 'none':
        return q
    lo, up = (np.array([l0, l0]), np.array([u0, u0])) if BOUNDS == 'pair' else (np.array([l0, l1]), np.array([u0, u1]))
    q = np.where(q < lo, lo, q)
    return np.where(q > up, up, q)
bounds = None if BOUNDS == 'none' else [l0, u0] if BOUNDS == 'pair' else [(l0, u0), (l1, u1)]
opt = module.Minimize(objective)
def flat(rows):
    return np.concatenate([np.array([0])] + [np.array(r) for r in rows])
"""
ADAM = """
for t in range(TIMES):
    seen, states = [], []
    p, ofs = opt.adam(p0, Nepochs=N, bounds=bounds, step_size=SYM('s'), beta1=SYM('b1'), beta2=SYM('b2'),
                      args=(SYM('x'), SYM('y')), pass_self=PASS, callback=callback)
    s, b1, b2 = SYM('s'), SYM('b1'), SYM('b2')
    q, m, v = p0, 0, 0
    at, wat, hist = [], [], []
    for k in range(N):
        at = at + [seen[k][0][0], seen[k][0][1], seen[k][1][0], seen[k][1][1], len(seen[k][1])]
        wat = wat + [q[0], q[1], SYM('x'), SYM('y'), 3 if PASS else 2]
        g = SYM('g%d' % (k + 1), 'array')
        m, v = b1 * m + (1 - b1) * g, b2 * v + (1 - b2) * g ** 2
        if k < N - 1:
            q = q - s * (m / (1 - b1 ** (k + 1))) / (np.sqrt(v / (1 - b2 ** (k + 1))) + 1e-8)
        q = clip(q)
        hist = hist + [k + 1, q[0], q[1], SYM('f%d' % (k + 1)), k + 1]
    got = flat([[st[0], st[1][0], st[1][1], st[2], st[3]] for st in states])
    want = flat([hist])
    at, wat = np.array(at), np.array(wat)
    out, wout = np.array([p[0], p[1], len(ofs), len(seen)] + list(ofs)), np.array([q[0], q[1], N, N] + [SYM('f%d' % (k + 1)) for k in range(N)])
    me = np.array([(seen[k][1][2] is opt) * 1 if PASS else 1 for k in range(N)])
    wme = np.array([1] * N)
"""
LBFGS = """
class Result(object):
    pass
made = []
def driver(fun, x0, args=(), method=None, jac=None, bounds=None, tol=None, callback=None, options=None):
    r = Result()
    made.append((x0, args, method, jac, bounds, options))
    pairs = []
    for k in range(4):
        pairs.append(fun(SYM('x%d' % k, 'array'), *args))
        if k % 2 == 1:
            callback(SYM('x%d' % k, 'array'))
    r.pairs = pairs
    r.x = SYM('x3', 'array')
    return r
module.minimize = driver
for t in range(TIMES):
    seen, states, made = [], [], []
    a = opt.lbfgs(p0, Nepochs=SYM('n'), bounds=bounds, maxfun=SYM('mf'), args=(SYM('x'), SYM('y')), pass_self=PASS,
                  res=RES, callback=callback)
    p, ofs = a[0], a[1]
    at, wat = [], []
    for k in range(5):
        at = at + [seen[k][0][0], seen[k][0][1], seen[k][1][0], seen[k][1][1], len(seen[k][1])]
        w = p0 if k == 0 else SYM('x%d' % (k - 1), 'array')
        wat = wat + [w[0], w[1], SYM('x'), SYM('y'), 3 if PASS else 2]
    at, wat = np.array(at), np.array(wat)
    got = flat([[st[0], st[1][0], st[1][1], st[2], st[3]] for st in states])
    x1, x3 = SYM('x1', 'array'), SYM('x3', 'array')
    want = flat([[1, x1[0], x1[1], SYM('f3'), 2, 2, x3[0], x3[1], SYM('f5'), 3]])
    x0, args, method, jac, bnd, options = made[0]
    out = [p[0], p[1], len(ofs), len(a), len(seen)] + list(ofs) + [x0[0], x0[1], options['maxiter'], options['maxfun'], jac * 1, (method == 'L-BFGS-B') * 1]
    wout = [x3[0], x3[1], 3, 3 if RES else 2, 5, SYM('f1'), SYM('f3'), SYM('f5'), p0[0], p0[1], SYM('n'), SYM('mf'), 1, 1]
    if BOUNDS != 'none':
        out = out + [bnd[0][0], bnd[0][1], bnd[1][0], bnd[1][1], len(bnd)]
        wout = wout + ([l0, u0, l0, u0, 2] if BOUNDS == 'pair' else [l0, u0, l1, u1, 2])
    if RES:
        for k in range(4):
            out = out + [a[2].pairs[k][0], a[2].pairs[k][1][0], a[2].pairs[k][1][1]]
            g = SYM('g%d' % (k + 2), 'array')
            wout = wout + [SYM('f%d' % (k + 2)), g[0], g[1]]
    out, wout = np.array(out), np.array(wout)
    me = np.array([(seen[k][1][2] is opt) * 1 if PASS else 1 for k in range(5)])
    wme = np.array([1] * 5)
"""
BAD = """
def accepted(b):
    try:
        opt.adam(p0, Nepochs=1, bounds=b)
    except ValueError:
        return 0
    return 1
got = np.array([accepted(None), accepted([l0, u0]), accepted([(l0, u0), (l1, u1)]), accepted([l0]), accepted([l0, u0, l1]),
                accepted([(l0, u0)]), accepted([(l0, u0), (l1, u1), (l0, u0)]), accepted([(l0, u0), (l1,)])])
want = np.array([1, 1, 1, 0, 0, 0, 0, 0])
at, wat, out, wout, me, wme = [np.array([0])] * 6
"""


def clients(tier):
    c = {}
    for b in ("none", "pair", "list"):
        for N in (1, 2, 3):
            if N == 3 and b != "none" and tier == "never":
                continue
            for ps in (False, True):
                if ps and N != 2:
                    continue
                c["adam_%s_%d_%d" % (b, N, ps)] = "BOUNDS, N, PASS, TIMES = %r, %d, %r, 1\n" % (b, N, ps) + PRE + ADAM
        for ps, rs in ((False, False), (True, True)):
            c["lbfgs_%s_%d" % (b, ps)] = "BOUNDS, PASS, RES, TIMES = %r, %r, %r, 1\n" % (b, ps, rs) + PRE + LBFGS
    c["again_adam"] = "BOUNDS, N, PASS, TIMES = 'none', 2, False, 2\n" + PRE + ADAM
    c["again_lbfgs"] = "BOUNDS, PASS, RES, TIMES = 'pair', False, False, 2\n" + PRE + LBFGS
    c["bounds"] = "BOUNDS = 'none'\n" + PRE + BAD
    return c


def decl(name):
    d = {x: {"positive": True} for x in ("b1", "b2", "s")}
    d.update({"g%d" % k: {"shape": (2,)} for k in range(1, 7)})
    d.update({"x%d" % k: {"shape": (2,)} for k in range(4)})
    return d


def analyse(name, I, st, res):
    if st is None:
        return
    A = Alg(I, st, decl(name))
    A.maxdim = 64
    A.generic = True
    if name == 'bounds':
        A.assume = lambda c: False if c.op in ('mayraise',) else None   # accepted bounds are lists of numbers
    val = lambda nm: client_val(I, st, nm)
    con = "Minimize.lbfgs" if "lbfgs" in name else "Minimize.adam" if "adam" in name else "Minimize._parse_bounds"
    for g, w, rule, what in (
            ("at", "wat", "evaluation", "evaluated points and extra arguments"),
            ("got", "want", "history", "states seen by the callback" if name != "bounds" else "accepted bounds"),
            ("out", "wout", "result", "returned values and options"),
            ("me", "wme", "pass-self", "the optimiser passed to the objective")):
        check_equal(A, res, rule, con, val(g), val(w), "%s (%s)" % (what, name))
