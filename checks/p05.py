"""P05: differentiable results stay attached to every structural parameter."""
from sa import clients as C
from sa.engine import canon
from sa.util import client_val, reach, syms, func_of

EXPLANATION = (
    "Differentiability dataflow on the value graph under the differentiable "
    "backend: from each differentiable result the graph is walked backwards along "
    "edges that carry a derivative (arithmetic, differentiable array functions, "
    "arguments of custom primitives that have a registered vector-Jacobian "
    "product, both arms of a selection, loop-carried values).  Each structural "
    "parameter must be reached, and no value position on the way may be a "
    "detached copy (raw value extraction, an argument whose registered product "
    "is None, a piecewise constant function) of something that depends on a "
    "structural parameter, except where the derivative is known to vanish: the "
    "bracket of a root search and the abscissae of an interpolation.")
RULE = "differentiable path from every result to every parameter; no detached copy in a value position"
ASSUMPTIONS = ["autograd.numpy differentiates the functions it wraps",
               "the values of the registered vector-Jacobian products are not checked"]
REQUIRED = {"obligations": 100, "value_positions_walked": 2000}

# piecewise constant functions: a derivative of zero without an error
FLAT = {"floor", "ceil", "round", "rint", "sign", "argsort", "argmax", "argmin",
        "argwhere", "where_idx", "isclose", "allclose", "isnan", "isfinite",
        "iscomplex", "isreal", "int_", "searchsorted", "nonzero", "logical_and",
        "logical_or", "logical_not", "any", "all", "zeros_like", "ones_like",
        "shape", "size", "ndim", "arange", "zeros", "ones", "eye", "full_idx",
        "ix_", "unique_idx", "stop_gradient", "rint", "trunc", "fix", "floor_divide"}
SELECT = {"where": 1}          # leading operands which only select

PARAMS = {"circle": ["r", "xc", "yc", "epsr"],
          "poly": ["x1", "x2", "x3", "y1", "y2", "y3", "epsr"],
          "square": ["xc", "yc", "aa", "epsr"], "hexagon": ["xc", "yc", "aa", "epsr"],
          "ellipse": ["xc", "yc", "rx", "ry", "phi", "epsr"],
          "fourier": ["xc", "yc", "fas", "fbs", "epsr"]}


def cases(tier):
    c = {}

    def gme(tr, shape="circle", layers=1, run=None, angles=False, lat="square", clad=False):
        p = list(PARAMS[shape]) + ["d%d" % i for i in range(layers)] + \
            ["eps%d" % i for i in range(layers)] + ["eps_l", "eps_u"]
        if clad:
            p += ["epsrl", "epsru"]
        src = C.gme(tr, "autograd", dict(shape=shape, layers=layers, lat=lat, clad=clad),
                    run, angles, "F = gme.freqs\nFI = gme.freqs_im\nRC = gme.rad_coup\n")
        return src, {"F": p, "FI": p, "RC": p}
    for tr in ("abs", "tbt"):
        for sh in C.SHAPES:
            if tr == "tbt" and sh in ("poly", "hexagon") and tier == "quick":
                continue
            c["gme_%s_%s" % (tr, sh)] = gme(tr, sh)
        c["gme_%s_2l_clad" % tr] = gme(tr, layers=2, clad=True)
        c["gme_%s_interp" % tr] = gme(tr, run={"gmode_compute": "'interp'"}, layers=2)
        c["gme_%s_eigsh" % tr] = gme(tr, run={"eig_solver": "'eigsh'"})
        c["gme_%s_bg" % tr] = gme(tr, run={"eps_eff": "'background'"})
        for s in ("odd", "even", "both"):
            c["gme_%s_%s" % (tr, s)] = gme(tr, run={"kz_symmetry": repr(s)}, angles=True, lat="hexagonal")
    for sh in C.SHAPES:
        for p in ("te", "tm"):
            q = PARAMS[sh] + ["eps0"]
            c["pwe_%s_%s" % (p, sh)] = (C.pwe(p, sh, backend="autograd", post="F = pwe.freqs\n"),
                                        {"F": q})
    return c


_C = {}


def get(tier="quick"):
    if tier not in _C:
        _C[tier] = cases(tier)
    return _C[tier]


def clients(tier):
    return {k: v[0] for k, v in get(tier).items()}


def vjps(I):
    """primitive node id -> list of 'this argument has a product' flags"""
    out = {}
    for e in I.events:
        if e.kind == "defvjp":
            args, kw = e.data
            if args[0].op == "prim":
                an = kw.get("argnums") if isinstance(kw, dict) else None
                if an is not None:
                    continue
                out[args[0].id] = [not (a.op == "const" and a.val is None)
                                   for a in args[1:]]
    return out


def is_detach_phi(n):
    """phi whose one arm is the raw value of the other (x._value or x)"""
    if n.op == "phi":
        for a, b in ((n.args[1], n.args[2]), (n.args[2], n.args[1])):
            if a.op == "attr" and a.val == "_value" and a.args[0] is b:
                return b
    return None


def walk(I, st, root):
    """-> (reached nodes, [(detached node, kind, via)])"""
    table = vjps(I)
    seen, det = {}, []
    stk = [(root, root)]
    while stk:
        n, via = stk.pop()
        if n.id in seen:
            continue
        seen[n.id] = n
        op = n.op
        d = is_detach_phi(n)
        if d is not None:
            det.append((d, "raw value extraction", n if n.site else via))
            continue
        if op == "attr" and n.val == "_value":
            det.append((n.args[0], "raw value extraction", n))
            continue
        if op == "ref":
            h = st.heap.get(n.val)
            if h is not None and h.kind in ("list", "dict", "set"):
                nx = list(h.attrs.values()) + list(h.elems or []) + \
                    ([h.summ] if h.summ is not None else [])
            else:
                nx = []
        elif op == "phi":
            nx = n.args[1:]
        elif op == "primres":
            flags = table.get(n.extra)
            nx = []
            for i, a in enumerate(n.args[1:]):
                if flags is not None and i < len(flags) and not flags[i]:
                    if root_bracket(n, i) or interp_abscissa(n, i) or a.op in ("func", "bound"):
                        continue
                    det.append((a, "argument %d of a primitive without a product" % i, n))
                else:
                    nx.append(a)
        elif op in ("index", "item", "part", "elem", "augindex"):
            nx = n.args[:1]
        elif op in ("iteridx", "rangeidx", "cmp", "len", "typeof", "fstr", "and", "or",
                    "not", "isinstance", "hasattr", "range"):
            nx = []
            if op == "cmp":
                det.append((n, "comparison", n))
        elif op == "store":
            nx = [n.args[0], n.args[-1]]
        elif op == "attr" and n.val in ("shape", "size", "ndim", "dtype"):
            nx = []
        elif op == "cast" and n.val in ("int", "bool", "float"):
            det.append((n.args[0], "conversion to a plain %s" % n.val, n))
            nx = []
        elif op == "call":
            cn = canon(n.val)
            if cn in FLAT:
                if cn not in ("zeros", "ones", "eye", "arange", "shape", "size", "ndim",
                              "zeros_like", "ones_like"):
                    for a in n.args:
                        det.append((a, "piecewise constant function %s" % cn, n))
                nx = []
            elif cn in SELECT:
                nx = n.args[SELECT[cn]:]
            elif cn == "interp":
                nx = n.args[2:]
            else:
                nx = n.operands()
        elif op == "meth" and n.val in ("astype",):
            nx = n.args[:1]
            if len(n.args) > 1 and n.args[1].op in ("builtin", "ext") and \
                    any(t in str(n.args[1].val) for t in ("int", "bool")):
                det.append((n.args[0], "conversion to integers", n))
                nx = []
        elif op == "meth":
            nx = n.args[:1]
        else:
            nx = n.operands()
        for x in nx:
            stk.append((x, n if n.site else via))
    return seen, det


def root_bracket(n, i):
    return n.val == "fsolve" and i in (0, 1, 2) or \
        n.args[0].op == "root" and i in (0, 1, 2)


def interp_abscissa(n, i):
    return canon(str(n.val)) == "interp" and i in (0, 1)


def analyse(name, I, st, res):
    if st is None:
        return
    want = get()[name][1]
    for v, ps in sorted(want.items()):
        x = client_val(I, st, v)
        if x is None:
            continue
        seen, det = walk(I, st, x)
        res.count("value_positions_walked", len(seen))
        have = syms(seen)
        for p in ps:
            res.count("obligations")
            if p not in have:
                res.find("no-gradient-path", "%s:%s<-%s" % (name.split("_")[0], v, p),
                         "result %s of '%s' has no differentiable path to parameter '%s'" % (v, name, p))
        for d, kind, via in det:
            dep = sorted(set(syms(reach(I, st, [d], control=False))) & set(ps))
            if dep:
                res.find("detached", "%s:%s" % (func_of(via.site), kind),
                         "result %s of '%s' uses a detached copy (%s) of a value that depends "
                         "on %s" % (v, name, kind, ", ".join(dep[:5])), via.site)
        res.sample("%s.%s: %d value positions, differentiable w.r.t. %s" % (
            name, v, len(seen), ", ".join(ps)))
