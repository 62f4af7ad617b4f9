"""P02: caller-owned data is never modified (alias + effect analysis)."""
from sa import clients as C
from sa.util import func_of, CLIENT

EXPLANATION = (
    "Effect analysis on the abstract heap: every in-place store, augmented "
    "assignment on an array, list/dict/set mutation, attribute write and module "
    "or class attribute write performed by library code is collected with the "
    "object it hits; the object's owner (client allocation, shared default "
    "argument, structure object passed in, symbolic caller array or a view of "
    "one) decides whether the write is foreign.")
RULE = "no library write reaches a caller-owned object outside the object's own methods"
ASSUMPTIONS = ["external libraries do not write to their array arguments except "
               "through out= and the listed in-place routines"]
REQUIRED = {"writes_classified": 500}

VIEW_METH = {"ravel", "reshape", "transpose", "view", "squeeze", "swapaxes",
             "diagonal", "flatten?"}
VIEW_CALL = {"numpy.transpose", "numpy.real", "numpy.imag", "numpy.reshape",
             "numpy.ravel", "numpy.squeeze", "numpy.asarray", "numpy.atleast_1d",
             "numpy.atleast_2d", "numpy.asanyarray", "numpy.swapaxes",
             "numpy.broadcast_to", "numpy.moveaxis", "numpy.diagonal",
             "numpy.expand_dims"}


def clients(tier):
    c = {}
    base = C.corpus()
    quick = ["gme_tbt", "gme_abs_2l", "gme_tbt_2l_interp", "gme_abs_both_sparse",
             "gme_tbt_ag", "gme_abs_odd_dense", "pwe_te_circle", "pwe_tm_poly",
             "pwe_te_ellipse", "pwe_tm_square", "pwe_te_hexagon", "pwe_tm_general",
             "ese_abs", "ese_tbt", "pol_abs", "pol_2qw", "gme_noim", "gme_abs_interp"]
    for k, v in base.items():
        if k in quick or tier == "thorough":
            c[k] = v
    # options and geometry held in caller-owned containers
    c["own_gme"] = C.phc() + """
own_inds = [0, 1, 2]
own_kp = SYM('kp', 'kpoints')
own_ang = SYM('ang', 'array')
gme = legume.GuidedModeExp(phc, gmax=SYM('gmax'), truncate_g='abs')
gme.run(kpoints=own_kp, angles=own_ang, kz_symmetry='both', gmode_inds=own_inds,
        numeig=SYM('n', 'int'), verbose=False)
own_minds = [SYM("m0", "int")]
a = gme.compute_rad(SYM('kind', 'int'), own_minds)
b = gme.compute_rad_sp(SYM('kind', 'int'), own_minds)
own_x = SYM('xg', 'array')
own_y = SYM('yg', 'array')
own_z = SYM('zg', 'array')
d = gme.get_field_xy('E', SYM('kind', 'int'), SYM('m', 'int'), SYM('z'), xgrid=own_x, ygrid=own_y)
e = gme.get_field_xz('H', SYM('kind', 'int'), SYM('m', 'int'), SYM('y'), xgrid=own_x, zgrid=own_z)
f = gme.get_field_yz('D', SYM('kind', 'int'), SYM('m', 'int'), SYM('x'), ygrid=own_y, zgrid=own_z)
g = gme.get_eps_xy(SYM('z'), xgrid=own_x, ygrid=own_y)
h = phc.get_eps((own_x, own_y, own_z))
"""
    c["own_shapes"] = C.PRE + C.LAT["square"] + """
phc = legume.PhotCryst(lat)
phc.add_layer(d=SYM('d'), eps_b=SYM('eb'))
own_xe = [SYM('x1'), SYM('x2'), SYM('x3')]
own_ye = [SYM('y1'), SYM('y2'), SYM('y3')]
own_xa = SYM('xa', 'array')
own_ya = SYM('ya', 'array')
own_fa = SYM('fa', 'array')
own_fb = SYM('fb', 'array')
p1 = legume.Poly(eps=SYM('e'), x_edges=own_xe, y_edges=own_ye)
p2 = legume.Poly(eps=SYM('e'), x_edges=own_xa, y_edges=own_ya)
p1.rotate(SYM('ang'))
p2.rotate(SYM('ang'))
p3 = legume.FourierShape(eps=SYM('e'), f_as=own_fa, f_bs=own_fb)
own_list = [p1, p2, p3, legume.Circle(eps=SYM('e'), r=SYM('r')),
            legume.Circle(eps=SYM('e'), r=SYM('r'), x_cent=SYM('xc'), y_cent=SYM('yc')),
            legume.Ellipse(eps=SYM('e'), rx=SYM('r'), ry=SYM('r2'), phi=SYM('phi'),
                           x_cent=SYM('xc'), y_cent=SYM('yc')),
            legume.Square(eps=SYM('e'), a=SYM('r'), x_cent=SYM('xc'), y_cent=SYM('yc')),
            legume.Hexagon(eps=SYM('e'), a=SYM('r'), x_cent=SYM('xc'), y_cent=SYM('yc')),
            legume.FourierShape(eps=SYM('e'), f_as=own_fa, f_bs=own_fb,
                                x_cent=SYM('xc'), y_cent=SYM('yc'))]
phc.add_shape(own_list)
own_g = SYM('gv', 'array')
f0 = [s.compute_ft(own_g) for s in own_list]
i0 = [s.is_inside(SYM('px', 'array'), SYM('py', 'array')) for s in own_list]
own_pts = [['G', 'M'], SYM('pt', 'array')]
own_pts2 = [SYM('pt1', 'array'), SYM('pt2', 'array'), SYM('pt3', 'array')]
own_ns = [SYM('n1', 'int'), SYM('n2', 'int')]
bz = lat.bz_path(own_pts2, own_ns)
bz2 = lat.bz_path(['G', 'X', 'M'], [10])
own_a1 = SYM('a1', 'array')
own_a2 = SYM('a2', 'array')
l2 = legume.Lattice(own_a1, own_a2)
gr = l2.xy_grid(Nx=SYM('nx', 'int'), Ny=SYM('ny', 'int'), periods=[SYM('pp1', 'int'), SYM('pp2', 'int')])
"""
    c["own_min"] = C.PRE + """
from legume.minimize import Minimize
def objective(p, *args):
    return SYM('obj')
own_p = SYM('p0', 'array')
own_b = [(0., 1.), (0., 1.)]
own_args = (SYM('arg0'),)
m = Minimize(objective)
r1 = m.adam(own_p, Nepochs=SYM('ne', 'int'), bounds=own_b, args=own_args)
m2 = Minimize(objective)
r2 = m2.lbfgs(own_p, Nepochs=SYM('ne', 'int'), bounds=own_b, args=own_args)
m3 = Minimize(objective)
r3 = m3.adam(own_p, Nepochs=1, bounds=own_b, args=own_args, disp_p=True)
m4 = Minimize(objective)
r4 = m4.adam(own_p, Nepochs=2)
"""
    c["own_pol"] = C.pol(2, 1, post=C.READ_POL)
    c["pol_defaults"] = C.qws(1) + """
pol = legume.HopfieldPol(phc, gmax=SYM('gmax'), truncate_g='abs')
pol.run(kpoints=SYM('kp', 'kpoints'), verbose=False)
""" + C.READ_POL
    for nm in ("te", "tm"):
        c["viz_pwe_%s" % nm] = C.pwe(nm, post=C.READ_PWE) + """
legume.viz.field(pwe, 'e', SYM('kind', 'int'), SYM('m', 'int'), z=SYM('z'))
legume.viz.reciprocal(pwe)
legume.viz.eps_ft(pwe)
"""
    c["viz_gme"] = C.gme("abs", post=C.READ_GME + C.READ_IM) + """
legume.viz.bands(gme, Q=True)
legume.viz.bands(gme, Q=False, k_units=True, eV=True, a=SYM('a'))
legume.viz.field(gme, 'e', SYM('kind', 'int'), SYM('m', 'int'), z=SYM('z'))
legume.viz.field(gme, 'h', SYM('kind', 'int'), SYM('m', 'int'), x=SYM('x'))
legume.viz.field(gme, 'd', SYM('kind', 'int'), SYM('m', 'int'), y=SYM('y'), val='abs')
legume.viz.reciprocal(gme)
legume.viz.structure(phc, xz=True, yz=True, cladding=True)
legume.viz.eps_ft(gme)
legume.viz.eps_xz(phc)
legume.viz.eps_xy(phc)
legume.viz.eps_yz(phc)
legume.viz.shapes(phc.layers[0])
legume.viz.eps(phc.layers[0])
legume.gds.generate_gds(phc, SYM('fn', 'str'))
"""
    c["viz_pol"] = C.pol(1, post=C.READ_POL) + """
legume.viz.pol_bands(pol)
legume.viz.pol_bands(pol, fraction=True, Q=False)
"""
    c["viz_ese"] = C.ese(post=C.READ_ESE) + """
legume.viz.wavef(ese, SYM('kind', 'int'), SYM('m', 'int'))
legume.viz.pot_ft(ese)
legume.viz.reciprocal(ese)
"""
    return c


def owner_array(n, depth=0):
    """The caller-owned array a node may alias, or None."""
    if depth > 12:
        return None
    if n.op == "sym" and n.extra in ("array", "kpoints"):
        return n
    if n.op in ("index", "part", "item") or (n.op == "meth" and n.val in VIEW_METH) \
            or (n.op == "call" and canon(n.val) in VIEW_CALL) or n.op == "store":
        if n.op == "index" and not basic_index(n.args[1]):
            return None
        return owner_array(n.args[0], depth + 1)
    if n.op in ("phi",):
        return owner_array(n.args[1], depth + 1) or owner_array(n.args[2], depth + 1)
    if n.op == "join":
        for a in n.args:
            r = owner_array(a, depth + 1)
            if r is not None:
                return r
    if n.op == "mu":
        return owner_array(n.inputs[0], depth + 1) if n.inputs[0] is not None else None
    return None


def basic_index(i):
    if i.op in ("slice", "iteridx", "rangeidx"):
        return True
    if i.op == "const":
        return not isinstance(i.val, bool)
    if i.op == "tuple":
        return all(basic_index(x) for x in i.args)
    if i.op == "sym":
        return i.extra == "int"
    return False


def canon(v):
    from sa.engine import canon as c
    return "numpy." + c(v)


def analyse(name, I, st, res):
    client_objs = {}
    for e in I.events:
        if e.site[0] == "<client>":
            continue
        if e.kind in ("mutate", "augassign"):
            res.count("writes_classified")
            a = owner_array(e.node)
            d = I.default_nodes.get(e.node.id)
            if d is not None and e.kind == "mutate":
                res.find("writes-shared-default", "%s(%s)" % d,
                         "the default array of argument '%s' of %s is modified in "
                         "place" % (d[1], d[0]), e.site)
            if a is not None:
                if e.kind == "augassign" and not I.is_array(e.node) and \
                        e.node.op != "sym" and e.node.op != "index":
                    continue
                if e.kind == "augassign" and e.node.op in ("index", "item", "part"):
                    # element or view: x[...] (op)= v reaches here only through a
                    # name bound to the view
                    if not view_is_array(e.node):
                        continue
                res.find("writes-caller-array", "%s:%s" % (func_of(e.site), a.val),
                         "the array '%s' passed in by the caller is modified in "
                         "place (%s)" % (a.val, e.data or "augmented assignment"),
                         e.site)
        elif e.kind == "hmut":
            res.count("writes_classified")
            loc, how = e.data[0], e.data[1]
            h = I.tags.get(loc)
            if h is not None and h[0] == "default":
                res.find("writes-shared-default", "%s(%s)" % (h[1], h[2]),
                         "the default value of argument '%s' of %s, shared by all "
                         "calls, is modified (%s)" % (h[2], h[1], how), e.site)
            elif is_client(loc, I) and loc[0] in ("list", "dict", "set"):
                res.find("writes-caller-container", "%s:%s" % (func_of(e.site), loc[0]),
                         "a %s created by the caller is modified (%s)" % (loc[0], how),
                         e.site)
        elif e.kind == "attr_write":
            res.count("writes_classified")
            loc, attr = e.data
            if loc[0] != "obj":
                continue
            ok = own_method(e, loc, I)
            if not ok:
                res.find("writes-foreign-object", "%s:%s.%s" % (
                    func_of(e.site), cls_of(loc), attr),
                    "attribute '%s' of a %s object owned by the caller is written "
                    "outside the methods the caller invoked on it" % (attr, cls_of(loc)),
                    e.site)
        elif e.kind in ("global_write",):
            res.count("writes_classified")
            if e.stack and any("set_backend" in q or "set_print_backend" in q
                               for q in e.stack):
                continue
            if any(q.startswith("<module ") for q in e.stack):
                continue
            if isinstance(e.data, tuple) and str(e.data[0]).split(".")[0] == "gdspy":
                continue        # the GDS writer library's own registry
            res.find("writes-global", "%s:%s" % (func_of(e.site), e.data),
                     "module/class level attribute %s is written at run time" % (
                         e.data,), e.site)
    if name in ("own_gme", "own_min", "viz_gme"):
        res.sample("%s: all library writes classified, callee-owned" % name)


def is_client(loc, I):
    return len(loc) >= 3 and loc[2] == I.client_ctx


def cls_of(loc):
    c = loc[1][1] if isinstance(loc[1], tuple) and len(loc[1]) > 1 else None
    if isinstance(c, tuple):
        return str(c[1]).split(".")[-1]
    return "?"


MUTATORS_OK = ("__init__",)


def own_method(e, loc, I):
    """A write to a caller-created object is fine when the caller invoked a
    method of that very object (or of the container it delegates to), i.e. the
    outermost library frame on the stack is a method on this object, or the
    write happens while the object is being constructed, or while the object it
    belongs to runs its own public mutator (PhotCryst.add_*)."""
    if not is_client(loc, I):
        return True
    cls = cls_of(loc)
    outer = None
    for q in e.stack:
        if q.startswith("<module"):
            return True
        outer = q
        break
    if outer is None:
        return True
    name = outer.split(":")[-1]
    oc = name.split(".")[0]
    meth = name.split(".")[-1]
    if oc == cls or cls in I.subclasses.get(oc, ()) or oc in I.subclasses.get(cls, ()):
        return True
    if meth.startswith(("add_", "set_")):
        return True
    # lazily requested losses: bands(Q=True) runs the documented run_im of the
    # solver, which fills the solver's own (still empty) result attributes
    if any(q.split(":")[-1] == cls + ".run_im" for q in e.stack):
        return True
    return False


def view_is_array(n):
    """A basic index on a caller array that surely leaves an array behind."""
    i = n.args[1] if n.op == "index" else None
    if i is None:
        return False
    parts = i.args if i.op == "tuple" else (i,)
    return any(p.op == "slice" for p in parts)
