"""Models of builtins, container methods and external library calls."""
from .engine import canon, ALLOC, HObj, PC

PRINT_EXT = ("sys.stdout.write", "sys.stdout.flush", "sys.stderr.write",
             "rich.print", "logging.info")


def builtin_call(I, name, args, kw, st, node):
    g = I.g
    S = lambda n: I.snapshot(n, st)
    if name == "len":
        a = args[0]
        seq = None
        if a.op in ("tuple", "seq"):
            return I.const(len(a.args))
        if a.op == "const" and isinstance(a.val, (str, tuple)):
            return I.const(len(a.val))
        h = I.hobj(a, st)
        if h is not None and h.kind in ("list", "set") and h.elems is not None and \
                h.summ is None:
            return I.const(len(h.elems))
        if h is not None and h.kind == "dict" and h.summ is None and \
                all(I.has_undef(v) == "no" for v in h.attrs.values()):
            return I.const(len(h.attrs))
        if h is not None and h.kind in ("list", "set"):
            if h.elems is None and h.summ is None:
                return I.const(0)
            # length of an abstract list object
            return g.mk("len", (S(a),), extra=("loc",) + tuple(map(str, a.val[:2])))
        if a.op in ("phi", "mu", "join") and I.heapish(a):
            vs = [builtin_call(I, "len", [x], {}, st, node) for x in I.alts(a)
                  if x.op in ("ref", "tuple")]
            if vs and all(v is vs[0] for v in vs):
                return vs[0]
        return g.mk("len", (S(a),), site=I.site(node))
    if name == "range":
        return g.mk("range", [S(a) for a in args])
    if name == "enumerate":
        return g.mk("pyiter", (args[0],), extra="enumerate")
    if name == "zip":
        if any(a.op == "star" for a in args):
            return g.mk("pyiter", (args[0].args[0],), extra="ziplongest*")
        return g.mk("pyiter", args, extra="zip")
    if name == "reversed":
        return g.mk("pyiter", (args[0],), extra="reversed")
    if name == "filter":
        seq = I.concrete_iter(args[1], st)
        return g.mk("pyiter", (args[1],), extra="filter")
    if name == "map":
        seqs = [I.concrete_iter(a, st) for a in args[1:]]
        if all(s is not None for s in seqs) and seqs:
            out = []
            for j, t in enumerate(zip(*seqs)):
                I.push_ctx(("u", id(node), j))
                out.append(I.call(args[0], list(t), {}, st, node))
                I.pop_ctx()
                if st.dead:
                    return I.UNDEF
            return I.new_list(st, out, ("map", id(node)))
        el = [I.iter_elem(a, st, (id(node), I.ctx), node) for a in args[1:]]
        v = I.call(args[0], el, {}, st, node)
        return I.new_list(st, [], ("map", id(node)), summ=v, known=False)
    if name in ("list", "tuple", "set", "sorted", "frozenset", "iter"):
        if not args:
            if name == "tuple":
                return g.mk("tuple")
            return I.new_list(st, [], (name, id(node)),
                              kind="set" if name in ("set", "frozenset") else "list")
        a = args[0]
        if name == "iter":
            return a
        seq = I.concrete_iter(a, st)
        if name == "tuple":
            if seq is not None:
                return g.mk("tuple", seq)
            if a.op == "tuple":
                return a
            return g.mk("astuple", (S(a),))
        kind = "set" if name in ("set", "frozenset") else "list"
        if seq is not None:
            if name == "sorted":
                if all(x.op == "const" for x in seq) and not kw:
                    try:
                        seq = sorted(seq, key=lambda n: n.val)
                    except TypeError:
                        pass
                    return I.new_list(st, seq, (name, id(node)))
                j = I.join_nodes(seq)
                return I.new_list(st, [], (name, id(node)), summ=j, known=False)
            if kind == "set":
                u = []
                for x in seq:
                    if x not in u:
                        u.append(x)
                seq = u
            return I.new_list(st, seq, (name, id(node)), kind=kind)
        if a.op == "const":
            I.ev("type_error", "%s(%r)" % (name, a.val), st, node)
            I.do_raise(st, "TypeError", node, implicit=True)
            return I.UNDEF
        el = I.elem_at(a, g.mk("anyidx"), st, ("list", id(node)))
        return I.new_list(st, [], (name, id(node)), kind=kind, summ=el, known=False)
    if name == "dict":
        items = {}
        summ = None
        if args:
            h = I.hobj(args[0], st)
            if h is not None and h.kind == "dict":
                items.update(h.attrs)
                summ = h.summ
            else:
                seq = I.concrete_iter(args[0], st)
                if seq is not None and all(x.op == "tuple" and len(x.args) == 2 and
                                           x.args[0].op == "const" for x in seq):
                    for x in seq:
                        items[x.args[0].val] = x.args[1]
                else:
                    summ = S(args[0])
        for k, v in kw.items():
            if k == "**":
                summ = I.join_nodes([summ, v])
            else:
                items[k] = v
        return I.new_dict(st, items, ("dict", id(node)), summ)
    if name == "print":
        I.ev("print", name, st, node)
        return I.NONE
    if name in ("getattr",):
        if args[1].op == "const" and isinstance(args[1].val, str):
            return I.getattr(args[0], args[1].val, st, node,
                             args[2] if len(args) > 2 else None)
        # computed name: join over everything the object has
        al = I.alts(args[1])
        if al and all(x.op == "const" and isinstance(x.val, str) for x in al):
            vs = []
            for x in al:
                vs.append(I.getattr(args[0], x.val, st, node,
                                    args[2] if len(args) > 2 else None))
                if st.dead:
                    st.dead = False
            return I.join_nodes(vs) or I.UNDEF
        return g.mk("unknown", [S(a) for a in args], val="getattr")
    if name == "setattr":
        al = I.alts(args[1])
        if al and all(x.op == "const" and isinstance(x.val, str) for x in al):
            for x in al:
                I.setattr(args[0], x.val, args[2], st, node)
        else:
            I.ev("dyn_setattr", None, st, node, args[0])
        return I.NONE
    if name == "hasattr":
        if args[1].op == "const":
            b = args[0]
            h = I.hobj(b, st)
            if h is not None and h.kind == "obj":
                v = h.attrs.get(args[1].val)
                if v is not None:
                    u = I.has_undef(v)
                    if u == "no":
                        return I.TRUE
                    if u != "all":
                        I.ev("attr_read", (b.val, args[1].val), st, node, v)
                        return g.mk("hasattr", (v,))
                cv = I.class_attr(h.cls, args[1].val, st)[0] if h.cls else None
                return I.const(cv is not None)
            if b.op == "func":
                return I.const(args[1].val in I.func_attr(b, st))
        return g.mk("hasattr", (S(args[0]), S(args[1])))
    if name == "isinstance":
        return isinst(I, args[0], args[1], st, node)
    if name == "issubclass":
        if args[0].op == "class" and args[1].op == "class":
            return I.const(args[1].val in I.mro(args[0].val, st))
        return g.mk("unknown", val="issubclass")
    if name == "type":
        return typeof(I, args[0], st)
    if name == "callable":
        if args[0].op in ("func", "bound", "class"):
            return I.TRUE
        return g.mk("unknown", (S(args[0]),), val="callable")
    if name == "str" or name == "repr" or name == "format":
        if args and args[0].op == "const":
            return I.const(str(args[0].val) if name != "repr" else repr(args[0].val))
        if args:
            h = I.hobj(args[0], st)
            if h is not None and h.kind == "obj" and h.cls is not None:
                m = I.class_attr(h.cls, "__repr__", st)[0]
                if m is not None and m.op == "func":
                    return I.inline(m.val, [args[0]], {}, st, node)
        return g.mk("fstr", [S(a) for a in args])
    if name in ("int", "float", "complex", "bool"):
        if not args:
            return I.const({"int": 0, "float": 0.0, "complex": 0j, "bool": False}[name])
        a = args[0]
        if a.op == "const" and isinstance(a.val, (int, float, bool)) or \
                a.op == "const" and name in ("int", "float") and isinstance(a.val, str):
            try:
                return I.const({"int": int, "float": float, "complex": complex,
                                "bool": bool}[name](a.val))
            except Exception:
                pass
        if name == "bool":
            t = I.truth(a, st)
            if t is not None:
                return I.const(t)
        return g.mk("cast", (S(a),), val=name, site=I.site(node))
    if name in ("max", "min"):
        if len(args) == 1 and not kw:
            seq = I.concrete_iter(args[0], st)
            if seq is not None and seq:
                if all(x.op == "const" for x in seq):
                    try:
                        return I.const({"max": max, "min": min}[name](
                            [x.val for x in seq]))
                    except Exception:
                        pass
                return g.mk("call", [S(x) for x in seq], val="builtins." + name,
                            site=I.site(node))
            return g.mk("call", [S(args[0])], val="builtins." + name + "1",
                        site=I.site(node))
        return g.mk("call", [S(x) for x in args], val="builtins." + name,
                    site=I.site(node))
    if name in ("abs",):
        if args[0].op == "const":
            return I.const(abs(args[0].val))
        return g.mk("call", (S(args[0]),), val="numpy.abs", site=I.site(node))
    if name == "round":
        return g.mk("call", [S(a) for a in args], val="numpy.round", site=I.site(node))
    if name == "pow":
        return I.binop("pow", args[0], args[1], st, node)
    if name == "sum":
        seq = I.concrete_iter(args[0], st)
        if seq is not None and seq:
            v = args[1] if len(args) > 1 else None
            for x in seq:
                v = x if v is None else I.binop("add", v, x, st, node)
            return v
        return g.mk("call", [S(a) for a in args], val="numpy.sum", site=I.site(node))
    if name in ("all", "any"):
        seq = I.concrete_iter(args[0], st)
        if seq is not None:
            ts = [I.truth(x, st) for x in seq]
            if name == "all":
                if all(t is True for t in ts):
                    return I.TRUE
                if any(t is False for t in ts):
                    return I.FALSE
            else:
                if any(t is True for t in ts):
                    return I.TRUE
                if all(t is False for t in ts):
                    return I.FALSE
        return g.mk("call", [S(a) for a in args], val="builtins." + name,
                    site=I.site(node))
    if name in ("staticmethod",):
        return g.mk("static", (args[0],))
    if name == "classmethod":
        return g.mk("clsmeth", (args[0],))
    if name == "property":
        return g.mk("property", args)
    if name == "object.__init__":
        return I.NONE
    if name == "object":
        return g.mk("unknown", val="object()")
    if name in ("ValueError", "TypeError", "RuntimeError", "NotImplementedError",
                "KeyError", "IndexError", "AttributeError", "Exception",
                "AssertionError", "NameError", "ImportError", "LookupError",
                "ZeroDivisionError", "OSError", "StopIteration",
                "FileNotFoundError", "UserWarning", "DeprecationWarning",
                "RuntimeWarning", "Warning"):
        return g.mk("exc", [S(a) for a in args], val=name)
    if name == "next":
        return I.elem_at(args[0], g.mk("anyidx"), st, ("next", id(node)))
    if name == "slice":
        a = [S(x) for x in args]
        if len(a) == 1:
            a = [I.NONE, a[0], I.NONE]
        elif len(a) == 2:
            a = a + [I.NONE]
        return g.mk("slice", a)
    if name == "vars":
        h = I.hobj(args[0], st) if args else None
        if h is not None and h.kind == "obj":
            return I.new_dict(st, dict(h.attrs), ("vars", id(node)))
    if name == "open":
        I.ev("io", name, st, node)
    if name == "delattr":
        h = I.hobj(args[0], st)
        if h is not None and args[1].op == "const" and h.kind == "obj":
            st.w(args[0].val).attrs[args[1].val] = I.UNDEF
            I.ev("hmut", (args[0].val, "delattr"), st, node, args[0])
        return I.NONE
    return g.mk("call", [S(a) for a in args],
                [(k, S(v)) for k, v in sorted(kw.items())],
                val="builtins." + name, site=I.site(node))


def typeof(I, a, st):
    g = I.g
    if a.op == "const":
        return g.mk("builtin", val=type(a.val).__name__)
    if a.op == "tuple":
        return g.mk("builtin", val="tuple")
    h = I.hobj(a, st)
    if h is not None:
        if h.kind == "obj" and h.cls is not None:
            return g.mk("class", val=h.cls, extra=st.heap[h.cls].attrs["__name__"].val)
        if h.kind in ("list", "dict", "set"):
            return g.mk("builtin", val=h.kind)
    if a.op == "sym" and a.extra in ("array", "kpoints"):
        return g.mk("ext", val="numpy.ndarray")
    if a.op == "sym" and a.extra in ("float", "int", "str"):
        return g.mk("builtin", val=a.extra)
    if I.is_array(a):
        return g.mk("ext", val="numpy.ndarray")
    if a.op in ("phi", "join", "mu"):
        ts = [typeof(I, x, st) for x in I.alts(a)]
        if ts and all(t is ts[0] for t in ts):
            return ts[0]
    return g.mk("typeof", (I.snapshot(a, st),))


def isinst(I, a, t, st, node):
    ts = list(t.args) if t.op == "tuple" else [t]
    ty = typeof(I, a, st)
    if ty.op == "class":
        if all(x.op in ("class", "builtin", "ext") for x in ts):
            mro = I.mro(ty.val, st)
            return I.const(any((x.op == "class" and x.val in mro) or
                               (x.op == "builtin" and x.val == "object") for x in ts))
    if ty.op == "builtin":
        if all(x.op in ("class", "builtin", "ext") for x in ts):
            r = any(x.op == "builtin" and (x.val == ty.val or
                    (x.val == "int" and ty.val == "bool") or x.val == "object")
                    for x in ts)
            if not r and ty.val in ("int", "float") and any(
                    x.op == "ext" and ("number" in x.val.lower() or "float" in x.val
                                       or "int" in x.val) for x in ts):
                r = True if ty.val == "float" else None
            if r is not None:
                return I.const(r)
    if ty.op == "ext":
        if all(x.op in ("class", "builtin", "ext") for x in ts):
            return I.const(any(x is ty for x in ts))
    if a.op in ("phi", "join"):
        rs = [isinst(I, x, t, st, node) for x in I.alts(a)]
        if rs and all(r is rs[0] for r in rs):
            return rs[0]
    return I.g.mk("isinstance", (I.snapshot(a, st), I.snapshot(t, st)))


def container_method(I, b, name, args, kw, st, node):
    g = I.g
    S = lambda n: I.snapshot(n, st)
    if b.op == "tuple":
        if name == "index":
            return g.mk("unknown", [S(b)] + [S(a) for a in args], val="tuple.index")
        if name == "count":
            return g.mk("unknown", [S(b)] + [S(a) for a in args], val="tuple.count")
        I.ev("missing_attr", ("tuple", name), st, node)
        I.do_raise(st, "AttributeError", node, implicit=True)
        return I.UNDEF
    h = st.heap.get(b.val)
    if h is None:
        return g.mk("unknown", val="dangling." + name)
    if h.kind == "list":
        if name == "append":
            I.ev("hmut", (b.val, name), st, node, b)
            w = st.w(b.val)
            if w.elems is not None and w.summ is None and len(w.elems) < 40:
                w.elems = w.elems + [args[0]]
            else:
                I.to_summary(b, st)
                w = st.w(b.val)
                w.summ = I.join_nodes([w.summ, args[0]])
            return I.NONE
        if name == "extend":
            I.list_extend(b, args[0], st, node)
            return I.NONE
        if name == "insert":
            I.ev("hmut", (b.val, name), st, node, b)
            w = st.w(b.val)
            if w.elems is not None and args[0].op == "const" and w.summ is None and \
                    len(w.elems) < 40:
                e = list(w.elems)
                e.insert(args[0].val, args[1])
                w.elems = e
            else:
                I.to_summary(b, st)
                w = st.w(b.val)
                w.summ = I.join_nodes([w.summ, args[1]])
            return I.NONE
        if name == "pop":
            I.ev("hmut", (b.val, name), st, node, b)
            w = st.w(b.val)
            if w.elems is not None and w.summ is None and w.elems and \
                    (not args or args[0].op == "const"):
                e = list(w.elems)
                i = args[0].val if args else -1
                if -len(e) <= i < len(e):
                    v = e.pop(i)
                    w.elems = e
                    return v
            v = I.elem_at(b, g.mk("anyidx"), st, None)
            I.to_summary(b, st)
            return v
        if name in ("sort", "reverse", "remove", "clear"):
            I.ev("hmut", (b.val, name), st, node, b)
            w = st.w(b.val)
            if name == "clear":
                w.elems, w.summ = [], None
            elif name == "reverse" and w.elems is not None and w.summ is None:
                w.elems = w.elems[::-1]
            else:
                I.to_summary(b, st)
            return I.NONE
        if name == "copy":
            if h.elems is not None and h.summ is None:
                return I.new_list(st, h.elems, ("copy", id(node)))
            return I.new_list(st, [], ("copy", id(node)),
                              summ=I.join_nodes((h.elems or []) + [h.summ]),
                              known=False)
        if name in ("index", "count"):
            return g.mk("meth", [S(b)] + [S(a) for a in args], val=name)
    if h.kind == "set":
        if name in ("add", "update", "discard", "remove", "clear"):
            I.ev("hmut", (b.val, name), st, node, b)
            I.to_summary(b, st)
            w = st.w(b.val)
            if name == "add":
                w.summ = I.join_nodes([w.summ, args[0]])
            elif name == "update":
                w.summ = I.join_nodes([w.summ] + [
                    I.elem_at(a, g.mk("anyidx"), st, None) for a in args])
            return I.NONE
        return g.mk("meth", [S(b)] + [S(a) for a in args], val=name)
    if h.kind == "dict":
        if name == "keys":
            if h.summ is None and all(I.has_undef(v) == "no" for v in h.attrs.values()):
                return g.mk("tuple", [I.const(k) for k in h.attrs])
            return b
        if name in ("values", "items"):
            if h.summ is None and all(I.has_undef(v) == "no" for v in h.attrs.values()):
                vs = [(I.const(k), v) for k, v in h.attrs.items()]
                if name == "values":
                    return g.mk("tuple", [v for _, v in vs])
                return g.mk("tuple", [g.mk("tuple", t) for t in vs])
            j = I.join_nodes([I.strip_undef(v) for v in h.attrs.values()] + [h.summ])
            if j is None:
                j = g.mk("unknown", val="dict value")
            el = j
            if name == "items":
                el = g.mk("tuple", (g.mk("dictkey", (b, g.mk("anyidx"))), j))
            return I.new_list(st, [], (name, id(node)), summ=el, known=False)
        if name == "get":
            return I.dict_get(b, h, args[0], st, node,
                              args[1] if len(args) > 1 else I.NONE)
        if name in ("update", "pop", "popitem", "clear", "setdefault"):
            I.ev("hmut", (b.val, name), st, node, b)
            w = st.w(b.val)
            if name == "update":
                for a in args:
                    for x in I.alts(a):
                        hh = I.hobj(x, st)
                        if hh is not None and hh.kind == "dict":
                            w.attrs.update(hh.attrs)
                            w.summ = I.join_nodes([w.summ, hh.summ])
                        else:
                            w.summ = I.join_nodes([w.summ, S(x)])
                for k, v in kw.items():
                    if k == "**":
                        w.summ = I.join_nodes([w.summ, v])
                    else:
                        w.attrs[k] = v
                return I.NONE
            if name == "clear":
                w.attrs, w.summ = {}, None
                return I.NONE
            if name == "setdefault":
                k = args[0]
                d = args[1] if len(args) > 1 else I.NONE
                if k.op == "const":
                    if k.val in w.attrs:
                        return w.attrs[k.val]
                    if w.summ is None:
                        w.attrs[k.val] = d
                        return d
                w.summ = I.join_nodes([w.summ, d])
                return w.summ
            if name == "pop":
                k = args[0]
                if k.op == "const" and k.val in w.attrs:
                    v = w.attrs.pop(k.val)
                    return I.strip_undef(v)
                if k.op == "const" and w.summ is None:
                    if len(args) > 1:
                        return args[1]
                    I.ev("key_error", (b.val, k.val), st, node)
                    I.do_raise(st, "KeyError", node, implicit=True)
                    return I.UNDEF
                return I.join_nodes([w.summ] + list(args[1:])) or \
                    g.mk("unknown", val="dict.pop")
        if name == "copy":
            return I.new_dict(st, dict(h.attrs), ("copy", id(node)), h.summ)
        if name == "fromkeys":
            return g.mk("unknown", val="fromkeys")
    I.ev("missing_attr", (h.kind, name), st, node)
    I.do_raise(st, "AttributeError", node, implicit=True)
    return I.UNDEF


UFUNC2 = {"add": "add", "subtract": "sub", "multiply": "mul", "divide": "div",
          "true_divide": "div", "power": "pow"}


def static_shape(I, n, st, d=0):
    """Shape of a literal (nested list / tuple / scalar / array of one)."""
    if d > 6:
        return None
    if n.op == "ref":
        h = st.heap.get(n.val)
        if h is not None and h.kind == "obj":
            return ()
        if h is not None and h.kind == "list" and h.summ is None:
            els = h.elems or []
        else:
            return None
    elif n.op in ("tuple", "seq"):
        els = n.args
    elif n.op == "const" and isinstance(n.val, (int, float, complex)):
        return ()
    elif n.op == "sym" and n.extra in (None, "int", "bool"):
        return ()
    elif n.op in ("add", "sub", "mul", "div", "pow", "neg"):
        ss = [static_shape(I, a, st, d + 1) for a in n.args]
        return () if all(x == () for x in ss) else None
    elif n.op == "call" and canon(n.val) in ("array", "asarray") and n.args:
        return static_shape(I, n.args[0], st, d + 1)
    else:
        return None
    ss = [static_shape(I, a, st, d + 1) for a in els]
    if any(x is None for x in ss) or len(set(ss)) > 1:
        return None
    return (len(els),) + (ss[0] if ss else ())


DEEPCOPY = ("copy.deepcopy", "copy.copy")


def ext_call(I, name, args, kw, st, node):
    g = I.g
    S = lambda n: I.snapshot(n, st)
    cn = canon(name)
    if name in ("SYM", "client.SYM"):
        if args[0].op != "const" or not isinstance(args[0].val, str):
            return g.mk("unknown", [S(a) for a in args], val="SYM")
        return g.mk("sym", val=args[0].val, extra=args[1].val if len(args) > 1 else None)
    if name == "client.VJP":
        # the registered vector-Jacobian product of one argument of a primitive
        out = I.NONE
        for e in I.events:
            if e.kind == "defvjp" and args[0].op == "prim" and e.data[0] and e.data[0][0] is args[0]:
                an = I.concrete_iter(e.data[1]["argnums"], st) if e.data[1].get("argnums") is not None else \
                    [I.const(i) for i in range(len(e.data[0]) - 1)]
                for a, f in zip(an or (), e.data[0][1:]):
                    if a.op == "const" and a.val == args[1].val:
                        out = f
        if args[0].op == "prim" and out.op == "const" and out.val is None:
            I.ev("missing_rule", args[1].val, st, node)
        return out
    if name in PRINT_EXT or name.endswith("console.print") or \
            name.startswith("rich."):
        if name == "rich.print" or name.startswith("sys."):
            I.ev("print", name, st, node)
    if name.startswith("sys.stdout") or name.startswith("sys.stderr"):
        I.ev("print", name, st, node)
        return I.NONE
    if name == "functools.partial":
        return g.mk("partial", [args[0]] + list(args[1:]), sorted(kw.items()))
    if name in ("autograd.extend.primitive",):
        return g.mk("prim", (args[0],), extra=("prim", id(node)))
    if name in ("autograd.extend.defvjp",):
        I.ev("defvjp", (args, kw), st, node)
        return I.NONE
    if name in ("itertools.zip_longest",):
        if any(a.op == "star" for a in args):
            return g.mk("pyiter", (args[0].args[0],), extra="ziplongest*")
        return g.mk("pyiter", args, extra="zip")
    if name in ("functools.lru_cache", "functools.cache", "functools.wraps",
                "functools.cached_property"):
        I.ev("cache_decorator", name, st, node)
        if args and args[0].op in ("func", "bound"):
            return args[0]
        return g.mk("builtin", val="%identity")
    if name in DEEPCOPY:
        a = args[0]
        h = I.hobj(a, st)
        if h is not None and h.kind in ("list", "dict", "set"):
            loc = I.alloc(st, h.kind, ("deepcopy", id(node)))
            w = st.heap[loc]
            w.elems = list(h.elems) if h.elems is not None else None
            w.attrs = dict(h.attrs)
            w.summ = h.summ
            return I.ref(loc)
        if h is not None and h.kind == "obj":
            loc = I.alloc(st, "obj", ("deepcopy", id(node)), h.cls)
            st.heap[loc].attrs = dict(h.attrs)
            return I.ref(loc)
        return g.mk("call", (S(a),), val="numpy.copy", extra=("new", I.ctx, id(node)),
                    site=I.site(node))
    if name == "scipy.optimize.brentq" or name == "scipy.optimize.root_scalar":
        f = args[0]
        extra = kw.get("args")
        ex = []
        if extra is not None:
            seq = I.concrete_iter(extra, st)
            if seq is not None:
                ex = seq
            else:
                ex = [g.mk("unknown", (S(extra),), val="brentq args")]
        x = g.mk("rootvar", [S(a) for a in args[1:3]], extra=(id(node), I.ctx))
        if f.op in ("func", "bound", "partial", "phi"):
            fv = I.call(f, [x] + ex, {}, st, node)
            if st.dead:
                return I.UNDEF
        else:
            fv = I.NONE
        return g.mk("root", [x, S(fv)] + [S(a) for a in args[1:3]], site=I.site(node))
    # one name per operation
    if not kw and cn in UFUNC2 and len(args) == 2:
        return I.binop(UFUNC2[cn], args[0], args[1], st, node)
    if not kw and len(args) == 1 and cn in ("negative", "square", "conjugate", "absolute"):
        if cn == "negative":
            return g.mk("neg", (S(args[0]),), site=I.site(node))
        if cn == "square":
            return I.binop("pow", args[0], I.const(2), st, node)
        name = name.replace("conjugate", "conj").replace("absolute", "abs")
        cn = canon(name)
    if cn == "matmul" and len(args) == 2:
        name = name[:-6] + "dot"
        cn = "dot"
    if cn in ("shape", "ndim", "size") and len(args) == 1:
        sh = static_shape(I, args[0], st)
        if sh is not None:
            n = 1
            for x in sh:
                n *= x
            return {"shape": g.mk("tuple", [I.const(x) for x in sh]),
                    "ndim": I.const(len(sh)), "size": I.const(n)}[cn]
        if cn == "shape" and args[0].op in ("phi",):
            pass
    # keyword / positional out= arguments mutate their target
    if "out" in kw:
        I.ev("mutate", cn + "(out=)", st, node, kw["out"])
        new = g.mk("call", [S(a) for a in args], val=name, extra=("out", I.ctx),
                   site=I.site(node))
        I.replace_all(kw["out"], new, st)
        return new
    if cn in ("fill_diagonal", "copyto", "put", "place", "putmask"):
        I.ev("mutate", cn, st, node, args[0])
        new = g.mk("call", [S(a) for a in args], val=name, site=I.site(node))
        I.replace_all(args[0], new, st)
        return I.NONE
    if cn.startswith("random.") or name.startswith("random."):
        I.ev("rng", name, st, node)
    if name in ("time.time", "time.perf_counter", "time.process_time"):
        return g.mk("clock", site=I.site(node))
    if cn == "meshgrid" and len(args) == 2:
        pass
    if name.startswith(("os.", "shutil.", "subprocess.")):
        I.ev("io", name, st, node)
    I.ev("extcall", (cn, tuple(args), dict(kw)), st, node)
    for a in list(args) + list(kw.values()):
        if a.op == "ref":
            h = st.heap.get(a.val)
            if h is not None and h.kind == "obj":
                I.ev("escape", name, st, node, a)
        elif a.op in ("func", "bound") and cn not in ("vectorize",):
            I.ev("escape_fn", name, st, node, a)
    extra = None
    last = cn.split(".")[-1]
    if last in ALLOC:
        extra = ("new", I.ctx, id(node))
    return g.mk("call", [S(a) for a in args],
                [(k, S(v)) for k, v in sorted(kw.items())],
                val=name, site=I.site(node), extra=extra)
