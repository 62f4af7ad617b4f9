"""Queries on analysed clients shared by the property checkers."""
from .ir import pp

CLIENT = ("module", "client")


def client_val(I, st, name):
    if st is None:
        return None
    v = st.heap[CLIENT].attrs.get(name)
    return v


SIZE_FNS = {"numpy.shape", "builtins.len", "numpy.size", "numpy.ndim",
            "autograd.numpy.shape", "autograd.numpy.size", "len"}


def succ(st, n, control=True):
    """Operands of a node, with heap objects expanded to their contents."""
    if n.op == "ref":
        h = st.heap.get(n.val) if st is not None else None
        if h is None or h.kind in ("module", "class", "env"):
            return []
        return list(h.attrs.values()) + list(h.elems or []) + \
            ([h.summ] if h.summ is not None else [])
    if n.op == "phi" and not control:
        return list(n.args[1:])
    if n.op == "call" and n.val in SIZE_FNS and n.args and \
            n.args[0].op in ("seq", "tuple"):
        # the size of a list of objects does not depend on their contents
        return [a for a in n.args[0].args if a.op != "ref"]
    return n.operands()


def reach(I, st, roots, control=True, stop=None):
    """Backward slice: every node the roots depend on (data, selection
    conditions of phi nodes, and contents of heap objects)."""
    seen = {}
    stk = [r for r in roots if r is not None]
    while stk:
        n = stk.pop()
        if n.id in seen:
            continue
        seen[n.id] = n
        if stop is not None and stop(n):
            continue
        stk.extend(succ(st, n, control))
    return seen


def syms(nodes):
    return {n.val: n for n in nodes.values() if n.op == "sym"}


def path_to(I, st, root, target, control=True, limit=40):
    """One dependence path root -> target as a list of nodes (for reports)."""
    prev = {root.id: None}
    nodes = {root.id: root}
    q = [root]
    while q:
        n = q.pop(0)
        if n is target:
            out = []
            x = n
            while x is not None:
                out.append(x)
                p = prev[x.id]
                x = nodes[p] if p is not None else None
            return out[::-1]
        ch = succ(st, n, control)
        for c in ch:
            if c.id not in prev:
                prev[c.id] = n.id
                nodes[c.id] = c
                q.append(c)
    return []


def explain(path):
    out, last = [], None
    for n in path:
        if n.site and n.site != last and n.site[0] != "<client>":
            out.append("%s:%s %s" % (n.site[0], n.site[1], n.site[2].split(":")[-1]))
            last = n.site
    return " <- ".join(out[:8])


def func_of(site):
    return site[2].split(":")[-1] if site else "?"


def reach_ctx(I, st, roots, par):
    """Backward slice in one mode-parity context: selections which the parity of
    the mode indexes decides follow the selected operand only."""
    from .dims import Dims
    dm = Dims(I, st, {}, False, par)
    seen = {}
    stk = [r for r in roots if r is not None]
    while stk:
        n = stk.pop()
        if n.id in seen:
            continue
        seen[n.id] = n
        if n.op == "phi":
            c = dm.cond(n.args[0])
            if c is not None:
                stk.append(n.args[1] if c else n.args[2])
                continue
        stk.extend(succ(st, n, True))
    return seen
