"""P19: results are reproducible (source-of-nondeterminism reachability)."""
import ast

from sa import clients as C
from sa.engine import canon
from sa.util import client_val, reach, path_to, explain, func_of

EXPLANATION = (
    "Backward slices of every result of every solver configuration are searched "
    "for sources of nondeterminism: random draws that are not explicitly seeded, "
    "the clock, process, environment and identity queries, uninitialised memory.  "
    "Every function of the package is moreover searched (with import aliases "
    "resolved) for draws from or reseeding of the process-wide random state.")
RULE = "no nondeterminism source in the slice of a result; no use of the global random state"
ASSUMPTIONS = ["the start vector of the ARPACK iteration only affects rounding",
               "numerical kernels are deterministic",
               "iteration over sets of numbers is deterministic"]
REQUIRED = {"results_sliced": 100, "functions_searched": 100}

SOURCES = ("os.getpid", "os.urandom", "os.environ", "os.getenv", "os.times", "uuid.",
           "secrets.", "datetime.", "time.", "threading.get_ident", "platform.",
           "socket.", "getpass.", "tempfile.", "psutil.")
SEEDED = ("default_rng", "RandomState", "Generator", "SeedSequence", "PCG64", "MT19937",
          "Philox", "SFC64", "BitGenerator")
ATTRS = ["F", "V", "FI", "RC", "RG", "UB", "fe", "fh", "fd", "xy", "xz", "yz", "ee", "ri",
         "rs", "EE", "EV", "pot", "fw", "wf", "PE", "PI", "PV", "FX", "FP", "KP", "GV", "KS",
         "e", "b", "k", "zg", "gr"]


def clients(tier):
    c = dict(C.corpus(), program=None)
    c["gme_fields"] = C.gme("abs", post=C.READ_GME + C.READ_IM + C.FIELDS + C.RAD)
    c["gme_fields_tbt"] = C.gme("tbt", post=C.READ_GME + C.READ_IM + C.FIELDS + C.RAD)
    c["structure"] = C.phc(layers=2, shape="poly", clad=True) + """
e = phc.get_eps((SYM('x', 'array'), SYM('y', 'array'), SYM('z', 'array')))
b = phc.get_eps_bounds()
k = lat.bz_path(['G', 'X', 'M'], [10])
zg = phc.z_grid()
gr = lat.xy_grid()
"""
    return c


def source(n):
    """description of a nondeterminism source, or None"""
    if n.op == "clock":
        return "the clock"
    if n.op == "ext":
        nm = str(n.val)
        if nm.startswith(SOURCES) and not nm.startswith("time.sleep"):
            return nm if nm.split(".")[0] not in ("os",) or "." in nm else None
        return None
    if n.op != "call":
        return None
    nm = str(n.val)
    cn = canon(nm)
    if ".random." in "." + nm or cn.startswith("random."):
        last = nm.split(".")[-1]
        if last in SEEDED:
            return None if n.args or n.kw else "unseeded %s" % nm
        return "a draw from the global random state (%s)" % nm
    if nm.startswith(SOURCES):
        return nm
    if nm in ("id", "hash", "builtins.id", "builtins.hash", "input", "open", "builtins.open"):
        return nm + "()"
    return None


def analyse(name, I, st, res):
    if st is None:
        return
    for v in ATTRS:
        x = client_val(I, st, v)
        if x is None:
            continue
        res.count("results_sliced")
        sl = reach(I, st, [x])
        res.count("nodes_in_slices", len(sl))
        for n in sl.values():
            s = source(n)
            if s is None:
                continue
            p = path_to(I, st, x, n)
            res.find("nondeterministic-result", "%s.%s:%s" % (
                name.split("_")[0], v, func_of(n.site)),
                "result %s of '%s' depends on %s: %s" % (v, name, s, explain(p)), n.site)


def analyse_program(name, prog, res):
    for m in prog.modules.values():
        al = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        al[a.asname] = a.name
                    else:
                        al[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and n.level == 0:
                for a in n.names:
                    al[a.asname or a.name] = "%s.%s" % (n.module, a.name)

        def dotted(e):
            parts = []
            while isinstance(e, ast.Attribute):
                parts.append(e.attr)
                e = e.value
            if isinstance(e, ast.Name) and e.id in al:
                return ".".join([al[e.id]] + parts[::-1])
            return None

        def walk(n, qual):
            for c in ast.iter_child_nodes(n):
                q = qual
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    q = "%s.%s" % (qual, c.name)
                    if isinstance(c, ast.FunctionDef):
                        res.count("functions_searched")
                if isinstance(c, ast.Call):
                    d = dotted(c.func)
                    if d and (d.startswith(("numpy.random.", "random.", "autograd.numpy.random."))):
                        last = d.split(".")[-1]
                        if last not in SEEDED and last not in ("Random", "SystemRandom"):
                            res.find("global-random-state", "%s:%s" % (q, last),
                                     "%s uses the process-wide random state (%s)" % (q, d),
                                     (m.rel, c.lineno, q))
                        elif not c.args and not c.keywords:
                            res.find("unseeded-generator", "%s:%s" % (q, last),
                                     "%s creates an unseeded random generator (%s)" % (q, d),
                                     (m.rel, c.lineno, q))
                walk(c, q)
        walk(m.tree, m.name)
