"""Check driver: analyses client programs in parallel, collects findings,
applies the known-findings file, writes evidence, sets the exit code."""
import json
import os
import sys
import threading
import time
import traceback
from multiprocessing import get_context, TimeoutError as mp_timeout

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LEGUME_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Finding(object):
    """rule + construct identify a finding (never a line number)."""

    def __init__(self, rule, construct, msg, site=None, client=None):
        self.rule = rule
        self.construct = construct
        self.msg = msg
        self.site = site
        self.client = client

    @property
    def key(self):
        return "%s|%s" % (self.rule, self.construct)


class Result(object):
    def __init__(self):
        self.findings = []
        self.stats = {}
        self.notes = []
        self.samples = []

    def find(self, rule, construct, msg, site=None):
        self.findings.append(Finding(rule, construct, msg, site))

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def sample(self, s):
        if len(self.samples) < 6 and s not in self.samples:
            self.samples.append(s)


def sitestr(site):
    if site is None:
        return "?"
    return "%s:%s (%s)" % (site[0], site[1], site[2])


def _worker(job):
    pid, name, spec = job
    out = []

    def body():
        try:
            mod = load(pid)
            from .engine import Program, Interp, AnalysisError
            res = Result()
            t0 = time.time()
            prog = Program(REPO)
            if spec is None:
                mod.analyse_program(name, prog, res)
                out.append((name, "ok", res, time.time() - t0))
                return
            kwargs = {}
            if hasattr(mod, "interp_args"):
                kwargs = mod.interp_args(name)
            I = Interp(prog, **kwargs)
            if hasattr(mod, "prepare"):
                mod.prepare(name, I)
            if hasattr(mod, "decl"):
                from .alg import Oracle
                I.oracle = Oracle(I, mod.decl(name))
            st = I.run_client(spec)
            I.result_state = st
            res.count("clients_analysed")
            res.count("statements_interpreted", I.n_stmts)
            res.count("value_graph_nodes", len(I.g.nodes))
            res.count("functions_inlined", len(I.inlined))
            res.count("call_sites", len(I.callsites))
            res.stats["max:functions"] = len(I.inlined)
            status = "ok" if st is not None else "dead"
            mod.analyse(name, I, st, res)
            res.count("constructs_not_modelled", len(I.internal))
            for what, where in I.internal[:3]:
                res.note("not modelled: %s at %s" % (what, sitestr(where)))
            out.append((name, status, res, time.time() - t0))
        except Exception:
            out.append((name, "error", traceback.format_exc(), 0))
    threading.stack_size(512 * 1024 * 1024)
    th = threading.Thread(target=body)
    th.start()
    th.join()
    if not out:
        return (name, "error", "analysis thread died", 0)
    return out[0]


def load(pid):
    import importlib
    return importlib.import_module("checks.%s" % pid.lower())


def read_known():
    known, fixed = {}, []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            if line.startswith("fixed:"):
                fixed.append(line)
                continue
            if line.startswith("known:"):
                f = dict(x.strip().split("=", 1) for x in line[6:].split(" :: ")
                         if "=" in x)
                known.setdefault(f["property"], {})[f["key"]] = f.get("what", "")
    return known, fixed


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = load(pid)
    clients = mod.clients(tier)
    jobs = [(pid, n, s) for n, s in clients.items()]
    errors, dead, results = [], [], []
    ncpu = min(8, os.cpu_count() or 1, max(1, len(jobs)))
    if ncpu == 1 or os.environ.get("SA_SERIAL"):
        it = map(_worker, jobs)
    else:
        pool = get_context("fork").Pool(ncpu, maxtasksperchild=4)
        it = pool.imap_unordered(_worker, jobs)
    stats, notes, samples, findings, times = {}, [], [], {}, {}
    deadline = t0 + float(os.environ.get("SA_DEADLINE", "800"))
    pending = set(clients)

    def outcomes():
        while True:
            try:
                if hasattr(it, "_index"):
                    yield it.next(max(1.0, deadline - time.time()))
                else:
                    yield next(it)
            except StopIteration:
                return
            except mp_timeout:
                return
    for name, status, res, dt in outcomes():
        pending.discard(name)
        times[name] = round(dt, 2)
        if status == "error":
            errors.append((name, res))
            continue
        if status == "dead":
            dead.append(name)
        for k, v in res.stats.items():
            if k.startswith("max:"):
                stats[k] = max(stats.get(k, 0), v)
            else:
                stats[k] = stats.get(k, 0) + v
        for n in res.notes:
            if n not in notes:
                notes.append(n)
        for s in res.samples:
            if s not in samples and len(samples) < 12:
                samples.append(s)
        for f in res.findings:
            f.client = name
            findings.setdefault(f.key, []).append(f)
        results.append((name, res))
    if hasattr(mod, "finish"):
        r2 = Result()
        mod.finish(dict(results), r2, dead)
        for f in r2.findings:
            f.client = "(cross-client)"
            findings.setdefault(f.key, []).append(f)
        for k, v in r2.stats.items():
            stats[k] = stats.get(k, 0) + v
        notes += [n for n in r2.notes if n not in notes]
        samples += r2.samples
    if pending and hasattr(it, "_index"):
        pool.terminate()
    known, _ = read_known()
    mine = known.get(pid, {})
    viol = []
    for key in sorted(findings):
        f = findings[key][0]
        if key in mine:
            print("KNOWN-FINDING: property=%s %s [%s] at %s" % (
                pid, mine[key] or f.msg, key, sitestr(f.site)))
            continue
        viol.append(key)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    rep = os.path.join(evdir, "%s.report.txt" % pid)
    with open(rep, "w") as fh:
        fh.write("property %s tier %s\n" % (pid, tier))
        for key in viol:
            for f in findings[key][:4]:
                fh.write("\nrule: %s\nconstruct: %s\nwhere: %s\nclient: %s\n%s\n" % (
                    f.rule, f.construct, sitestr(f.site), f.client, f.msg))
        for n, e in errors:
            fh.write("\nANALYSIS ERROR in client %s\n%s\n" % (n, e))
    stats["clients_not_completing"] = len(dead)
    notes += ["every path of client %s ends in an explicit error" % d for d in dead]
    stats["clients_not_analysed"] = len(errors) + len(pending)
    for n, e in errors[:5]:
        notes.append("client %s not analysed: %s" % (n, e.strip().splitlines()[-1]))
    for n in sorted(pending)[:5]:
        notes.append("client %s not analysed within the time budget" % n)
    cov = dict(sorted((k.replace("max:", "largest_client_"), v)
                      for k, v in stats.items()))
    cov["explanation"] = mod.EXPLANATION
    cov["rule"] = getattr(mod, "RULE", mod.EXPLANATION)
    cov["samples"] = samples or ["(none)"]
    cov["notes"] = notes
    cov["clients"] = times
    cov["known_findings_matched"] = sorted(k for k in findings if k in mine)
    ev = {"property": pid, "tier": tier, "seed": seed,
          "level": getattr(mod, "LEVEL", "other"), "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 3), "violations": len(viol)}
    with open(os.path.join(evdir, "%s.json" % pid), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True, default=str)
    for key in viol:
        f = findings[key][0]
        print("%s: %s\n    at %s [client %s]" % (f.rule, f.msg, sitestr(f.site), f.client))
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        sys.stdout.flush()
        return 1
    need = getattr(mod, "REQUIRED", {})
    lacking = ["%s=%s<%s" % (k, stats.get(k, 0), v) for k, v in need.items()
               if stats.get(k, 0) < v]
    if errors:
        for n, e in errors[:3]:
            sys.stderr.write("analysis error in %s:\n%s\n" % (n, e))
    broken = 2 * (len(errors) + len(pending)) > len(clients)
    if broken or lacking or (results and len(dead) == len(results)
                             and not getattr(mod, "ALLOW_DEAD", False)):
        sys.stderr.write("ANALYSIS-BROKEN property=%s errors=%d lacking=%s dead=%s\n" % (
            pid, len(errors), lacking, dead))
        return 2
    print("OK property=%s %s" % (pid, " ".join(
        "%s=%s" % kv for kv in sorted(stats.items()))))
    return 0
