#!/usr/bin/env python3
"""Writes DESIGN.md from its parts, the property table and the check modules."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)


def rd(*p):
    with open(os.path.join(V, *p), encoding="utf-8") as fh:
        return fh.read()


props = [json.loads(l) for l in rd("properties.jsonl").splitlines() if l.strip()]
man = json.loads(rd("MANIFEST.json"))
tech = {c["property"]: c for c in man["checks"]}
nas = {c["property"]: c["reason"] for c in man["not_applicable"]}
out = [rd("tools", "design_head.md"), "## Properties decided\n"]
cost = {}
try:
    for l in rd("tools", "cost.txt").splitlines():
        k, v = l.split(" ", 1)
        cost[k] = v
except OSError:
    pass
for p in props:
    pid = p["id"]
    if pid in nas:
        continue
    m = importlib.import_module("checks." + pid.lower())
    out.append("### %s %s\n" % (pid, p["title"]))
    out.append("*Statement.* %s\n" % p["statement"])
    out.append("*Decided by* %s (`checks/%s.py`). %s\n" % (tech[pid]["technique"], pid.lower(), m.EXPLANATION))
    out.append("*Rule (oracle).* %s.  *Assumptions.* %s.\n" % (m.RULE, "; ".join(m.ASSUMPTIONS) or "none"))
    out.append("*Bounds.* %s.  %s" % (p["quantifier"]["text"], tech[pid]["level_note"]))
    out.append("*Out of reach of the tests because:* %s%s\n" % (
        p["why_tests_cant"], "  *Cost.* %s" % cost[pid] if pid in cost else ""))
out.append("## Not applicable\n")
for p in props:
    if p["id"] in nas:
        out.append("* %s %s: %s" % (p["id"], p["title"], nas[p["id"]]))
out.append(rd("tools", "design_tail.md"))
out.append("## Planted changes and what catches them\n")
out.append("| change | property | breaks | caught by |\n|---|---|---|---|")
try:
    caught = dict(l.split(" ", 1) for l in rd("tools", "catch.txt").splitlines() if l.strip())
except OSError:
    caught = {}
sd = os.path.join(V, "seeded")
for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.loads(rd("seeded", i, "meta.json"))
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/").replace("\n", " "),
                                            caught.get(i, "?")))
with open(os.path.join(V, "DESIGN.md"), "w", encoding="utf-8") as fh:
    fh.write("\n".join(out) + "\n")
