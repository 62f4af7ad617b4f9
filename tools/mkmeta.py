#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the single table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALLF = ["legume/gme/gme.py", "legume/pwe/pwe.py", "legume/exc/exc.py", "legume/pol/pol.py"]
P = []      # claimed
NA = []     # not applicable


def prop(pid, title, statement, over, text, why, files, mech, technique, note):
    P.append((pid, technique, note))
    PR.append(mk(pid, title, statement, over, text, why, files, mech))


def mk(pid, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (pid, len(title))
    return {"id": pid, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [
                {"name": n, "where": w} for n, w in mech]}}


def na(pid, title, statement, over, text, why, files, mech, reason):
    NA.append((pid, reason))
    PR.append(mk(pid, title, statement, over, text, why, files, mech))


PR = []
exec(open(os.path.join(V, "tools", "props.py"), encoding="utf-8").read())

PR.sort(key=lambda p: p["id"])
ids = [p["id"] for p in PR]
assert len(set(ids)) == len(ids)
with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf-8") as fh:
    for p in PR:
        fh.write(json.dumps(p, ensure_ascii=False) + "\n")
man = {"version": 1,
       "setup_cmd": "python3 -B tools/selftest.py",
       "checks": [{"property": pid, "quick_cmd": "python3 -B check.py %s" % pid,
                   "thorough_cmd": "python3 -B check.py %s" % pid,
                   "evidence_file": "evidence/%s.json" % pid,
                   "technique": t, "level": "other", "level_note": n}
                  for pid, t, n in sorted(P)],
       "not_applicable": [{"property": pid, "reason": r} for pid, r in sorted(NA)]}
with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as fh:
    json.dump(man, fh, indent=1, ensure_ascii=False)
    fh.write("\n")
print(len(P), "claimed", len(NA), "not applicable")
