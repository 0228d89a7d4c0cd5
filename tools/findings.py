#!/usr/bin/env python3
"""Writes known_findings.txt: repaired defects (hash looked up by commit subject) and recorded ones."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"]).decode().splitlines()]
FIXED = []
KNOWN = []
exec(open(os.path.join(V, "tools", "findings_list.py")).read())
out = ["# Genuine defects of starjiang/lce found by these checks.",
       "# fixed: repaired by the commit named (suppresses nothing).  known: recorded, not repaired."]
used = set()
for prop, subj, what in FIXED:
    m = [(h, s) for h, s in log if s.startswith("fix: " + subj)]
    assert len(m) == 1, (subj, m)
    used.add(m[0][0])
    for p in prop.split():
        out.append("fixed: property=%s %s %s" % (p, m[0][0], what))
for prop, i, what in KNOWN:
    out.append("known: property=%s id=%s %s" % (prop, i, what))
for h, s in log:
    if s.startswith("fix:") and h not in used:
        print("not recorded:", h, s)
open(os.path.join(V, "known_findings.txt"), "w").write("\n".join(out) + "\n")
print(len(FIXED), "fixed,", len(KNOWN), "known")
