#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.in.md, known-findings.txt and
tools/matrix.txt (seed, property, what caught it)."""
import os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(H + "/tools/design.in.md").read()
fixed, known = [], []
for l in open(H + "/known-findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        fixed.append("- %s (%s): %s" % m.groups())
    m = re.match(r"known: property=(\S+) key=(\S+) case=(\S+) (.*)", l)
    if m:
        known.append("- %s, `%s` (%s): %s" % m.groups())
rows = ["| planted bug | property | caught by |", "|---|---|---|"]
p = H + "/tools/matrix.txt"
if os.path.exists(p):
    for l in open(p):
        if l.strip():
            rows.append("| " + " | ".join(l.rstrip("\n").split("\t")) + " |")
for k, v in (("FIXED", fixed), ("KNOWN", known), ("MATRIX", rows)):
    t = t.replace("@@%s@@" % k, "\n".join(v))
e = H + "/tools/design.extra.md"
t = t.replace("@@EXTRA@@\n", open(e).read() if os.path.exists(e) else "")
open(H + "/DESIGN.md", "w").write(t)
