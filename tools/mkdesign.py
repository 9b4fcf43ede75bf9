#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.in, KNOWN_FINDINGS.txt and the planted changes."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}
s = open(os.path.join(ROOT, "tools/design.in")).read()
fixed, known = [], []
for l in open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")):
    l = l.strip()
    if l.startswith("fixed: "):
        p, c, t = l[len("fixed: property="):].split(" ", 2)
        fixed.append("* %s (%s): %s" % (p, c, t))
    elif l.startswith("known: "):
        p, _, t = l[len("known: property="):].split(" ", 2)
        known.append("* %s: %s" % (p, t))
rows = ["", "| change | needs | breaks | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), MISSED.get(i, m["property"])))
s = s.replace("@FIXED@", "\n".join(fixed)).replace("@KNOWN@", "\n".join(known)).replace("@TABLE@", "\n".join(rows))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(s)
