#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.in.md, known_findings.json and seeded/*/meta.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/tools/DESIGN.in.md").read()
k = json.load(open(V + "/known_findings.json"))
fixed = ["| property | commit | what failed |", "|---|---|---|"]
for f in k["fixed"]:
    _, p, c, what = f.split(" ", 3)
    fixed.append("| %s | %s | %s |" % (p.split("=")[1], c, what))
known = ["- %s, input `%s`: %s" % (f["property"], f["key"], f["what"]) for f in k["findings"]]
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
missed = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    if m.get("missed"):
        missed.append("- `%s` (%s): %s" % (i, m["property"], m["missed"]))
        continue
    rows.append("| %s | %s | %s |" % (i, m["property"], m["needs"].replace("\n", " ").replace("|", "\\|")))
s = s.replace("@@FIXED@@", "\n".join(fixed)).replace("@@KNOWN@@", "\n".join(known)).replace("@@SEEDS@@", "\n".join(rows))
s = s.replace("@@MISSED@@", "Not caught:\n\n" + "\n".join(missed) if missed else "None is missed at present.")
open(V + "/DESIGN.md", "w").write(s)
