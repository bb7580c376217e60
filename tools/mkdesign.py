#!/usr/bin/env python3
"""DESIGN.md from DESIGN.tmpl, known_findings.json and the planted bugs."""
import json, pathlib
R = pathlib.Path(__file__).resolve().parent.parent
t = (R / "tools/DESIGN.tmpl").read_text()
fixed = []
for x in json.load(open(R / "known_findings.json"))["fixed"]:
    x = x if isinstance(x, str) else str(x)
    p, c, *w = x.replace("fixed: property=", "").split(" ")
    fixed.append("* {} `{}` {}".format(p, c, " ".join(w)))
rows = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted((R / "seeded").iterdir()):
    m = json.load(open(d / "meta.json"))
    c = m.get("caught_by", [m["property"]])
    rows.append("| {} | {} | {} | {} | {} |".format(d.name, m["property"], m["what_it_breaks"], m["needs"], ", ".join(c) or "not caught").replace("\n", " "))
(R / "DESIGN.md").write_text(t.replace("@FIXED@", "\n".join(sorted(fixed))).replace("@SEEDED@", "\n".join(rows)))
