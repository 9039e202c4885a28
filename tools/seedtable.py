#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
h, t = s.split("<!-- seeds -->")[0], s.split("<!-- /seeds -->")[-1] if "<!-- /seeds -->" in s else "\n"
r = ["| id | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    r.append(f"| {f.split('/')[-2]} | {d['property']} | {d['what_it_breaks']} | {d['needs']} |")
open(V + "/DESIGN.md", "w").write(h + "<!-- seeds -->\n" + "\n".join(r) + "\n<!-- /seeds -->" + t)
