#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.tmpl.md, known_findings.json and the results of tools/catch.py (tools/catch.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/design.tmpl.md").read()
f = json.load(open(V + "/known_findings.json"))["findings"]
fixes = "\n".join("* %s %s: %s" % (x["property"], x["key"], x["what"].split(" ", 3)[3]) for x in f if x["status"] == "fixed")
c = json.load(open(V + "/tools/catch.json")) if os.path.exists(V + "/tools/catch.json") else {}
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + i + "/meta.json")); r = c.get(i)
    rows.append("| %s | %s | %s |" % (i, m["needs"].replace("|", "/"), ("%s: %s" % (m["property"], r["kind"]) if r["rc"] == 1 else "missed by %s" % m["property"]) if r else "not run"))
open(V + "/DESIGN.md", "w").write(t.replace("@FIXES@", fixes).replace("@CATCH@", "\n".join(rows)))
