#!/usr/bin/env python3
"""Regenerates the tables of DESIGN.md (defects, planted bugs) from known_findings.json and seeded/."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(here + "/DESIGN.md").read()
def put(tag, text):
    global d
    a, b = "<!-- %s -->" % tag, "<!-- /%s -->" % tag
    d = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda m: a + "\n" + text + "\n" + b, d, flags=re.S)
F = json.load(open(here + "/known_findings.json"))["findings"]
put("DEFECTS", "\n".join("* %s: %s" % (f["id"], re.sub(r"^fixed: property=(\S+) (\S+) ", r"\1, commit \2: ", f["line"]) if f["status"] == "fixed" else "%s, **known, not repaired**: %s" % (f["property"], f.get("what", f.get("line", "")))) for f in F))
rows = ["| planted bug | what it needs | what it breaks |", "|---|---|---|"]
for n in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(here + "/seeded/%s/meta.json" % n))
    rows.append("| %s (%s) | %s | %s |" % (n, m["property"], m["needs"], m["what_it_breaks"]))
put("SEEDS", "\n".join(rows))
open(here + "/DESIGN.md", "w").write(d)
