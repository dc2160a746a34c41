#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md between markers (run by hand; no check reads it)."""
import os, re, json, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import registry
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
tab = {}
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    tab.setdefault(m["property"], []).append("`%s`" % d)
rows = "\n".join("| %s | %s |" % (k, ", ".join(v)) for k, v in sorted(tab.items()))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = "\n".join("* **%s** %s: %s" % (x["id"], x["title"], registry.NA.get(x["id"], "no contract within reach yet decides it"))
               for x in props if x["id"] not in registry.PROPS) or "Every listed property is claimed."
def put(s, mark, body, ph):
    b, e = "<!-- %s -->" % mark, "<!-- /%s -->" % mark
    if b in s:
        return re.sub(re.escape(b) + ".*?" + re.escape(e), lambda _: b + "\n" + body + "\n" + e, s, flags=re.S)
    return s.replace(ph, b + "\n" + body + "\n" + e)
s = s.replace("| property | planted bugs |\n|---|---|\nSEEDTABLE", "SEEDTABLE")
s = put(s, "seeds", "| property | planted bugs |\n|---|---|\n" + rows, "SEEDTABLE")
s = put(s, "na", na, "NAPLACE")
open(p, "w").write(s)
