#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import registry

props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "none", "enable": "no hooks are needed: contracts live in /verif/contracts and the code is read as it is", "source_commits": []},
    "checks": [],
    "not_applicable": [],
    "notes": "Contracts on the functions of /repo are discharged by vcgen (built by setup_cmd from /verif/vcgen with the cached golang.org/x/tools). Bounded stand-ins are labelled in the evidence.",
}
for p in props:
    if p in registry.PROPS:
        r = registry.PROPS[p]
        m["checks"].append({
            "property": p,
            "quick_cmd": "python3 tools/check.py %s quick" % p,
            "thorough_cmd": "python3 tools/check.py %s thorough" % p,
            "technique": r["technique"],
            "level": r["level"],
            "level_note": r.get("note", ""),
        })
    else:
        m["not_applicable"].append({"property": p, "reason": registry.NA.get(p, "no contract within reach yet decides it")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
