#!/usr/bin/env python3
"""Write MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib")); sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[],
           notes="No hooks in /repo: every property is observed through the public API of include/colorsystem.hpp. "
                 "Checks compile the replayers in harness/ against /repo/include on every run.")
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        out["checks"].append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
            thorough_cmd="python3 check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
            technique=c.get("technique", "Quint specification; generated behaviours replayed on the real code and compared step by step"),
            level=c.get("level", "exploration"),
            level_note=c.get("note", "Every call of every generated behaviour is compared with the specification's exact value within a rounding bound "
                "computed by the specification; inputs are sampled (corner-biased), not exhausted. Trusts the Quint simulator, the fixed-point library "
                "(checked by spec/selftest.qnt) and g++.")))
    else:
        out["not_applicable"].append(dict(property=i, reason="check under construction"))
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
