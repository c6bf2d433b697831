#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and mc/specs.py."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from specs import SPECS, NA
import meta
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SPECS:
        t = meta.M[i]
        checks.append({"property": i, "quick_cmd": "python3 mc/run.py %s quick" % i, "thorough_cmd": "python3 mc/run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": t["tech"],
                       "level": "model_checking",
                       "level_note": "Explored (quick): %s. " % t["quick"] + "Every case within the stated bounds is executed on code rebuilt from /repo and compared with an independently written reference model; nothing is claimed beyond the bounds. Trusts the reference model, the explorer and the compiler." + "".join(" Assumption: %s." % a for a in t["assume"])})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "sh mc/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks were needed in /repo: the harnesses drive public functions and interpose at link time. Each check rebuilds /repo's working tree."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
