#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the check modules present in lib/props."""
import json, os
import mkprops
HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = ("Bounded exploration: holds on every generated case (counts and samples in the evidence file) against an "
        "independent oracle in plain Python; trusts that oracle, numpy/scipy/sympy, and the in-process stand-in for "
        "process pools (which pickles all that crosses the process boundary).")
TECH = {}
exec(open(os.path.join(HERE, "techniques.py")).read())
checks, na = [], []
for p in mkprops.P:
    if os.path.exists(os.path.join(HERE, "lib", "props", p["id"].lower() + ".py")):
        cmd = "/opt/venv/bin/python check.py " + p["id"]
        checks.append(dict(property=p["id"], quick_cmd=cmd, thorough_cmd=cmd + " --thorough",
                           evidence_file="evidence/%s.json" % p["id"], technique=TECH[p["id"]], level="exploration",
                           level_note=NOTE))
    else:
        na.append(dict(property=p["id"], reason="check not built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python check.py --selftest",
         checks=checks, not_applicable=na,
         notes="No hooks: the checks only use the public interface. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
