#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, LEVEL
TECH = "property-based testing: generated inputs against a reference model, shrunk to a minimal replay"
NOTE = ("Randomised search: establishes the property on the generated cases of the run (counted in the evidence), not for "
        "all inputs. Trusts the reference model in /verif/harness, g++/gfortran and Thrust's OpenMP back end.")
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    i = d["id"]
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                           thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=PROPS[i].get("technique", TECH), level=LEVEL,
                           level_note=PROPS[i].get("level_note", NOTE)))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
         notes="check.py builds each harness from /repo's working tree into /verif/build (ignored); known_findings.txt lists findings")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
