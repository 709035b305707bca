#!/usr/bin/env python3-vt
"""MANIFEST.json from properties.jsonl and props/cNN.py (development helper; not used by checks)."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
    "C31": "the MATLAB functions are thin wrappers that need the MATLAB interpreter and its py. bridge; neither is installed, there is "
           "no MATLAB semantics to encode, and a counterexample could not be replayed against the real code (the Python "
           "side of that bridge is decided by C16)",
}
TECH = "symbolic execution of the Python source (own interpreter + numpy model) into SMT (z3: linear abstraction, then bit-vectors)"
VTECH = "symbolic execution of the VHDL source (own parser/interpreter) into SMT (z3 bit-vectors); counterexamples replayed in GHDL"
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if not os.path.exists(os.path.join(V, "props", p.lower() + ".py")):
        na.append(dict(property=p, reason=NA.get(p, "check under construction")))
        continue
    m = importlib.import_module("props." + p.lower())
    checks.append(dict(property=p, quick_cmd=f"python3-vt /verif/run.py {p} quick",
                       thorough_cmd=f"python3-vt /verif/run.py {p} thorough",
                       technique=getattr(m, "TECHNIQUE", VTECH if int(p[1:]) >= 20 else TECH),
                       level=getattr(m, "LEVEL", "model_checking"),
                       level_note=m.BOUNDS["quick"] + ("; " + m.OUTSIDE if getattr(m, "OUTSIDE", "") else "")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
