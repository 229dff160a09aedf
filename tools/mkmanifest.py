#!/usr/bin/env python3
"""Write MANIFEST.json from the check modules present and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = "symbolic execution of the real Python source; SMT (z3) decides every path's obligations; counterexamples replayed on the real code"
LEVEL_NOTE = ("For every input (and every value drawn from a random generator) within the bounds in the evidence file, z3 decided the property on "
              "every symbolic path of the current source; a violation is reported only after the real code reproduced it. Trusts the engine's "
              "models of numpy/scipy/torch primitives (spot-checked on every run by replaying solver models against the real libraries), exact "
              "real arithmetic in place of floating point, and z3. Paths the engine or solver cannot decide are listed as INCONCLUSIVE and "
              "tested on solver-generated inputs only.")
checks, na = [], []
NA = {}
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3-vt run_check.py %s" % i, "thorough_cmd": "python3-vt run_check.py %s --tier thorough" % i,
                       "technique": TECH, "level": "model_checking", "level_note": LEVEL_NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "the check is not built yet")})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, numpy, networkx'", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the source is executed symbolically as it is. fix: commits are listed in known_findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
