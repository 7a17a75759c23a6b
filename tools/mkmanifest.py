"""writes /verif/MANIFEST.json from the list of properties and the contract modules present"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = json.load(open(os.path.join(HERE, "tools", "levels.json")))
NA = {"C20": "Convergence of an iterative non-convex optimisation to the global minimum is a liveness/numerical-analysis statement about an unbounded history of floating point sweeps; no contract over the functions of /repo within reach of a deductive verifier expresses or implies it (each sweep step's exactness is C01-C03, C13, C22, C14, which are claimed).",
      "C21": "The order of the global error in the step size is an asymptotic statement about the limit of many runs (Trotter/projector error analysis); no per-call contract or loop invariant expresses it. The exact parts - gates, total time, schedule - are C10, C12, C14, which are claimed."}
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
        continue
    lv, tech, note = LEVEL.get(p, LEVEL["*"])
    checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p, "evidence_file": "evidence/%s.json" % p,
                   "technique": tech, "level": lv, "level_note": note})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. KNOWN_FINDINGS.txt lists repaired defects; see DESIGN.md."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
