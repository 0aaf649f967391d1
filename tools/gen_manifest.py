#!/usr/bin/env python3
"""writes MANIFEST.json: one entry per spec module; every other property is listed under not_applicable"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
NA = json.load(open(R + "/tools/not_applicable.json"))
notes = json.load(open(R + "/tools/level_notes.json"))
checks = []; na = []
for p in props:
    i = p["id"]
    f = "%s/vc/specs/%s.py" % (R, i)
    if os.path.exists(f) and "UNITS = []" not in open(f).read() and i not in NA:
        checks.append({"property": i, "quick_cmd": "python3-vt check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + i,
            "technique": "contract-based deductive verification of the real code: verification conditions generated from clang's AST of the current sources against pre/postconditions, loop invariants and callee contracts, discharged by z3/cvc5; failed obligations replayed on the compiled code",
            "level": "proof", "level_note": notes.get(i, notes["default"])})
    else: na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
