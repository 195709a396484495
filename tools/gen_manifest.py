#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Assumes TLC and its Java number overrides (VNum, tested by NumLaws), pandas for building the input "
         "tables, and the recorder, which only uses the public API.")
TV = "TLA+ reference semantics; TLC validates traces recorded from the real code"
C = {}
def c(p, technique, note, level="model_checking"):
  C[p] = {"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
          "evidence_file": "evidence/%s.json" % p, "technique": technique, "level": level,
          "level_note": note + " " + TRUST}
exec(open(os.path.join(V, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [C[i] for i in ids if i in C],
     "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in C],
     "notes": "No hooks: every check observes the library through its public API. The specification is TLA+, checked with TLC."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
