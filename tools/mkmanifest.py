#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed properties"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = ("Every driven call of the real code is one event; TLC accepts a history only as a behaviour of the specification. "
         "Exploration by seeded generation, so bounded by what was generated (counts in the evidence); trusts TLC, the "
         "specification's reading of FAST 1.1, the harness and the compiler.")
CODEC = "TLA+ specification of FAST (Num/Wire/Templates/Codec); trace validation of recorded coder histories with TLC"
CLAIM = {p: (CODEC, TRACE) for p in
         "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P23 P24".split()}
import importlib, sys
sys.path.insert(0, os.path.join(V, "tools"))
try:
    import claims
    CLAIM.update(claims.CLAIM)
except ImportError:
    pass
NA = {p["id"]: p for p in map(json.loads, open(os.path.join(V, "properties.jsonl")))}
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 tools/check.py " + p,
                 "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
                 "evidence_file": "evidence/%s.json" % p, "technique": CLAIM[p][0], "level": "model_checking",
                 "level_note": CLAIM[p][1]} for p in sorted(CLAIM)],
     "not_applicable": [{"property": p, "reason": "its specification and harness are not built yet"}
                        for p in sorted(NA) if p not in CLAIM],
     "notes": "TLA+ checked with TLC; see DESIGN.md. No hooks in /repo: the harness drives the public interface. "
              "VERIF_LIMIT (seconds) bounds a thorough run."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
