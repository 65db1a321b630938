#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
 "P01": "TLA+ spec Params checked by TLC; recorded and spec-generated command histories validated by TLC",
}
NOTE = {}
NA = {
 "P22": "accuracy of real-valued functions over the floating-point range is numeric: a TLA+ state machine has no real or floating arithmetic to state it with",
}
exec(open(os.path.join(V, "bin", "manifest_notes.py")).read()) if os.path.exists(os.path.join(V, "bin", "manifest_notes.py")) else None
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", "c_%s.py" % i.lower())):
        checks.append({"property": i,
                       "quick_cmd": "python3 bin/check.py %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py %s" % i,
                       "technique": TECH.get(i, "TLA+ specification checked with TLC; recorded executions of the real module validated against it by TLC"),
                       "level": "model_checking",
                       "level_note": NOTE.get(i, "The specification is explored exhaustively for small constants; the code is bound to it by TLC deciding each recorded history, so the code is covered for the histories driven, not for all. Trusted: the driver, the substitute for the absent symdiff library and the dense quad-precision BLAS/LAPACK/PARDISO stand-in.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 bin/build.py", "checks": checks,
     "hooks": {"guard": "DEVSIM_VERIF", "enable": "bin/build.py compiles /repo's sources with -DDEVSIM_VERIF; no hook is needed so far, every observation is made through the public Python API", "source_commits": []},
     "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
