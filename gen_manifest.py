#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/checks.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "harness"))
import checks
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
out = {"version": 1, "setup_cmd": "python3 setup_check.py",
       "hooks": {"guard": "OMEGA_H_VP_HOOKS",
                 "enable": "harness/inject.cmake (passed as CMAKE_PROJECT_Omega_h_INCLUDE) adds the compile definition OMEGA_H_VP_HOOKS and harness/hooks.cpp to the library target of a separate build under /verif/build",
                 "source_commits": checks.HOOK_COMMITS},
       "checks": [], "not_applicable": []}
for p in props:
    c = checks.CHECKS.get(p["id"])
    if not c:
        out["not_applicable"].append({"property": p["id"], "reason": checks.NOT_APPLICABLE.get(p["id"], "check still under construction")})
        continue
    out["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                          "thorough_cmd": "python3 check.py " + p["id"],
                          "evidence_file": "evidence/%s.json" % p["id"],
                          "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
json.dump(out, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
