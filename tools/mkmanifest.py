#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/meta.py (one entry per claimed property)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import meta
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in meta.META:
        m = meta.META[p]
        checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick bin/check " + p, "thorough_cmd": "VERIF_TIER=thorough bin/check " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": m[0], "level": m[2] if len(m) > 2 else "model_checking", "level_note": m[1]})
    else:
        na.append({"property": p, "reason": meta.NA.get(p, "not yet built: the specification does not cover this part yet")})
m = {"version": 1, "setup_cmd": "bin/setup",
     "hooks": {"guard": "none", "enable": "no hooks are needed: every check uses the exported API only", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Quint specifications in spec/, Go drivers in driver/, orchestration in lib/. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
