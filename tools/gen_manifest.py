#!/usr/bin/env python3
"""Writes MANIFEST.json.  CLAIMS: property -> (level, technique, level_note)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from claims import CLAIMS, HOOKS
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 check.py setup")
if HOOKS:
    m["hooks"] = HOOKS
m["checks"] = [dict(property=p, quick_cmd="VERIF_TIER=quick python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                    evidence_file="evidence/%s.json" % p, technique=CLAIMS[p][1], level=CLAIMS[p][0], level_note=CLAIMS[p][2]) for p in props if p in CLAIMS]
m["not_applicable"] = [dict(property=p, reason="not claimed yet: its specification and conformance check are still being built") for p in props if p not in CLAIMS]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
