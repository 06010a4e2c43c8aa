#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties and what plan.py covers."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
import plan
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if plan.covered(i):
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "technique": "TLA+ specification explored with TLC; " + plan.TECH[i], "level": "model_checking", "level_note": plan.NOTE[i]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "cd harness && RUSTFLAGS='--cfg nom_sparql_verif -Awarnings' cargo build --release --offline",
     "hooks": {"guard": "nom_sparql_verif", "enable": "RUSTFLAGS=\"--cfg nom_sparql_verif\"", "source_commits": ["c7fd772"]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
