#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below (committed)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "technique": NOTES[i]["technique"], "level": "model_checking", "level_note": NOTES[i]["note"]})
    else:
        na.append({"property": i, "reason": "specification exists in properties.jsonl, its check is not built yet"})
json.dump({"version": 1, "setup_cmd": "true", "hooks": {"guard": "HERMES_VERIF_UNUSED", "enable": "no instrumentation is needed: the checks drive the public API", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
