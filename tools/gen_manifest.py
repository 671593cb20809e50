#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand)."""
import json, subprocess
CLAIMED = open("/verif/tools/claimed.txt").read().split("\n")
TECH = {}
for l in CLAIMED:
    if l.strip() and not l.startswith("#"):
        pid, tech, note = [x.strip() for x in l.split("|")]
        TECH[pid] = (tech, note)
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
NA = {}
try:
    for l in open("/verif/tools/not_applicable.txt"):
        if "|" in l:
            pid, r = l.split("|", 1); NA[pid.strip()] = r.strip()
except FileNotFoundError: pass
for pid in props:
    if pid not in TECH and pid not in NA: NA[pid] = "check not built yet"
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
  "hooks": {"guard": "tp_verif", "enable": "RUSTFLAGS=--cfg tp_verif (a rustc cfg; set by /verif/tools/env.sh)",
            "source_commits": [l for l in subprocess.run(["git","-C","/repo","log","--format=%H","--grep=^hook:"],capture_output=True,text=True).stdout.split()]},
  "checks": [{"property": p, "quick_cmd": "bash check " + p, "thorough_cmd": "VERIF_TIER=thorough bash check " + p,
              "technique": TECH[p][0], "level": "model_checking", "level_note": TECH[p][1]} for p in props if p in TECH],
  "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p in NA and p not in TECH]}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
