#!/usr/bin/env python3
"""Evidence for a run that ended by crashing: what was under way, and nothing more."""
import json, os, sys
prop, tier, replay = sys.argv[1:]
t = open(replay).read()
json.dump({"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
    "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 1, "exhaustive": False, "samples": [t[:2000]]},
    "wall_s": 0, "violations": 1}, open("/verif/evidence/%s.json" % prop, "w"))
