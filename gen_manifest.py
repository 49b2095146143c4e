#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
P = [json.loads(l) for l in open("/verif/properties.jsonl")]
T = "deterministic simulation with fault injection: the real library sources under a seeded scheduler, simulated kernel, clock and allocator, checked against an executable reference model"
checks = [{"property": p["id"], "quick_cmd": "python3 vk/check.py %s quick" % p["id"], "thorough_cmd": "python3 vk/check.py %s thorough" % p["id"],
           "evidence_file": "evidence/%s.json" % p["id"], "technique": T, "level": "exploration",
           "level_note": "seeded search over operation histories, schedules, delays and faults; sampling, not exhaustive"} for p in P]
m = {"version": 1, "setup_cmd": "python3 vk/setup.py", "checks": checks, "not_applicable": []}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1); open("/verif/MANIFEST.json", "a").write("\n")
