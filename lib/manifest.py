"""Regenerates MANIFEST.json from properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVELS = json.load(open(os.path.join(V, "lib", "levels.json")))
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    lv = LEVELS.get(i, LEVELS["*"])
    checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh " + i, "evidence_file": "evidence/%s.json" % i,
                   "technique": lv["technique"], "level": lv["level"], "level_note": lv["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "cfg(firrtl_verif)", "enable": "RUSTFLAGS=--cfg firrtl_verif (set by lib/build.py)", "source_commits": ["70541b03d67d482881281116590c441eee6f42ca"]},
     "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
