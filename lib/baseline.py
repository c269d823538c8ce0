"""Records which contracts the engine proves on the unchanged tree (run by hand): baseline.py RESULTS.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine", "proved.json")
b = json.load(open(p)) if os.path.exists(p) else {}
for n, r in json.load(open(sys.argv[1])).items():
    b[n] = "proved" if r["proved"] else "undecided"
with open(p, "w") as f:
    f.write(json.dumps(b, indent=0, sort_keys=True) + "\n")
