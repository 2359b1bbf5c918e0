"""Writes proved.json: the digest of every function all of whose obligations
are discharged on the present source, and engine/costs.json: the solver time of the
slow ones, which start first (python3-vt tools/mkproved.py ENGINE_OUTPUT)."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(sys.argv[1]))
out = {f["qual"]: f["digest"] for f in d["functions"] if f.get("digest") and all(o["status"] == "discharged" for o in f["obligations"])}
json.dump(out, open(os.path.join(V, "proved.json"), "w"), indent=1, sort_keys=True)
print(len(out), "of", len(d["functions"]))
costs = {f["qual"]: round(f["solver_s"]) for f in d["functions"] if f["solver_s"] >= 2}
json.dump(costs, open(os.path.join(V, "engine", "costs.json"), "w"), indent=1, sort_keys=True)
