"""Writes MANIFEST.json from checks.json."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + "/checks.json"))
out = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, jsonschema' && /opt/venv/bin/python -c 'import networkx'",
       "checks": [], "not_applicable": c.get("not_applicable", []),
       "notes": "No hooks: contracts are sidecar files in contracts/, the code under verification is parsed from /repo on every run."}
for pid, d in sorted(c["properties"].items()):
    out["checks"].append({"property": pid, "quick_cmd": "bin/check " + pid, "thorough_cmd": "VERIF_TIER=thorough bin/check " + pid,
                          "evidence_file": "evidence/%s.json" % pid, "technique": d.get("technique", c["technique"]),
                          "level": d["level"], "level_note": d.get("note", "run-time contracts on generated cases")})
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(out, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
