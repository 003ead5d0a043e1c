#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, NOT_APPLICABLE, HOOKS

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")

m = {"version": 1, "setup_cmd": "./run.sh setup",
     "checks": [{
         "property": p["id"],
         "quick_cmd": f"./run.sh {p['id']} quick",
         "thorough_cmd": f"./run.sh {p['id']} thorough",
         "technique": p["technique"], "level": "exploration", "level_note": p["note"],
     } for p in PROPS if p.get("technique")],
     "not_applicable": NOT_APPLICABLE}
if HOOKS:
    m["hooks"] = HOOKS
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

try:
    import jsonschema
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(HERE, "properties.jsonl")):
        jsonschema.validate(json.loads(l), ps)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(PROPS), "properties,", len(m["checks"]), "checks: valid")
except ImportError:
    print("written (jsonschema not available)")
