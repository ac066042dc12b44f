#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py and checks.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
from checks import CHECKS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sorted(P)
assert set(ids) == set(CHECKS), (set(ids) ^ set(CHECKS))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for i in ids:
        l = P[i]["line"]
        assert len(l["title"]) <= 80, (i, len(l["title"]))
        f.write(json.dumps(l) + "\n")
m = dict(version=1, setup_cmd="python3 /verif/tools/run.py setup",
         hooks=dict(guard="VERIF_HOOKS", enable="not used: all monitors observe the public API; no hook was added to /repo", source_commits=[]),
         checks=[dict(property=i, quick_cmd="python3 /verif/tools/run.py check %s --tier quick" % i,
                      thorough_cmd="python3 /verif/tools/run.py check %s --tier thorough" % i,
                      technique=P[i]["technique"], level="exploration", level_note=P[i]["note"]) for i in ids],
         not_applicable=[])
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
    print("schemas ok, %d properties" % len(ids))
except ImportError:
    print("written (no jsonschema)")
