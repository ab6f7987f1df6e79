#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and ../checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, VERIF]
from props import P
from checks import CHECKS
import jsonschema
ids = sorted(set(P) & set(CHECKS))
missing = sorted(set(CHECKS) - set(P))
if missing:
    sys.exit("no property text: %s" % missing)
lines, checks = [], []
for i in ids:
    p = P[i]
    assert len(p["title"]) <= 80, (i, len(p["title"]))
    for f in p["files"]:
        assert os.path.exists(os.path.join("/repo", f)), f
    d = dict(id=i, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["tests"],
             anchors=dict(files=p["files"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=None))
    if not p["observe"]:
        del d["anchors"]["observe_at"]
    lines.append(json.dumps(d))
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                       technique=p["technique"], level="exploration", level_note=p["note"]))
m = dict(version=1, setup_cmd="python3 check.py --list", checks=checks, not_applicable=[],
         notes="Every check compiles its monitor against /repo's working tree with sanitizers, in a build with the project's assertions and one without; no hooks in /repo are needed.")
schema = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in lines:
    jsonschema.validate(json.loads(l), schema)
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
open(os.path.join(VERIF, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(ids), "properties")
