#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/source.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.dirname(here)]
from source import PROPERTIES, NOTES, NOT_APPLICABLE
from props import PROPS

base = os.path.dirname(here)
with open(os.path.join(base, "properties.jsonl"), "w") as f:
    for p in PROPERTIES:
        assert len(p["title"]) <= 80, p["title"]
        q = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["quant"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]],
                              state=[dict(name=a, meaning=b, where=c) for a, b, c in p.get("state", [])],
                              observe_at=p.get("observe", []), hook_needed=p.get("hook")))
        f.write(json.dumps(q) + "\n")
m = dict(version=1, setup_cmd="python3 setup.py", checks=[], not_applicable=NOT_APPLICABLE, notes=NOTES)
for p in PROPERTIES:
    if p["id"] in PROPS:
        m["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
                                thorough_cmd="python3 check.py %s thorough" % p["id"],
                                technique=p["technique"], level="model_checking", level_note=p["level_note"]))
    else:
        assert any(n["property"] == p["id"] for n in NOT_APPLICABLE), p["id"]
with open(os.path.join(base, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks")
