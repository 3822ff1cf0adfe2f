#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS, TECH
H = os.path.dirname(os.path.abspath(__file__))
NA = []
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for i in sorted(PROPS):
        p = PROPS[i]
        for x in p["files"]: assert os.path.exists(os.path.join("/repo", x)), x
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=i, title=p["title"], statement=p["statement"], quantifier=dict(over=p["quant"][0], text=p["quant"][1]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=[p["observe"]], hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="./check --setup", checks=[dict(property=i, quick_cmd="./check %s --tier quick" % i, thorough_cmd="./check %s --tier thorough" % i,
    technique=TECH + PROPS[i]["tech"], level="exploration",
    level_note=PROPS[i].get("note", "an oracle decides every generated execution of the real code; it says nothing about inputs the generator does not produce")) for i in sorted(PROPS)], not_applicable=NA)
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
