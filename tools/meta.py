#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand when a property is added)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
P = []


def prop(id, title, statement, over, text, why, files, mech, level="model_checking", note="", state=(), tech=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=[], hook_needed=None)),
              level, note, tech))


exec(open(os.path.join(ROOT, "tools", "properties.py")).read())

from props import PROPS
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, _, _, _ in P:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p, level, note, tech in P:
    i = p["id"]
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i,
                           thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=tech or "TLA+ specification checked with TLC; generated and recorded histories of the real code "
                                             "validated against it with TLC",
                           level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=note or "not built yet"))
m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=na)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
