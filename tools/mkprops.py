#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the property texts live here)."""
import json, os

S = "src/opinf/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=[S + f for f in files],
            mechanism=[dict(name=n, where=S + w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))


exec(open(os.path.join(os.path.dirname(__file__), "props_text.py")).read())

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P), "properties")
