#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, state=None, mech=None, observe=None, hook=False):
    a = {"files": files}
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    a["mechanism"] = [dict(name=n, where=w) for n, w in (mech or [("implementation in " + f, f) for f in files])]
    if observe: a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))
SMOKE = ("The existing tests only run the programs on a handful of fixed command lines and look at the exit "
         "status and the presence of output files, so a wrong number is never noticed; ")
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_data.py")).read())
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
