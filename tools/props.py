#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, tests, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
      quantifier=dict(over=over, text=" ".join(text.split())),
      why_tests_cant=" ".join(tests.split()),
      anchors=dict(files=["ruruby/src/"+f if not f.startswith("ruruby") else f for f in files],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe) or ["stdout of the interpreted program"],
        hook_needed=hook)))
exec(open(os.path.join(os.path.dirname(__file__), "props_data.py")).read())
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P), "properties")
