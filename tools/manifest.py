#!/usr/bin/env python3
"""Generates MANIFEST.json from tools/checks.json (claimed checks) and properties.jsonl."""
import json, os, subprocess
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
checks=json.load(open(os.path.join(here,"checks.json")))
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
hooks=subprocess.run(["git","-C","/repo","log","--format=%H %s"],capture_output=True,text=True).stdout.splitlines()
hooks=[h.split()[0] for h in hooks if " mc hook:" in h]
m=dict(version=1, setup_cmd="./setup.sh",
  hooks=dict(guard="cfg(ruruby_mc)", enable="RUSTFLAGS='--cfg ruruby_mc' cargo build (check.sh does it)", source_commits=hooks),
  checks=[], not_applicable=[],
  notes="Every check builds the explorer in mc/ against /repo's working tree and enumerates executions of the real interpreter.")
for p in props:
    c=checks.get(p["id"])
    if c:
        m["checks"].append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
          technique=c["technique"], level="model_checking", level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason="No check built yet."))
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
print(len(m["checks"]),"checks",len(m["not_applicable"]),"open")
