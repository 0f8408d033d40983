#!/usr/bin/env python3
"""reg.py PROP 'technique' 'note': claim a property in checks.json and regenerate MANIFEST/properties."""
import json,sys,subprocess
c=json.load(open('tools/checks.json'))
c[sys.argv[1]]={"technique":sys.argv[2],"note":sys.argv[3]}
json.dump(dict(sorted(c.items())),open('tools/checks.json','w'),indent=0)
subprocess.check_call(['python3','tools/props.py']); subprocess.check_call(['python3','tools/manifest.py'])
