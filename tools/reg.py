#!/usr/bin/env python3
"""reg.py ID technique note [key=json ...]: registers a check in checks.json and regenerates the derived files"""
import json,sys,subprocess
f='/verif/checks.json';c=json.load(open(f));i,t,n=sys.argv[1:4]
d=dict(technique=t,note=n)
for kv in sys.argv[4:]:
    k,v=kv.split('=',1);d[k]=json.loads(v)
c[i]=d;json.dump(c,open(f,'w'),indent=1)
for g in ('gen_properties.py','gen_manifest.py'): subprocess.run(['python3',f'/verif/tools/{g}'],check=True)
