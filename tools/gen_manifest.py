#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.json and properties.jsonl."""
import json
V='/verif'
props=[json.loads(l) for l in open(f'{V}/properties.jsonl')]
conf=json.load(open(f'{V}/checks.json'))
checks=[];na=[]
for p in props:
    c=conf.get(p['id'],{})
    if c.get('technique'):
        checks.append(dict(property=p['id'],quick_cmd=f"python3 check.py {p['id']}",thorough_cmd=f"python3 check.py {p['id']} thorough",
            evidence_file=f"evidence/{p['id']}.json",technique=c['technique'],level='model_checking',level_note=c['note']))
    else:
        na.append(dict(property=p['id'],reason=c.get('reason','check not built yet')))
hooks=dict(guard='rustc cfg verif_dishonest_prover',enable="check.py adds --cfg verif_dishonest_prover to RUSTFLAGS for the checks that ask for it (checks.json)",source_commits=['4f9caa43394f38f183b1b04f3cbc01296769e5d2'])
json.dump(dict(version=1,hooks=hooks,setup_cmd='python3 tools/setup.py',checks=checks,not_applicable=na),open(f'{V}/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
