#!/usr/bin/env python3
"""Regenerates DESIGN.md from design_head.md, checks.json, properties.jsonl, known_findings.txt and (bounds only) the evidence of the last runs."""
import json,os
V='/verif'
props=[json.loads(l) for l in open(f'{V}/properties.jsonl')]
conf=json.load(open(f'{V}/checks.json'))
o=open(f'{V}/tools/design_head.md').read().rstrip()+'\n\n'
o+=open(f'{V}/tools/design_mid.md').read().rstrip()+'\n\n## Properties\n\n'
b={}
bf=f'{V}/tools/bounds.json'
if os.path.exists(bf): b=json.load(open(bf))
for p in props:
    i=p['id'];e=f'{V}/evidence/{i}.json'
    if os.path.exists(e):
        try:
            d=json.load(open(e))
            if d.get('tier')=='quick': b[i]=dict(bounds=d['coverage'].get('bounds',[]),assume=d.get('assumptions',[]),t=d['coverage'].get('transitions'),n=d['coverage'].get('traces_validated_against_impl'))
        except Exception: pass
json.dump(b,open(bf,'w'),indent=1,sort_keys=True)
for p in props:
    i=p['id'];c=conf.get(i,{})
    o+=f"### {i} {p['title']}\n\n"
    if c.get('technique'):
        o+=f"- Decided by: {c['technique']}.\n- Limits: {c['note']}\n"
        x=b.get(i)
        if x:
            for t in x['bounds']: o+=f"- Bound (quick): {t}\n"
            for t in x['assume']: o+=f"- Assumes: {t}\n"
            o+=f"- Size (quick, order of magnitude): {x['n']} executions, {x['t']} compared operations.\n"
    else: o+=f"- Not claimed: {c.get('reason','')}.\n"
    o+='\n'
o+='## Genuine defects found\n\n'
seen=set()
for l in open(f'{V}/known_findings.txt'):
    l=l.strip()
    if l.startswith('fixed:'): o+=f"- {l}\n"
    elif l.startswith('known:'):
        w=l.split(' :: ',1)[1]
        if w not in seen: seen.add(w); o+=f"- known (not repaired): {l.split(' ')[1]} {w}\n"
open(f'{V}/DESIGN.md','w').write(o)
