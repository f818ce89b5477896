#!/usr/bin/env python3
"""writes DESIGN.md from tools/design, claims.json, the contracts, the seeds and the findings"""
import json,re,glob,os,sys
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns={}; exec(open(d+'/tools/design/props.py').read(),ns); T=ns['T']
c=json.load(open(d+'/claims.json')); k=json.load(open(d+'/known_findings.json'))
titles={}
for l in open(d+'/properties.jsonl'):
    p=json.loads(l); titles[p['id']]=p['title']
src={}
for f in sorted(glob.glob(d+'/specs/*/*.go')): src[f]=open(f).read()
out=[open(d+'/tools/design/head.md').read(),'\n## Properties\n']
for p in sorted(titles):
    n=b=inv=sp=0
    for s in src.values():
        for m in re.finditer(r'((?://.*\n)*)func (VC_%s_\w+)'%p,s):
            n+=1; b+='//vc:bounded' in m.group(1)
    for f,s in src.items():
        if os.path.basename(f).lower().startswith(p.lower()):
            inv+=len(re.findall(r'^//vc:inv',s,re.M)); sp+=len(re.findall(r'^//vc:spec',s,re.M))
    out.append(f'### {p} {titles[p]}\n')
    out.append(T.get(p,'')+'\n')
    if p in c['claimed']:
        out.append(f'{n} contracts, {b} of them labelled bounded; {sp} callee specifications and {inv} loop invariants are stated with them. '+c['claimed'][p]['note']+'\n')
    else:
        out.append('Not applicable: '+c['not_applicable'].get(p,c.get('default_reason',''))+'\n')
out.append(open(d+'/tools/design/tail.md').read())
out.append('\n## Planted changes\n\nEach was written from the text of a property; all are caught by the check of their property.\n')
out.append('| id | property | needs | breaks |\n|---|---|---|---|')
for f in sorted(glob.glob(d+'/tools/seeds/s*.py')):
    g={'HELP':'','SRV':''}
    try: exec(open(f).read(),g)
    except Exception as e: print(f,e); continue
    out.append(f"| {g['id']} | {g['prop']} | {g['needs']} | {g['breaks']} |")
out.append('\n## Genuine defects found by the checks and repaired\n\nEvery repair is one fix commit in /repo, listed in known_findings.json:\n')
out+=['- '+x.replace('fixed: property=','') for x in k['fixed']]
open(d+'/DESIGN.md','w').write('\n'.join(out)+'\n')
