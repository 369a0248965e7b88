#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py.
Properties listed in CLAIMED (tools/claimed.txt) become checks; the rest are not_applicable."""
import json,os,sys
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
sys.path.insert(0,here)
from props import PROPS
claimed=[l.split('#')[0].strip() for l in open(os.path.join(here,'claimed.txt'))]
claimed=[c for c in claimed if c]
with open(os.path.join(root,'properties.jsonl'),'w') as f:
    for p in PROPS:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        a=dict(files=p['files'],mechanism=[dict(name=n,where=w) for n,w in p['mech']])
        if p['state']: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in p['state']]
        if p['observe']: a['observe_at']=p['observe']
        a['hook_needed']=None
        f.write(json.dumps(dict(id=p['id'],title=p['title'],statement=p['statement'],
            quantifier=dict(over=p['over'],text=p['quant']),why_tests_cant=p['why'],anchors=a))+'\n')
checks=[];na=[]
for p in PROPS:
    if p['id'] in claimed:
        checks.append(dict(property=p['id'],quick_cmd='./run.sh %s'%p['id'],thorough_cmd='./run.sh %s'%p['id'],
            evidence_file='evidence/%s.json'%p['id'],technique=p['tech'],level=p['level'],
            level_note=p['note'] or 'Sound static argument over all paths of the analysed functions up to the modelling assumptions listed in the evidence file and DESIGN.md; decides the structural clauses named there.'))
    else:
        na.append(dict(property=p['id'],reason=p['na'] or 'Planned; no check registered yet at this commit.'))
m=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,
  notes='All checks are static analyses: one Go program (checker/) loads /repo from source, builds SSA and runs per-property analyses. /repo is never executed.')
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),indent=1); open(os.path.join(root,'MANIFEST.json'),'a').write('\n')
