#!/usr/bin/env python3
"""mkseed.py < spec : makes seeded/<id>/ from a spec (header, edits, demo test)."""
import sys,os,subprocess,tempfile,json,shutil
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=sys.stdin.read()
head,rest=s.split('\n@@ ',1)
edits,demo=rest.split('\n%% ',1)
meta=dict(l.split(': ',1) for l in head.strip().split('\n'))
pkg,test=demo.split('\n',1)
pkg=pkg.strip()
w=tempfile.mkdtemp(prefix='mk.',dir='/tmp')
subprocess.check_call(['git','-C','/repo','worktree','add','-q','--detach',w+'/r','HEAD'])
try:
    for sec in ('@@ '+edits).split('\n@@ '):
        sec=sec[3:] if sec.startswith('@@ ') else sec
        f,body=sec.split('\n',1)
        p=os.path.join(w,'r',f.strip()); t=open(p).read()
        for e in body.split('\n####\n'):
            o,n=e.split('\n====\n') if '\n====\n' in e else (e[:-5],'')
            n=n.rstrip('\n') if n else n
            o=o.strip('\n'); n=n.strip('\n')
            assert t.count(o)==1,(f,t.count(o),o)
            t=t.replace(o,n)
        open(p,'w').write(t)
        subprocess.call(['gofmt','-l','-w',p])
    d=os.path.join(root,'seeded',meta['id']); os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',w+'/r','diff']).decode())
finally:
    subprocess.call(['git','-C','/repo','worktree','remove','--force',w+'/r']); shutil.rmtree(w)
open(d+'/demo_test.go','w').write(test)
flags='-race ' if meta.get('race') else ''
open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0: behaves; nonzero: the property is broken
d="$(cd "$(dirname "$0")" && pwd)"; t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$t/o.json"
timeout 120 go test -vet=off -count=1 %s-timeout 60s -overlay "$t/o.json" -run TestDemo ./%s
'''%(pkg,flags,pkg))
os.chmod(d+'/demo.sh',0o755)
json.dump(dict(property=meta['prop'],needs=meta['needs'],what_it_breaks=meta['breaks']),open(d+'/meta.json','w'),indent=1)
