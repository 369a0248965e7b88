#!/usr/bin/env python3
"""Development aid: run checks on a mutated scratch copy of /repo.
usage: mut.py [-t] IDS FILE <<< 'old text\n====\nnew text'   (several edits separated by '####'; '@@ file' switches file)
-t also builds and runs the stable tests on the copy."""
import sys,subprocess,os,shutil,tempfile,json
args=sys.argv[1:]; tests=False; keep=None
if args[0]=='-t': tests=True; args=args[1:]
ids=args[0].split(','); cur=args[1]
d=tempfile.mkdtemp(prefix='mut.',dir='/tmp'); repo=d+'/repo'
try:
    subprocess.check_call(['cp','-a','/repo',repo])
    for e in sys.stdin.read().strip('\n').split('\n####\n'):
        if e.startswith('@@ '):
            l,e=e.split('\n',1); cur=l[3:].strip()
        old,new=(e.split('\n====\n') if '\n====\n' in e else (e.replace('\n====',''),''))
        p=repo+'/'+cur; s=open(p).read()
        if s.count(old)!=1: print('PATTERN COUNT',s.count(old),repr(old)); sys.exit(2)
        open(p,'w').write(s.replace(old,new))
    env=dict(os.environ,GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off',GOWORK='off')
    b=subprocess.run(['go','build','./...'],cwd=repo,env=env,capture_output=True,text=True)
    if b.returncode: print('BUILD FAILS',b.stderr); sys.exit(2)
    if tests:
        t=subprocess.run(['go','test','./...'],cwd=repo,env=env,capture_output=True,text=True)
        for l in t.stdout.splitlines():
            if 'FAIL' in l or '--- ' in l: print('  TEST',l)
    root=os.environ.get('VERIF_ROOT') or '/verif'
    os.makedirs(d+'/root/evidence'); 
    if os.path.exists('/verif/known-findings.txt'): shutil.copy('/verif/known-findings.txt',d+'/root/')
    r=subprocess.run(['/verif/bin/checker']+ids,env=dict(os.environ,VERIF_REPO=repo,VERIF_ROOT=d+'/root'),capture_output=True,text=True)
    print(r.stdout[-6000:],r.stderr[-6000:]); print('exit',r.returncode)
finally:
    shutil.rmtree(d)
