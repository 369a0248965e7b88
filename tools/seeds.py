#!/usr/bin/env python3
# Development aid: several seed specs in one file, separated by lines of %%%%.
import sys,subprocess
hdr=open('/verif/tools/demo_engine_header.txt').read()
ehdr=open('/verif/tools/demo_eval_header.txt').read()
for s in sys.stdin.read().split('\n%%%%\n'):
    r=subprocess.run(['python3','/verif/tools/mkseed.py'],input=s.strip('\n').replace('@HDR@\n',hdr).replace('@EHDR@\n',ehdr)+'\n',text=True)
