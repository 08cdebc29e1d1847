#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: reads a spec from stdin (python dict) and writes seeded/ID."""
import sys,os,subprocess,shutil,json
spec=eval(sys.stdin.read())
id,prop=sys.argv[1:3]
S='/verif/seeded/'+id; os.makedirs(S,exist_ok=True)
W='/tmp/w/mk'; shutil.rmtree(W,ignore_errors=True)
subprocess.check_call(['cp','-a','/repo',W])
for f,old,new in spec['edits']:
    p=W+'/'+f; s=open(p).read(); assert s.count(old)>=1,(f,old); open(p,'w').write(s.replace(old,new,1))
env=dict(os.environ)
subprocess.call('. /opt/vp/env.sh; gofmt -l snaps match internal',shell=True,cwd=W)
d=subprocess.check_output(['git','diff'],cwd=W).decode()
open(S+'/patch.diff','w').write(d)
shutil.copy('/verif/tools/scratch.sh',S+'/scratch.sh')
open(S+'/demo.sh','w').write('#!/bin/bash\n'+spec.get('pre','')+'. "$(dirname "$0")/scratch.sh"\n'+spec['demo'].lstrip('\n'))
open(S+'/demo_test.go.txt','w').write(spec['test'].lstrip('\n'))
for n,t in spec.get('files',{}).items(): open(S+'/'+n+'.txt','w').write(t.lstrip('\n'))
json.dump({'property':prop,'needs':spec['needs'],'what_it_breaks':spec['breaks']},open(S+'/meta.json','w'),indent=1)
shutil.rmtree(W)
