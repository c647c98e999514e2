#!/usr/bin/env python3
"""mkseed.py [ids]: writes seeded/<id>/ from tools/seeds.py and tries them (demo on the clean and the changed tree, the check)."""
import os,sys,subprocess,json,shutil
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
sys.path.insert(0,here)
from seeds import S
lib=open(here+'/demo/lib.sh').read()
only=set(a for a in sys.argv[1:] if not a.startswith('-')); nodemo='--nodemo' in sys.argv
def sh(c,cwd=None,t=400):
    p=subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=t); return p.returncode,p.stdout+p.stderr
for s in S:
    if only and s['id'] not in only: continue
    d=f"{root}/seeded/{s['id']}"; os.makedirs(d,exist_ok=True)
    w='/tmp/seedrepo'; sh(f'rm -rf {w}; cp -a /repo {w}')
    ok=True
    for p,o,n in s['edits']:
        f=w+'/'+p; t=open(f).read()
        if t.count(o)<1: print(s['id'],'NOEDIT',o[:60]); ok=False; break
        open(f,'w').write(t.replace(o,n,1))
    if not ok: continue
    _,diff=sh('git diff',w); open(d+'/patch.diff','w').write(diff)
    open(d+'/lib.sh','w').write(lib)
    open(d+'/demo.sh','w').write('#!/bin/bash\n# '+s['breaks']+'\n. "$(dirname "$0")/lib.sh"\n'+s['demo'].strip()+'\n'); os.chmod(d+'/demo.sh',0o755)
    for n,t in s.get('files',{}).items(): open(d+'/'+n,'w').write(t)
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    rc,out=sh('/tmp/chk -repo %s -verif /tmp/vv %s'%(w,s['prop'])); 
    print(s['id'],'check',s['prop'],'CAUGHT' if rc==1 else 'missed rc=%d'%rc)
    if rc!=1: print(out[-300:])
    if nodemo: continue
    t='/tmp/seedclean'
    sh(f'rm -rf {t}; cp -a /repo {t}')
    r0,o0=sh(f'bash {d}/demo.sh',t); r1,o1=sh(f'bash {d}/demo.sh',w)
    print('   demo clean',r0,'patched',r1,'GOOD' if r0==0 and r1!=0 else 'BAD')
    if r0!=0: print(o0[-1500:])
    else: print('   ',o1.strip().split('\n')[-1][:200])
    sh('gofmt -l cmd internal',w)
sh('rm -rf /tmp/seedrepo /tmp/seedclean')
