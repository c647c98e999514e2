#!/usr/bin/env python3
# usage: mut.py FILE  — FILE has blocks:  ### name | C05,C06 | expect(bad/ok)\n@@ path\n<<<\nold\n===\nnew\n>>>\n
import sys,subprocess,os,re
from concurrent.futures import ThreadPoolExecutor
src=open(sys.argv[1]).read()
only=[a for a in sys.argv[2:] if a!='-v']
cases=[]
for blk in re.split(r'^### ',src,flags=re.M)[1:]:
    head,body=blk.split('\n',1)
    name,chk,exp=[x.strip() for x in head.split('|')]
    if only and name not in only: continue
    edits=[]
    for m in re.finditer(r'^@@ (\S+)\n<<<\n(.*?)\n===\n(.*?)\n?>>>$',body,flags=re.M|re.S):
        edits.append(m.groups())
    cases.append((name,chk,exp,edits))
def run(c):
    name,chk,exp,edits=c
    d=f'/tmp/mr/{name}'
    os.makedirs(d,exist_ok=True)
    subprocess.run(['rsync','-a','--delete','--exclude','.git','/repo/',d+'/'],check=True)
    for p,o,n in edits:
        f=d+'/'+p; t=open(f).read() if os.path.exists(f) else ''
        if o.strip()=='' : t=n; open(f,'w').write(t); continue
        if t.count(o)<1: return name,'NOEDIT '+p,exp,o[:80]
        t=t.replace(o,n,1); open(f,'w').write(t)
    ids=chk.split(',')
    p=subprocess.run(['/tmp/chk','-repo',d,'-verif',d+'/vv']+ids,capture_output=True,text=True)
    subprocess.run(['rm','-rf',d])
    st='bad' if p.returncode==1 else 'ok' if p.returncode==0 else 'err%d'%p.returncode
    return name,st,exp,p.stdout+p.stderr
with ThreadPoolExecutor(4) as ex:
    for name,st,exp,out in ex.map(run,cases):
        print(('PASS ' if st==exp else 'FAIL ')+name,'got',st,'want',exp)
        if st==exp and '-v' not in sys.argv: continue
        ls=[l for l in out.split('\n') if l and not l.startswith(('ok:','VIOLATION','=='))]
        for l in ls[:2]: print('     ',l[:260])
