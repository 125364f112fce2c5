#!/usr/bin/env python3
# usage: runseeds.py [-a] [ids]  : runs the owning check (or -a all checks) against each seed in a scratch copy of src
import sys,os,subprocess,json,shutil
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
allp='-a' in sys.argv; ids=[a for a in sys.argv[1:] if a!='-a'] or sorted(os.listdir(V+'/seeded'))
props=[c['property'] for c in json.load(open(V+'/MANIFEST.json'))['checks']]
for i in ids:
    d='/tmp/rs/'+i; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run(['cp','-a','/repo/src',d+'/'],check=True)
    r=subprocess.run(['git','apply','--directory=','-p1',V+'/seeded/%s/patch.diff'%i],cwd=d,capture_output=True,text=True)
    if r.returncode: print(i,'APPLY',r.stderr); continue
    own=json.load(open(V+'/seeded/%s/meta.json'%i))['property']
    def one(p):
        q=subprocess.run(['python3','check.py',p,'--tier','quick','--scale',os.environ.get('SCALE','1'),'--seed','1','--src',d+'/src','--jobs','2'],cwd=V,capture_output=True,text=True,timeout=900)
        v=[l for l in q.stdout.splitlines() if l.startswith('VIOLATION')]
        return p,q.returncode,v,q.stdout[-300:]+q.stderr[-300:]
    res=[]
    todo=[own]+([p for p in props if p!=own] if allp else [])
    with ThreadPoolExecutor(3) as ex:
        res=list(ex.map(one,todo))
    o=res[0]
    fires=[p for p,rc,v,_ in res[1:] if rc==1]
    odd=[(p,rc,t) for p,rc,v,t in res if rc not in(0,1)]
    print('%-26s %s %s %s'%(i,own,'CAUGHT' if o[1]==1 else 'MISSED rc%d'%o[1],('also: '+' '.join(fires)) if allp else ''),odd or '',flush=True)
    shutil.rmtree(d)
