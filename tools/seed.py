#!/usr/bin/env python3
"""seed.py make <spec.py> : create seeded/<id>; seed.py try <id>... : evaluate."""
import sys,os,subprocess,json,shutil
R='/repo'; V='/verif'
def sh(c,**k): return subprocess.run(c,shell=True,text=True,capture_output=True,**k)
def make(spec):
    g={}; exec(open(spec).read(),g)
    for s in g['SEEDS']:
        if len(sys.argv)>3 and s['id'] not in sys.argv[3:]: continue
        assert not sh('git -C /repo status --porcelain').stdout.strip()
        d=f"{V}/seeded/{s['id']}"; os.makedirs(d,exist_ok=True)
        for f,old,new in s['edits']:
            t=open(f'{R}/{f}',newline='').read()
            if '\r\n' in t: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
            n=t.count(old)
            assert n==1 or ('nth' in s and n>1),(s['id'],f,n)
            if n>1:
                i=-1
                for _ in range(s['nth']+1): i=t.index(old,i+1)
                t=t[:i]+new+t[i+len(old):]
            else: t=t.replace(old,new)
            open(f'{R}/{f}','w',newline='').write(t)
        open(f'{d}/patch.diff','wb').write(subprocess.run('git -C /repo diff',shell=True,capture_output=True).stdout)
        sh('git -C /repo checkout -- .')
        open(f'{d}/main.rs','w').write(s['demo'])
        shutil.copy(f'{V}/tools/demo_template.sh',f'{d}/demo.sh'); os.chmod(f'{d}/demo.sh',0o755)
        json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(f'{d}/meta.json','w'),indent=1)
        print('made',s['id'])
def tryit(i):
    d=f"{V}/seeded/{i}"; m=json.load(open(f'{d}/meta.json'))
    r0=sh(f'bash {d}/demo.sh',cwd=R)
    a=sh(f'git -C /repo apply {d}/patch.diff')
    if a.returncode: print(i,'PATCH FAILS',a.stderr); return
    try:
        t=sh(f'bash {V}/tools/t.sh').stdout.strip().splitlines()
        r1=sh(f'bash {d}/demo.sh',cwd=R)
        c=sh(f"bash {V}/check.sh {m['property']}",cwd=V)
    finally:
        sh('git -C /repo checkout -- .')
    v=[l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
    print(f"{i} {m['property']} demo clean={r0.returncode} patched={r1.returncode} | tests {t[-1] if t else '?'} | check exit {c.returncode} real={sum('no-failing' not in x for x in v)} nofail={sum('no-failing' in x for x in v)}")
    if r0.returncode: print('   clean demo output:',r0.stdout[-400:],r0.stderr[-300:])
    if c.returncode!=1: print(c.stdout[-600:])
if sys.argv[1]=='make': make(sys.argv[2])
else:
    for i in (sys.argv[2:] if len(sys.argv)>2 else sorted(os.listdir(f'{V}/seeded'))): tryit(i)
