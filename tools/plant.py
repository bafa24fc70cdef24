"""usage: plant.py DEFS.py [id ...] ; env NOCHECK=1 skip property check; ONLYCHECK"""
import sys, os, subprocess, json, shutil, runpy, re
from concurrent.futures import ThreadPoolExecutor
BASE='cf965c3'
PY='/opt/venv/bin/python'
stable=json.load(open('/opt/vp/BASELINE.json'))['stable']
env=dict(os.environ,PYTHONDONTWRITEBYTECODE='1',PYTHONHASHSEED='0',MPLBACKEND='Agg',MPLCONFIGDIR='/tmp/x/mpl',OMP_NUM_THREADS='1',OPENBLAS_NUM_THREADS='1')
env.pop('PYTHONPATH',None)
def sh(cmd,cwd=None,e=None,t=900):
    p=subprocess.run(cmd,shell=True,cwd=cwd,env=e or env,capture_output=True,text=True,timeout=t)
    return p.returncode,p.stdout+p.stderr
def orig_lines(f):
    _,o=sh(f'git blame -s {f}',cwd='/repo')
    return {int(re.search(r'(\d+)\)',l).group(1)) for l in o.splitlines() if l.startswith('^'+BASE[:7])}
def plant(b):
    out=[]
    bid=b['id']; d=f'/verif/seeded/{bid}'
    w=f'/tmp/x/w_{bid}'
    shutil.rmtree(w,ignore_errors=True)
    sh(f'git clone -q /repo {w}')
    try:
        for f,old,new in b['edits']:
            p=f'{w}/causal_effect_bandits/{f}'
            s=open(p).read()
            n=s.count(old)
            if n!=1 and not b.get('all'): return bid,False,f'edit matches {n} times in {f}: {old[:60]!r}'
            open(p,'w').write(s.replace(old,new))
        _,diff=sh('git diff',cwd=w)
        # removed lines original?
        ok=False; cur=None; ol=None; ln=0; allorig=True
        for l in diff.splitlines():
            if l.startswith('--- a/'): cur=l[6:]; ol=orig_lines(cur)
            elif l.startswith('+++'): pass
            elif l.startswith('@@'): ln=int(re.match(r'@@ -(\d+)',l).group(1))
            elif l.startswith('-'):
                if ln in ol: ok=True
                else: allorig=False
                ln+=1
            elif l.startswith('+'): pass
            elif l.startswith(' '): ln+=1
        if not ok: return bid,False,'no original line changed'
        if not allorig: out.append('(some changed lines from fixes)')
        os.makedirs(d,exist_ok=True)
        open(f'{d}/patch.diff','w').write(diff)
        open(f'{d}/demo.py','w').write(b['demo'].lstrip('\n'))
        open(f'{d}/demo.sh','w').write('#!/bin/bash\n# Exit 0 when the property holds on this input, nonzero when it is broken.\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(f'{d}/demo.sh',0o755)
        json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(f'{d}/meta.json','w'),indent=1)
        bad=None
        rc,o=sh(f'bash {d}/demo.sh',cwd='/repo')
        if rc: bad='demo fails on clean: '+o[-600:]
        if not bad:
            rc,o=sh(f'bash {d}/demo.sh',cwd=w)
            if rc==0: bad='demo passes on patched'
            else: out.append('demo: '+o.strip().splitlines()[-1][:100])
        if not bad:
            rc,o=sh(f'{PY} -m pytest -q -p no:cacheprovider -p no:xdist --timeout=300 --randomly-seed=0 --randomly-dont-reorganize -rA',cwd=w)
            passed=set(re.findall(r'PASSED (\S+)',o))
            norm={p.replace('/','.').replace('.py::','.',1) for p in passed}
            miss=[s for s in stable if s not in norm]
            if miss: bad='tests fail: '+str(miss)+o[-500:]
        if bad:
            shutil.rmtree(d); return bid,False,bad
        if not os.environ.get('NOCHECK'):
            e=dict(os.environ,VERIF_REPO=w,VERIF_SEED='1',VERIF_TIER='quick',VERIF_JOBS=os.environ.get('J','2'))
            rc,o=sh(f'bash /verif/run.sh {b["property"]} quick',cwd='/verif',e=e)
            v=[l for l in o.splitlines() if l.startswith('VIOLATION')]
            if rc==1 and v: out.append('CAUGHT '+v[0][:110])
            else: out.append(f'**MISSED** rc={rc} {o[-300:]}')
        return bid,True,' | '.join(out)
    finally:
        shutil.rmtree(w,ignore_errors=True)
defs=[]
def B(id,property,f,old=None,new=None,needs='',breaks='',demo='',**k):
    if isinstance(f,list) and old is not None: needs,breaks,demo=old,new,needs
    edits=f if isinstance(f,list) else [(f,old,new)]
    defs.append(dict(id=id,property=property,edits=edits,needs=needs,breaks=breaks,demo=demo,**k))
runpy.run_path(sys.argv[1],init_globals={'B':B})
sel=[b for b in defs if not sys.argv[2:] or b['id'] in sys.argv[2:]]
if os.environ.get('MISSONLY'):
    pass
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(plant,sel): print(*r,flush=True)
