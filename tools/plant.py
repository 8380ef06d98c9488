"""plant(id, prop, [(file, old, new)], demo_cpp, needs, breaks, flags)"""
import json, os, subprocess, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sub import sub
REPO='/repo'; SEED='/verif/seeded'
DEMO='''#!/bin/bash
# builds the demonstration against the headers in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
%s
'''
CMD='''%s %s "$here/%s" -o "$d/demo" || exit 1
timeout 60 "$d/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def restore(): sh('git -C /repo checkout -- .')
def tests():
    r=sh('bash /opt/vp/test.sh /tmp/w/out.json')
    try: o=json.load(open('/tmp/w/out.json'))
    except Exception: return None
    st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(st-set(o['passed']))
def plant(id, prop, edits, demo, needs, breaks, flags='-std=c++17 -O1 -msse3 -I public', comp='g++', src='demo.cpp', run=None, extra=()):
    restore()
    d='%s/%s'%(SEED,id); os.makedirs(d,exist_ok=True)
    open(d+'/'+src,'w').write(demo)
    open(d+'/demo.sh','w').write(DEMO%(run or CMD%(comp,flags,src))); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    clean=sh('bash %s/demo.sh'%d,cwd=REPO)
    try:
        for e in edits: sub(REPO+'/'+e[0],e[1],e[2],*(e[3:]))
        sh('git -C /repo diff --binary > %s/patch.diff'%d)
        failed=tests()
        bad=sh('bash %s/demo.sh'%d,cwd=REPO)
        res=check([prop])
    finally: restore()
    ok = clean.returncode==0 and bad.returncode!=0 and failed==[]
    print(id, 'OK' if ok else 'INVALID', 'clean',clean.returncode,'bad',bad.returncode,'tests failed',failed and failed[:3], '| check', res)
    if clean.returncode: print(clean.stderr[:1500], clean.stdout[:300])
    return ok
def check(props):
    out=[]
    for p in props:
        r=sh('./run.py %s'%p,cwd='/verif')
        l=[x for x in r.stdout.splitlines() if x.strip()]
        out.append((p,r.returncode,[x[:220] for x in l[:2]], r.stderr[-300:] if r.returncode not in (0,1) else ''))
    return out
def recheck(props=None, ids=None, verbose=True):
    import glob
    for d in sorted(glob.glob(SEED+'/*')):
        id=os.path.basename(d)
        if ids and id not in ids: continue
        m=json.load(open(d+'/meta.json'))
        restore()
        a=sh('git -C /repo apply %s/patch.diff'%d)
        try: res=check(props or [m['property']])
        finally: restore()
        print(id, a.returncode, [(p,c) for p,c,_,_ in res] if not verbose else res)
