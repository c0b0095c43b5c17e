#!/usr/bin/env python3
# seed.py check [ID...]: confirms in a scratch copy of /repo that each planted bug builds, passes the
# stable tests and is shown by its demo.  seed.py detect [ID...]: also runs the check of its property.
import json,os,subprocess,sys,shutil,tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD=V+'/seeded'
def sh(c,cwd=None,env=None,t=1000):
    p=subprocess.run(c,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
    return p.returncode,p.stdout
def scratch():
    d=tempfile.mkdtemp(prefix='seed')
    sh('cp -a /repo %s/r'%d)
    sh('git checkout -q -- .',cwd=d+'/r')
    ov=open('/opt/vp/mod/overlay.json').read().replace('/repo/',d+'/r/'); open(d+'/ov.json','w').write(ov)
    open(d+'/env.sh','w').write(open('/opt/vp/env.sh').read().replace('/opt/vp/mod/overlay.json',d+'/ov.json'))
    return d
def tests(r):
    t=open('/opt/vp/test.sh').read().replace('cd /repo','cd '+r).replace('/opt/vp/env.sh',r+'/../env.sh')
    f=r+'/../t.sh'; open(f,'w').write(t)
    sh('bash %s %s/../o.json'%(f,r))
    o=json.load(open(r+'/../o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
    return sorted(set(b['stable'])-set(o['passed']))
def check(i,detect):
    d=scratch(); r=d+'/r'
    try:
        s=SD+'/'+i
        m=json.load(open(s+'/meta.json'))
        rc,o=sh('bash %s/demo.sh'%s,cwd=r)
        if rc!=0: return 'BAD demo fails on clean tree: '+o[-1500:]
        rc,o=sh('git apply %s/patch.diff'%s,cwd=r)
        if rc!=0: return 'BAD patch: '+o
        b=open('/opt/vp/build.sh').read().replace('cd /repo','cd '+r).replace('/opt/vp/env.sh',r+'/../env.sh'); open(d+'/b.sh','w').write(b)
        rc,o=sh('bash %s/b.sh'%d)
        if rc!=0: return 'BAD build: '+o[-800:]
        miss=tests(r)
        if miss: return 'BAD tests fail: %s'%miss
        rc,o=sh('bash %s/demo.sh'%s,cwd=r)
        if rc==0: return 'BAD demo passes with the patch'
        if not detect: return 'ok (demo: %s)'%(o.strip().splitlines()[1:2])
        e=dict(os.environ,GOVER_REPO=r,VERIF_SEED='1',VERIF_TIER='quick')
        res=[]
        for p in [m['property']]:
            rc,o=sh('%s/run.sh %s'%(V,p),cwd=V,env=e)
            v=[l for l in o.splitlines() if 'VIOLATION' in l]
            res.append('%s rc=%d %s'%(p,rc,'; '.join(v)))
            if '-v' in sys.argv: res.append(o)
        return ('CAUGHT ' if rc==1 and v and 'no-failing' not in v[0] else 'caught-nfif ' if rc==1 and v else 'MISSED ')+' '.join(res)
    finally:
        shutil.rmtree(d)
cmd=sys.argv[1]; ids=[a for a in sys.argv[2:] if a[0]!='-'] or sorted(os.listdir(SD))
for i in ids:
    try: print(i,check(i,cmd=='detect'),flush=True)
    except Exception as ex: print(i,'EXC',ex,flush=True)
