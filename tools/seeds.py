#!/usr/bin/env python3
"""Development tool (not a check): validates the planted bugs in /verif/seeded.
 seeds.py verify [ID...]   patch applies, builds, passes the stable tests, demo 0 on clean / nonzero on patched
 seeds.py check  [ID...]   run the property's quick check on a patched copy (VP_REPO): expects exit 1
 seeds.py quiet PATCH PROP... apply a behaviour-preserving patch, run the checks: expects exit 0
Scratch copies live in /tmp/w/s<slot>; builds and tests run with the copy bind-mounted at /repo (unshare)."""
import sys,os,subprocess,json,shutil,threading,queue,time
V='/verif'; W='/tmp/w'
def sh(c,to=900): 
    try: r=subprocess.run(['bash','-c',c],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=to); return r.returncode,r.stdout
    except subprocess.TimeoutExpired: return 124,'timeout'
def inrepo(slot,c,to=900): return sh("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && %s'"%(slot,c),to)
def slot(i):
    s=W+'/s%d'%i
    if not os.path.isdir(s): sh('cp -a %s/r1 %s'%(W,s))
    sh('git -C %s checkout -q -- . && git -C %s clean -fdq'%(s,s)); return s
def base(): return set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def verify(s,id):
    d=V+'/seeded/'+id; t=W+'/demo-%s'%id
    shutil.rmtree(t,ignore_errors=True); shutil.copytree(d,t,ignore=shutil.ignore_patterns('*.diff','meta.json'))
    r0,o0=inrepo(s,'timeout 300 bash %s/demo.sh'%t)
    if r0: return 'BAD demo fails on clean: '+o0[-800:]
    r,o=sh('git -C %s apply %s/patch.diff'%(s,d))
    if r: return 'BAD patch: '+o
    r1,o1=inrepo(s,'timeout 300 bash %s/demo.sh'%t)
    r,o=inrepo(s,'bash /opt/vp/test.sh %s/o-%s.json'%(W,id),1500)
    res=json.load(open(W+'/o-%s.json'%id)); miss=base()-set(res['passed'])
    shutil.rmtree(t); os.remove(W+'/o-%s.json'%id)
    if miss: return 'BAD tests: %d missing e.g. %s %s'%(len(miss),sorted(miss)[:2],o[-600:] if len(miss)>900 else '')
    if not r1: return 'BAD demo passes on patched'
    return 'ok demo rc=%d %s'%(r1,o1.strip()[-160:])
def check(s,id,tier='quick'):
    d=V+'/seeded/'+id; p=json.load(open(d+'/meta.json'))['property']
    sh('git -C %s apply %s/patch.diff'%(s,d)); t=time.time()
    r,o=sh('cd %s && VERIF_TIER=%s VP_EVID=%s/ev-%s VP_REPO=%s python3 check.py %s'%(V,tier,W,id,s,p),3000)
    v=[l for l in o.splitlines() if l.startswith('VIOLATION')]
    return '%s rc=%d %.0fs %s'%('CAUGHT' if r==1 and v else 'MISSED',r,time.time()-t,(v or o.strip().splitlines()[-3:])[:2])
def main():
    m=sys.argv[1]; ids=sys.argv[2:] or sorted(x for x in os.listdir(V+'/seeded') if os.path.isdir(V+'/seeded/'+x))
    n=int(os.environ.get('J','4' if m=='verify' else '2')); q=queue.Queue(); [q.put(i) for i in ids]; L=threading.Lock()
    def work(k):
        while True:
            try: id=q.get_nowait()
            except queue.Empty: return
            try: out=dict(verify=verify,check=check)[m](slot(k+int(os.environ.get('S0','2'))),id)
            except Exception as e: out='ERR %r'%e
            with L: print(id,out,flush=True)
            slot(k+int(os.environ.get('S0','2')))
    T=[threading.Thread(target=work,args=(k,)) for k in range(n)]; [t.start() for t in T]; [t.join() for t in T]
main()
