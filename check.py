#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution of /repo's current source.

usage: check.py PROPERTY        (VERIF_TIER=quick|thorough, VERIF_SEED)
 1. builds the executor (engine/symex.cpp) and, from /repo's working tree, the harness twice:
    LLVM bitcode (executed symbolically) and a native program (replays solver models);
 2. explores every feasible path of each entry, every assertion becoming a solver query;
 3. replays every counterexample natively; only what reproduces is a VIOLATION;
 4. replays the witness of explored paths natively too (engine validation);
 5. writes evidence/<id>.json.  exit 0 / exit 1 + VIOLATION line.
"""
import sys, os, signal, json, hashlib, subprocess, time, shutil, tempfile, re, random, uuid
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get('VP_REPO','/repo'); B=os.path.join(HERE,'.build')
sys.path.insert(0,HERE)
Z3LIB='/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib'
TIER=os.environ.get('VERIF_TIER','quick'); SEED=int(os.environ.get('VERIF_SEED','1') or 1)
if TIER not in('quick','thorough'): TIER='quick'
T0=time.time()
def log(*a): print(*a,file=sys.stderr,flush=True)
def sha(*parts):
    h=hashlib.sha256()
    for p in parts: h.update(p if isinstance(p,bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:20]
def rd(p):
    with open(p,'rb') as f: return f.read()
_rh=None
def repohash():
    global _rh
    if _rh is None:
        h=[]
        for root in('include','src'):
            for d,_,fs in sorted(os.walk(os.path.join(REPO,root))):
                for f in sorted(fs): p=os.path.join(d,f); h.append(os.path.relpath(p,REPO)); h.append(rd(p))
        _rh=sha(*h)
    return _rh
def run(cmd,timeout,**kw):
    return subprocess.run(cmd,timeout=timeout,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,errors='replace',**kw)
def place(tmp,dst): os.replace(tmp,dst)
def engine():
    os.makedirs(B,exist_ok=True); out=os.path.join(B,'symex-'+sha(rd(HERE+'/engine/symex.cpp'),rd(HERE+'/engine/build.sh')))
    if not os.path.exists(out):
        t=out+'.%s.tmp'%uuid.uuid4().hex; r=run(['bash',HERE+'/engine/build.sh',t],600)
        if r.returncode: raise RuntimeError('engine build failed: '+r.stderr[-2000:])
        place(t,out)
    return out
BCF='-std=c++17 -O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ffp-contract=off -w'.split()
def bitcode(h,defs):
    src=HERE+'/harness/'+h; out=os.path.join(B,h.replace('.cpp','')+'-'+sha(repohash(),rd(src),rd(HERE+'/engine/vp.h'),rd(HERE+'/engine/pre.h'),*common(),*defs,*BCF)+'.bc')
    if not os.path.exists(out):
        t=out+'.%s.tmp'%uuid.uuid4().hex
        r=run(['clang++',*BCF,'-include',HERE+'/engine/pre.h','-I'+HERE+'/engine','-I'+HERE+'/harness','-I'+REPO+'/include',*defs,'-emit-llvm','-c',src,'-o',t],600)
        if r.returncode: return None,r.stderr
        place(t,out)
    return out,''
def common(): return [rd(HERE+'/harness/'+f) for f in sorted(os.listdir(HERE+'/harness')) if f.endswith('.h')]
def native(h,defs,san=True):
    src=HERE+'/harness/'+h; fl=['-std=c++17','-O1','-w','-rdynamic','-ffp-contract=off']+(['-g','-fsanitize=thread','-pthread'] if san=='thread' else ['-g','-fsanitize=address','-D_GLIBCXX_ASSERTIONS'] if san else ['-pthread'])
    out=os.path.join(B,h.replace('.cpp','')+'-'+sha(repohash(),rd(src),rd(HERE+'/engine/vp.h'),rd(HERE+'/engine/native.cpp'),*common(),*defs,*fl)+'.bin')
    if not os.path.exists(out):
        t=out+'.%s.tmp'%uuid.uuid4().hex
        r=run(['clang++',*fl,'-I'+HERE+'/engine','-I'+HERE+'/harness','-I'+REPO+'/include',*defs,src,HERE+'/engine/native.cpp','-o',t,'-ldl'],600)
        if r.returncode: return None,r.stderr
        place(t,out)
    return out,''
def replay(binp,entry,models,params,to=20,nproc=8):
    """run input sets natively; returns list of dict(status,viol,emit)"""
    if not models: return []
    env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=0:symbolize=0:malloc_fill_byte=190:max_malloc_fill_size=4096',MALLOC_PERTURB_='165',TSAN_OPTIONS='halt_on_error=1:exitcode=66:report_bugs=1:history_size=4')
    res=[None]*len(models)
    def chunk(idx):
        if not idx: return
        with tempfile.NamedTemporaryFile('w',suffix='.in',delete=False,dir=B) as f:
            for k in idx:
                for n,v in params.items(): f.write('param:%s %s\n'%(n,v))
                f.write('_ 0\n')
                for n,v in (models[k] or {}).items(): f.write('%s %s\n'%(n,v))
                f.write('---\n')
        try: r=run([binp,entry,f.name,str(to)],to*len(idx)+60,env=env).stdout
        except subprocess.TimeoutExpired as e: r=(e.stdout or b'').decode(errors='replace') if isinstance(e.stdout,bytes) else (e.stdout or '')
        os.unlink(f.name)
        for l in r.splitlines():
            m=re.match(r'RESULT (\d+) (.*?) \| VIOL (.*)\| EMIT (.*)$',l)
            if m: res[idx[int(m[1])]]=dict(status=m[2],viol=[x.strip() for x in m[3].split(';') if x.strip()],emit=m[4])
    n=len(models); ch=[list(range(i,n,nproc)) for i in range(min(n,nproc))]
    with ThreadPoolExecutor(nproc) as ex: list(ex.map(chunk,ch))
    return [r or dict(status='NORUN',viol=[],emit='') for r in res]
def bad(r,term):
    s=r['status']
    if s.startswith('ASSUME'): return False
    if r['viol']: return True
    if s.startswith('SIGNAL') or s.startswith('UNCAUGHT') or s.startswith('EXIT'): return True
    return term and s=='TIMEOUT'
BADOUT={'violated','memory','abort','uncaught','trap','fpzero','timeout','unreachable','stack','bigalloc','crash'}
PROCS=set()
def stopall(*_):
    for p in list(PROCS):
        try: os.killpg(p.pid,signal.SIGKILL)
        except Exception: pass
    os._exit(3)
def symex(eng,bc,r,seq):
    out=os.path.join(B,'run-%d-%d.jsonl'%(os.getpid(),seq))
    if os.path.exists(out): os.unlink(out)
    cmd=[eng,bc,'--entry',r['entry'],'--out',out,'--jobs',str(r.get('jobs',4)),'--steps',str(r.get('steps',200000000)),'--rlimit',str(r.get('rlimit',20000000)),'--wall',str(int(r.get('wall',300)))]
    for k,v in r.get('params',{}).items(): cmd+=['--param','%s=%d'%(k,v)]
    if r.get('dump'): os.makedirs(r['dump'],exist_ok=True); cmd+=['--dump',r['dump']]
    err=''
    p=subprocess.Popen(cmd,stdout=subprocess.DEVNULL,stderr=subprocess.PIPE,text=True,errors='replace',start_new_session=True); PROCS.add(p)
    try: err=(p.communicate(timeout=r.get('wall',300)+60)[1] or '')[-500:]
    except subprocess.TimeoutExpired: err='executor exceeded its time limit'
    try: os.killpg(p.pid,signal.SIGKILL)
    except (ProcessLookupError,PermissionError): pass
    p.wait(); PROCS.discard(p)
    recs=[]
    if os.path.exists(out):
        for l in open(out,errors='replace'):
            try: recs.append(json.loads(l))
            except Exception: recs.append(dict(path='?',outcome='crash',msg='unparsable record',model={}))
        os.unlink(out)
    return recs,err
def known(pid):
    ks=[]
    p=HERE+'/known_findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l=l.strip()
            if l:
                d=json.loads(l)
                if d.get('property')==pid and d.get('kind')=='known': ks.append(d)
    return ks
def matches(k,entry,vid,model):
    m=k['match']
    if 'entry' in m and m['entry']!=entry: return False
    if 'id' in m and not re.fullmatch(m['id'],vid): return False
    return all(str((model or {}).get(n))==str(v) for n,v in m.get('model',{}).items())
class Result:
    def __init__(s): s.viol=[]; s.unconf=[]; s.inconc=[]; s.known={}; s.stats={}; s.samples=[]; s.fns=set(); s.reached=set(); s.validated=0; s.mismatch=[]; s.emits=[]; s.runs=[]
def main():
    pid=sys.argv[1]; import specs; spec=specs.SPECS[pid]; R=Result(); KN=known(pid)
    runs=[dict(x) for x in spec['runs'](TIER)]
    only=os.environ.get('VP_ONLY')
    if only: runs=[r for r in runs if re.search(only,r['entry'])]
    eng=None; builds={}
    with ThreadPoolExecutor(8) as ex:
        fe=ex.submit(engine); fs={}; bcs={}
        for r in runs:
            k=(r['h'],tuple(r.get('defs',())),r.get('san',True))
            if k[:2] not in bcs: bcs[k[:2]]=ex.submit(bitcode,*k[:2])
            if k not in fs: fs[k]=(bcs[k[:2]],ex.submit(native,*k))
        for k,(a,b) in fs.items(): builds[k]=(a.result(),b.result())
        eng=fe.result()
    tb=time.time()-T0; log('%s: built in %.1fs'%(pid,tb))
    suspect=[]
    def one(a):
        i,r=a; k=(r['h'],tuple(r.get('defs',())),r.get('san',True)); (bc,e1),(nb,e2)=builds[k]
        tr=time.time(); recs=[]; err=''
        # time budget of the whole check; little time for the remaining runs once a candidate violation is known
        left=(560 if TIER=='quick' else 5400)-(time.time()-T0); r=dict(r,wall=max(12,min(r.get('wall',300),left,60 if suspect else 1e9)))
        if bc: recs,err=symex(eng,bc,r,i)
        if any(not any(matches(k,r['entry'],v['id'],m) for k in KN) for d in recs for v in d.get('viol',[]) for m in v['models']): suspect.append(i)
        return i,r,recs,err,bc,e1,nb,e2,time.time()-tr
    tot=dict(paths=0,queries=0,sat=0,unsat=0,unknown=0,asserts=0,syn=0,steps=0,skipped=0,solver_s=0.0)
    with ThreadPoolExecutor(spec.get('par',2)) as ex: results=list(ex.map(one,enumerate(runs)))
    for i,r,recs,err,bc,e1,nb,e2,wall in results:
        name=r['entry']+''.join(' %s=%s'%kv for kv in r.get('params',{}).items()); term=r.get('term',False)
        if not bc and r.get('must'): # the interface this entry uses does not compile for any input
            R.viol.append((r,'clang++ -std=c++17 -fsyntax-only -I%s/engine -I%s/harness -I%s/include %s %s/harness/%s #'%(HERE,HERE,REPO,' '.join(r.get('defs',())),HERE,r['h']),'the interface used by this entry does not compile: '+' '.join(l for l in e1.splitlines() if 'error' in l)[:400],{},dict(status='COMPILE',viol=[]))); continue
        if not bc: R.inconc.append('%s: harness does not compile against the current tree: %s'%(name,e1[-600:])); continue
        if not nb: R.inconc.append('%s: native harness does not build: %s'%(name,e2[-600:])); continue
        oc={}
        for d in recs:
            for f in tot:
                if f=='paths': tot[f]+= d.get('outcome')!='infeasible'
                else: tot[f]+=d.get(f,0)
            oc[d['outcome']]=oc.get(d['outcome'],0)+1; R.fns.update(d.get('fns',[])); R.reached.update(name.split()[0]+':'+x for x in d.get('reached',[]))
            for e in d.get('emits',[]): R.emits.append((r,e,d.get('model')))
        R.runs.append(dict(entry=name,paths=len(recs),outcomes=oc,wall_s=round(wall,2),bound=r.get('bound','')))
        log('  %s: %d paths %s %.1fs'%(name,len(recs),oc,wall))
        if oc.get('stopped'): R.inconc.append('%s: exploration stopped after many violations'%name)
        if not recs: R.inconc.append(name+': executor gave no result '+err)
        elif 'time limit' in err: R.inconc.append(name+': '+err)
        cands=[]; wit=[]
        for d in recs:
            oc1=d['outcome']
            for v in d.get('viol',[]):
                for m in v['models']:
                    if m is not None: cands.append((v['id'],d['path'],m,oc1))
            if oc1 in BADOUT and oc1!='violated' and 'wall clock' not in d.get('msg',''): cands.append((oc1+': '+d.get('msg',''),d['path'],d.get('model') or {},oc1))
            elif oc1=='unsupported' or (oc1=='timeout' and 'wall clock' in d.get('msg','')): R.inconc.append('%s: path %s: %s'%(name,d['path'][:60],d.get('msg')))
            if d.get('undec'): R.inconc.append('%s: undecided assertion(s) %s on path %s'%(name,sorted(set(d['undec'])),d['path'][:60]))
            if oc1 in('ok','unsupported') and d.get('model') is not None: wit.append((oc1+(' undec' if d.get('undec') else ''),d['path'],d['model'],oc1))
        # bound the number of candidates per assertion id
        per={}; cc=[]
        rnd=random.Random(SEED); rnd.shuffle(cands)
        for c in cands:
            per[c[0]]=per.get(c[0],0)+1
            if per[c[0]]<=(3 if R.viol else r.get('percand',24)): cc.append(c)
        if R.viol: cc=cc[:12] if time.time()-T0<600 else []   # a violation is confirmed already: few further replays
        wmax=8 if R.viol else r.get('witmax',150 if TIER=='quick' else 1000)
        prio=[w for w in wit if w[0]!='ok']; rest=[w for w in wit if w[0]=='ok']; rnd.shuffle(rest); wit=(prio[:2*wmax]+rest)[:max(wmax,min(len(prio),2*wmax))]
        rs=replay(nb,r['entry'],[c[2] for c in cc],r.get('params',{}),r.get('to',20)); conf={}
        for c,q in zip(cc,rs):
            t=term or c[3]=='timeout'
            if bad(q,t): conf.setdefault(c[0],[]).append((c,q))
        for cid in {c[0]:1 for c in cc}:
            lst=conf.get(cid,[])
            if not lst:
                R.unconf.append('%s: %s (counterexample did not reproduce natively)'%(name,cid)); continue
            un=[]
            for c,q in lst:
                ids=[v.split(' @@')[0] for v in q['viol']] or [q['status']]
                left=[x for x in ids if not any(matches(k,r['entry'],x,c[2]) for k in KN)]
                for k in KN:
                    if any(matches(k,r['entry'],x,c[2]) for x in ids): R.known[k['what']]=1
                if left: un.append((c,q))
            if un: R.viol.append((r,nb,cid,un[0][0][2],un[0][1]))
        ws=replay(nb,r['entry'],[w[2] for w in wit],r.get('params',{}),r.get('to',20))
        for w,q in zip(wit,ws):
            if bad(q,term):
                ids=[v.split(' @@')[0] for v in q['viol']] or [q['status']]
                left=[x for x in ids if not any(matches(k,r['entry'],x,w[2]) for k in KN)]
                if left and not any(v[2]==left[0] for v in R.viol): R.viol.append((r,nb,left[0],w[2],q)); R.mismatch.append('%s %s: %s'%(name,w[0],left))
            elif q['status']=='DONE': R.validated+=1
            if len(R.samples)<6: R.samples.append(dict(entry=name,path=w[1][:80],inputs={k:v for k,v in list((w[2] or {}).items())[:24]},native=q['status']))
    if spec.get('post') and not os.environ.get('VP_NOPOST'): spec['post'](R,TIER,SEED,replay,builds)
    for want in spec.get('reach',[]):
        if want not in R.reached: R.inconc.append('reachability witness %s not reached'%want)
    wall=time.time()-T0
    cov=dict(states=tot['paths'],transitions=tot['steps'],traces_validated_against_impl=R.validated,samples=R.samples or [dict(note='no path')],
        queries=tot['queries'],queries_unsat=tot['unsat'],queries_sat=tot['sat'],queries_unknown=tot['unknown'],assertions=tot['asserts'],assertions_closed_by_rewriting=tot['syn'],assertions_not_repeated_after_violation=tot['skipped'],solver_s=round(tot['solver_s'],3),
        functions_encoded=len(R.fns),functions=sorted(demangle([f for f in R.fns if 'IntegratorXX' in f]))[:400],bounds=spec['bounds'],runs=R.runs,reachability_witnesses=sorted(R.reached),
        inconclusive=R.inconc[:60],inconclusive_count=len(R.inconc),unconfirmed_counterexamples=R.unconf[:40],replay_mismatches=R.mismatch[:20],known_findings=sorted(R.known),build_s=round(tb,1),repo_tree=repohash())
    cov.update(R.stats)
    ev=dict(property=pid,tier=TIER,seed=SEED,level='model_checking',coverage=cov,assumptions=spec.get('assume',[])+COMMON_ASSUME,wall_s=round(wall,2),violations=len(R.viol))
    os.makedirs(HERE+'/evidence',exist_ok=True)
    with open(HERE+'/evidence/%s.json'%pid,'w') as f: json.dump(ev,f,indent=1)
    for k in KN:
        if k['what'] in R.known: print('KNOWN-FINDING: property=%s %s'%(pid,k['what']))
    for x in R.inconc[:20]: print('INCONCLUSIVE: '+x.replace('\n',' ')[:400])
    for x in R.unconf[:20]: print('UNCONFIRMED: '+x[:300])
    print('%s: %d paths, %d assertions, %d queries (%d unsat, %d sat, %d unknown), %.1fs solver, %d witnesses replayed, %.1fs'%(pid,tot['paths'],tot['asserts'],tot['queries'],tot['unsat'],tot['sat'],tot['unknown'],tot['solver_s'],R.validated,wall))
    if R.viol:
        rp=HERE+'/evidence/replay_%s.txt'%pid
        with open(rp,'w') as f:
            for r,nb,cid,m,q in R.viol[:20]:
                f.write('# property %s violated: %s\n# harness %s entry %s params %s defs %s\n# native: %s %s\n# rerun: VP_ERR=1 %s %s <inputs below>\n'%(pid,cid,r.get('h'),r.get('entry'),r.get('params',{}),r.get('defs',()),q.get('status'),q.get('viol'),nb,r.get('entry')))
                for n,v in r.get('params',{}).items(): f.write('param:%s %s\n'%(n,v))
                for n,v in (m or {}).items(): f.write('%s %s\n'%(n,v))
                f.write('---\n')
        for r,nb,cid,m,q in R.viol[:5]: print('  %s: %s with %s -> %s %s'%(r.get('entry'),cid,dict(list((m or {}).items())[:12]),q.get('status'),q.get('viol')[:4]))
        print('VIOLATION property=%s replay=%s'%(pid,rp)); return 1
    return 0
def demangle(l):
    if not l: return []
    try:
        r=run(['c++filt'],30,input='\n'.join(l)).stdout.splitlines(); return [x[:160] for x in r]
    except Exception: return l
COMMON_ASSUME=['clang -O1 bitcode of the current tree represents the source; compiler correct',
 'symbolic double values are exact reals (no rounding, no overflow); concrete double values are IEEE-754 as executed by the host',
 'memory allocation never fails; C/C++ runtime calls behave as modelled in engine/symex.cpp (listed in DESIGN.md)']
if __name__=='__main__':
    signal.signal(signal.SIGTERM,stopall); signal.signal(signal.SIGINT,stopall)
    try: rc=main()
    except Exception as e:
        import traceback; traceback.print_exc(); print('ERROR',e); rc=3
    sys.exit(rc)
