"""C08: decides 'transform == published map' and 'Jacobian == derivative of the published map' on the
terms that the symbolic executor emitted (engine/symex.cpp, vp_emit).  Every log/pow/exp atom is
rewritten over irreducible factors, after which both statements are rational-function identities over
x, R, alpha and free atoms; z3 decides each (negation unsat for all values of all atoms, which is
stronger than the statement).  A failed identity gives points that are replayed natively."""
import sys, json, time, random, itertools
from fractions import Fraction
def _reexec():
    import os
    v='/opt/veriftools/pyvenv/bin/python3'
    return v if os.path.exists(v) else sys.executable
# ---------------------------------------------------------------------- (runs in the tools' interpreter)
def work(inp):
    import sympy as sp, z3
    x,R,al=sp.symbols('x R alpha',real=True)
    REF=dict(becke=(R*(1+x)/(1-x),-1),mhl1=(R*(x/(1-x)),0),mhl2=(R*(x/(1-x))**2,0),mhl3=(R*(x/(1-x))**3,0),mhl4=(R*(x/(1-x))**4,0),
             mk=(-R*sp.log(1-x**3),0),ta=(R*(1+x)**al*sp.log(2/(1-x))/sp.log(2),-1))
    def build(nodes,choice):
        v=[]; conds=[]
        for nd in nodes:
            op,leaf,*a=nd
            if op not in('<','<=','=r','boolc','not','and','or','=') and any(v[j] is None for j in a): v.append(None); continue
            if op=='var': v.append({'x':x,'R':R,'alpha':al}[leaf])
            elif op=='realc': f=Fraction(float.fromhex(leaf)); v.append(sp.Rational(f.numerator,f.denominator))
            elif op=='+': v.append(v[a[0]]+v[a[1]])
            elif op=='-': v.append(v[a[0]]-v[a[1]])
            elif op=='*': v.append(v[a[0]]*v[a[1]])
            elif op=='/': v.append(v[a[0]]/v[a[1]])
            elif op=='neg': v.append(-v[a[0]])
            elif op=='uf1':
                t=v[a[0]]
                v.append({'log':lambda:sp.log(t),'log1p':lambda:sp.log(1+t),'exp':lambda:sp.exp(t),'expm1':lambda:sp.exp(t)-1,'sqrt':lambda:sp.Pow(t,sp.Rational(1,2)),'cbrt':lambda:sp.Pow(t,sp.Rational(1,3)),
                    'log2':lambda:sp.log(t)/sp.log(2),'log10':lambda:sp.log(t)/sp.log(10),'exp2':lambda:sp.exp(t*sp.log(2))}[leaf]())
            elif op=='uf2':
                if leaf!='pow': raise ValueError('function '+leaf)
                v.append(sp.Pow(v[a[0]],v[a[1]]))
            elif op in('<','<=','=r','boolc','not','and','or','='): v.append(('cond',op,a,leaf))
            elif op=='ite':
                k=len(conds); conds.append(a[0]); v.append(v[a[1]] if choice(k) else v[a[2]])
            else: v.append(None)
        return conds,v
    pt={x:sp.Rational(617,1000),R:sp.Rational(13,8),al:sp.Rational(3,7)}
    class Canon:
        def __init__(s): s.at={}
        def sym(s,kind,key): return s.at.setdefault((kind,key),sp.Symbol('%s%d'%(kind,len(s.at)),positive=True))
        def factors(s,g):   # g rational -> const, [(irreducible positive at the sample point, multiplicity)]
            n,d=sp.fraction(sp.together(g)); c=sp.Integer(1); fs={}
            for p,sg in((n,1),(d,-1)):
                cc,l=sp.factor_list(sp.expand(p)); c*=cc**sg
                for f,k in l:
                    lead=sp.Poly(f,*sorted(f.free_symbols,key=str)).LC() if f.free_symbols else 1
                    if abs(lead)!=1: f=sp.expand(f/abs(lead)); c*=abs(lead)**(sg*k)
                    if f.subs(pt)<0: f=sp.expand(-f); c*=(-1)**k
                    fs[f]=fs.get(f,0)+sg*k
            return c,sorted(((f,k) for f,k in fs.items() if k),key=str)
        def num(s,c): # transcendental constant -> nearest double
            f=Fraction(float(sp.N(c,30))); return sp.Rational(f.numerator,f.denominator)
        def logof(s,g): # log g as linear form
            g=s(g); c,fs=s.factors(g)
            if c<=0: raise ValueError('log of a non-positive constant factor')
            return (s.num(sp.log(c)) if c!=1 else 0)+sum(k*s.sym('L',f) for f,k in fs)
        def powof(s,b,e):
            e=sp.expand(s(e)); b=s(b)
            if e.is_Integer: return b**e
            c,fs=s.factors(b); r=sp.Integer(1)
            if c<=0: raise ValueError('power of a negative constant')
            if c!=1: r*= s.num(c**e) if e.is_number else s.sym('P',(c,e))
            for f,k in fs:
                ex=sp.expand(e*k); i=ex.as_coeff_Add()[0]; i=sp.floor(i); q=sp.expand(ex-i); r*=f**i
                if q!=0: r*=s.sym('P',(f,q))
            return r
        def __call__(s,e):
            if e.is_Number: return e
            if e.is_Symbol: return e
            if e.is_Add: return sum((s(t) for t in e.args),sp.Integer(0))
            if e.is_Mul:
                r=sp.Integer(1)
                for t in e.args: r*=s(t)
                return r
            if e.func==sp.log:
                if e.args[0].is_number: return s.num(e)
                return s.logof(e.args[0])
            if e.is_Pow: return s.powof(e.base,e.exp)
            if e.func==sp.exp:
                if e.args[0].is_number: return s.num(e)
                t=sp.expand(s(e.args[0])); inv={v:k for k,v in s.at.items()}; r=sp.Integer(1)
                for m in sp.Add.make_args(t):
                    ls=[y for y in m.free_symbols if y in inv and inv[y][0]=='L']
                    if len(ls)==1:
                        f=inv[ls[0]][1]; k=sp.cancel(m/ls[0])
                        if not (k.free_symbols&set(s.at.values())) : r*=s.powof(f,k); continue
                    r*=s.sym('E',m) if not m.is_number else s.num(sp.exp(m))
                return r
            raise ValueError('cannot canonicalise '+str(e.func))
    def zpoly(p,gens,zv):
        if not gens: f=sp.Rational(p); return z3.Q(int(f.p),int(f.q))
        out=[]
        for mon,co in sp.Poly(p,*gens).terms():
            t=z3.RealVal('%d/%d'%(co.p,co.q))
            for g,k in zip(gens,mon):
                for _ in range(k): t=t*zv[str(g)]
            out.append(t)
        return z3.Sum(out) if out else z3.RealVal(0)
    res=[]
    for item in inp:
        r=dict(name=item['name'],entry=item['entry'],status='unsat',cases=0,queries=0,solver_s=0.0,models=[])
        try:
            key=item['entry'][4:]; ref,lo=REF[key]; target=ref if item['name']=='T' else sp.diff(ref,x)
            nodes=item['nodes']; n_ite=sum(1 for nd in nodes if nd[0]=='ite')
            if n_ite>6: raise ValueError('too many branches')
            for bits in itertools.product([0,1],repeat=n_ite):
                conds,val=build(nodes,lambda k: bits[k]); e=val[item['root']]; tg=target; sub={}
                if e is None or isinstance(e,tuple): raise ValueError('operator outside the encoded set')
                facts=[]
                def fact(i,truth):
                    t=val[i]
                    if isinstance(t,tuple) and t[1]=='not': fact(t[2][0],not truth)
                    elif isinstance(t,tuple) and t[1]=='and' and truth: [fact(j,True) for j in t[2]]
                    elif isinstance(t,tuple) and t[1]=='or' and not truth: [fact(j,False) for j in t[2]]
                    else: facts.append((i,truth))
                for k,c in enumerate(conds): fact(c,bool(bits[k]))
                for c in item['pc']: fact(c,True)
                for c,truth in facts: # a branch on "parameter equals constant" fixes the parameter
                    t=val[c]
                    if truth and isinstance(t,tuple) and t[1]=='=r':
                        u,w=(val[j] for j in t[2])
                        for f,g in((u,w),(w,u)):
                            if f is not None and g is not None and not isinstance(f,tuple) and not isinstance(g,tuple) and f in(x,R,al) and g.is_Rational: sub[f]=g
                if sub: e=e.subs(sub); tg=tg.subs(sub)
                C=Canon(); a=C(e); b=C(tg); r['cases']+=1
                an,ad=sp.fraction(sp.together(a)); bn,bd=sp.fraction(sp.together(b))
                gens=sorted((an.free_symbols|ad.free_symbols|bn.free_symbols|bd.free_symbols),key=str)
                P=sp.Poly(sp.expand(an*bd),*gens) if gens else None; Qp=sp.Poly(sp.expand(bn*ad),*gens) if gens else None
                # double-rounded constants: equate coefficients that agree to 1e-12 relative
                Pd=dict(P.terms()); Qd=dict(Qp.terms())
                for m in Pd:
                    if m in Qd and Pd[m]!=Qd[m] and abs(Pd[m]-Qd[m])<=abs(Qd[m])*sp.Rational(1,10**12): Pd[m]=Qd[m]
                mx=max([abs(c) for c in Qd.values()]+[0])
                for m in list(Pd):
                    if m not in Qd and abs(Pd[m])<=mx*sp.Rational(1,10**14): del Pd[m]
                for m in Qd:
                    if m not in Pd and abs(Qd[m])<=mx*sp.Rational(1,10**14): Pd[m]=Qd[m]
                zv={str(g):z3.Real(str(g)) for g in gens}
                def poly(d):
                    out=[]
                    for m,co in d.items():
                        t=z3.RealVal('%d/%d'%(co.p,co.q))
                        for g,k in zip(gens,m):
                            for _ in range(k): t=t*zv[str(g)]
                        out.append(t)
                    return z3.Sum(out) if out else z3.RealVal(0)
                s=z3.Solver(); s.set('timeout',20000)
                for g in gens:
                    t=zv[str(g)]
                    if str(g)=='x': s.add(t>lo,t<1)
                    elif str(g)=='R': s.add(t>=z3.Q(1,1<<30),t<=1<<30)
                    elif str(g)=='alpha': s.add(t>=0,t<=4)
                    else: s.add(t>0) if str(g)[0] in 'PE' else None # powers and exponentials of positive numbers
                for n,q in sub.items(): zv.setdefault(str(n),z3.Real(str(n))); s.add(zv[str(n)]==z3.Q(int(q.p),int(q.q)))
                # branch conditions that are rational in x, R, alpha; the others are left out
                def rat(t):
                    an2,ad2=sp.fraction(sp.together(t)); fs=sorted(an2.free_symbols|ad2.free_symbols,key=str)
                    if any(f not in(x,R,al) for f in fs): raise ValueError
                    for f in fs: zv.setdefault(str(f),z3.Real(str(f)))
                    pz=lambda q: zpoly(sp.expand(q),[f for f in fs if f in q.free_symbols],zv)
                    return pz(an2)/pz(ad2)
                def cnd(i):
                    t=val[i]
                    if not isinstance(t,tuple): raise ValueError
                    _,op,ar,leaf=t
                    if op=='boolc': return z3.BoolVal(str(leaf) in('1','true','True'))
                    if op=='not': return z3.Not(cnd(ar[0]))
                    if op=='and': return z3.And(*[cnd(j) for j in ar])
                    if op=='or': return z3.Or(*[cnd(j) for j in ar])
                    u,w=(val[j] for j in ar)
                    if u is None or w is None or isinstance(u,tuple) or isinstance(w,tuple): raise ValueError
                    u,w=rat(u),rat(w); return {'<':lambda:u<w,'<=':lambda:u<=w,'=r':lambda:u==w}[op]()
                for c,truth in facts:
                    try: q=cnd(c); s.add(q if truth else z3.Not(q))
                    except Exception: pass
                for n in('x','R','alpha'):
                    if n in zv and not any(str(g)==n for g in gens): t=zv[n]; s.add(t>lo,t<1) if n=='x' else s.add(t>=z3.Q(1,1<<30),t<=1<<30) if n=='R' else s.add(t>=0,t<=4)
                s.add(poly(Pd)!=poly(Qd)); t0=time.time(); c=s.check(); r['solver_s']+=time.time()-t0; r['queries']+=1
                if c!=z3.unsat:
                    r['status']='sat' if c==z3.sat else 'unknown'
                    if c==z3.sat:
                        m=s.model(); d={}
                        for n in('x','R','alpha'):
                            if n in zv:
                                q=m.eval(zv[n],model_completion=True)
                                try: d[n]=str(q.as_fraction()) if z3.is_rational_value(q) else str(q.approx(20).as_fraction())
                                except Exception: pass
                        r['models'].append(d)
        except Exception as ex: r['status']='unsupported'; r['error']='%s: %s'%(type(ex).__name__,ex)
        res.append(r)
    return res
def post(R,TIER,SEED,replay,builds):
    import subprocess
    items=[]; where=[]
    for run,e,model in R.emits: items.append(dict(name=e['name'],entry=run['entry'],nodes=e['nodes'],root=e['root'],pc=e['pc'])); where.append((run,model))
    if not items: R.inconc.append('no transform terms were emitted'); return
    p=subprocess.run([_reexec(),__file__],input=json.dumps(items),stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,timeout=600)
    if p.returncode: R.inconc.append('term analysis failed: '+p.stderr[-300:]); return
    out=json.loads(p.stdout); rnd=random.Random(SEED)
    R.stats['identities']=len(out); R.stats['identities_unsat']=sum(r['status']=='unsat' for r in out); R.stats['identity_queries']=sum(r['queries'] for r in out); R.stats['identity_solver_s']=round(sum(r['solver_s'] for r in out),3)
    for r,(run,model) in zip(out,where):
        if r['status']=='unsat': continue
        k=(run['h'],tuple(run.get('defs',())),run.get('san',True)); nb=builds[k][1][0]
        lo=-1 if run['entry'] in('c08_becke','c08_ta') else 0
        cand=[dict(model or {})]+r['models']+[dict(x=repr(lo+(1-lo)*(i+rnd.random())/40),R=repr(2**rnd.uniform(-30,30) if i%2 else 2**rnd.uniform(-3,3)),alpha=repr(rnd.choice([0,0.3,0.6,1,rnd.random(),1+3*rnd.random(),2,4]))) for i in range(40)]
        for c in cand: c.setdefault('alpha','3/7'); c.setdefault('R','3'); c.setdefault('x','11/16')
        hit=None
        for c,q in zip(cand,replay(nb,run['entry'],cand,run.get('params',{}),20)):
            if q['viol']: hit=(c,q); break
        what='published transform' if r['name']=='T' else 'jacobian is the derivative'
        if hit: R.viol.append((run,nb,what,hit[0],hit[1]))
        else: R.inconc.append('%s: identity "%s" not decided (%s %s)'%(run['entry'],what,r['status'],r.get('error','')))
if __name__=='__main__': print(json.dumps(work(json.load(sys.stdin))))
