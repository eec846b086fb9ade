// C12: moving, cloning and copying grids; every history of STEPS operations, all real contents and centres
#include "sph.h"
using namespace vpq;
// coordinates of any magnitude: radii and centres are multiplied by a power of two, results divided by it
static double scale(){ static const int E[]={-300,-100,-50,-37,-30,-20,20,37,50,100,300}; return vp_param("SC",0)? std::ldexp(1.0,E[vp_pin(vp_int("scale",0,10))]): 1.0; }
static P3 mul(P3 a,double s){ for(auto&v:a) v*=s; return a; }
struct Ref { std::vector<P3> p0; std::vector<double> w; double sc; };
template<class Q> static void hold(const Q& q,const Ref& f,const P3& c){ auto z=q.center(); for(int k=0;k<3;k++) vp_eq(z[k]/f.sc,c[k]/f.sc,"reported centre"); vp_assert(q.npts()==f.w.size()&&q.points().size()==f.w.size()&&q.weights().size()==f.w.size(),"number of points"); if(q.points().size()!=f.w.size()||q.weights().size()!=f.w.size()) return;
  for(size_t i=0;i<f.w.size();i++){ for(int k=0;k<3;k++) vp_eq(q.points()[i][k]/f.sc,(f.p0[i][k]+c[k])/f.sc,"points are the origin grid plus the centre"); vp_eq(q.weights()[i],f.w[i],"weights unchanged"); } }
// long histories follow a fixed pattern of operations
static const char* PATTERN[]={"000000000000000000000000","111111110000000011110000","030303030303030303030303","222222222222222222222222","333333333333333333333333","024130241302413024130241","040404012012012031313131"};
static int64_t nextop(int64_t s,int64_t pat){ return pat<0? vp_pin(vp_int(nm("op",s),0,4)): PATTERN[pat][s%24]-'0'; }
static P3 target(int64_t s,int64_t pat){ P3 n; for(int k=0;k<3;k++) n[k]=pat>=0&&!k? (s%7==3?0.0:0.5*s-3): vp_real(nm("n",s,k),-4,4); return n; }
template<class Q> static void history(const Q& q0,const Q& o0,const P3& c0,double sc=1){ Ref f; f.sc=sc; for(auto&p:o0.points()) f.p0.push_back(p); for(auto w:o0.weights()) f.w.push_back(w);
  struct H { std::unique_ptr<Q> q; std::shared_ptr<SB> b; P3 c; }; std::vector<H> hs; hs.push_back(H{std::make_unique<Q>(q0),nullptr,c0}); int64_t steps=vp_param("STEPS",2),pat=vp_param("LONG",0)?vp_pin(vp_int("pattern",0,6)):-1;
  for(int64_t s=0;s<steps;s++){ int64_t op=nextop(s,pat); H& h=hs.back();
    if(op==0){ P3 n=mul(target(s,pat),f.sc); if(h.q) h.q->recenter(n); else h.b->recenter(n); h.c=n; vp_reach("moved"); }
    else if(op==1){ P3 n=mul(target(s,pat),f.sc); SB& b= h.q? static_cast<SB&>(*h.q): *h.b; b.recenter(n); h.c=n; }
    else if(op==2){ if(!h.q) continue; H g{std::make_unique<Q>(*h.q),nullptr,h.c}; hs.push_back(std::move(g)); vp_reach("copied"); }
    else if(op==3){ const SB& b= h.q? static_cast<const SB&>(*h.q): *h.b; H g{nullptr,b.clone(),h.c}; vp_assert(g.b.get()!=&b,"clone is a new object"); hs.push_back(std::move(g)); vp_reach("cloned"); }
    else { if(!h.q) continue; auto t=std::make_unique<Q>(std::move(*h.q)); h.q=std::move(t); } }
  for(auto&h:hs){ if(h.q){ hold(*h.q,f,h.c); hold(static_cast<const SB&>(*h.q),f,h.c); } else hold(*h.b,f,h.c); } hold(q0,f,c0);
  // editing the newest object leaves the others alone
  H& e=hs.back(); if(e.q){ e.q->points()[0][1]+=1; e.q->weights()[0]+=1; } else { e.b->points()[0][1]+=1; e.b->weights()[0]+=1; }
  for(size_t i=0;i+1<hs.size();i++){ auto&h=hs[i]; if(h.q) hold(*h.q,f,h.c); else hold(*h.b,f,h.c); } hold(q0,f,c0); }
struct In { Rad rq; Ang aq,bq; };
static In in(double sc){ int64_t nr=2,na=vp_param("NA",1); auto r=reals("r",nr,-4,4); for(auto&v:r) v*=sc; auto wr=reals("wr",nr,-4,4),wa=reals("wa",na,-4,4); auto a=reals3("a",na,-2,2); auto b=reals3("b",1,-2,2); auto wb=reals("wb",1,-4,4); return In{Rad(r,wr),Ang(a,wa),Ang(b,wb)}; }
extern "C" void c12_unpruned(){ double sc=scale(); In i=in(sc); P3 c=mul(real3("c",-4,4),sc); history(SQ(i.rq,i.aq,c),SQ(i.rq,i.aq),c,sc); }
extern "C" void c12_pruned(){ double sc=scale(); In i=in(sc); P3 c=mul(real3("c",-4,4),sc); RGP g(i.rq,0,i.aq,1,i.bq); history(PQ(i.rq,g,c),PQ(i.rq,g),c,sc); }
// the same histories on larger grids
static In inbig(int64_t nr,int64_t na,int64_t nb){ auto r=reals("r",nr,-4,4),wr=reals("wr",nr,-4,4),wa=reals("wa",na,-4,4); auto a=reals3("a",na,-2,2); auto b=reals3("b",nb,-2,2); auto wb=reals("wb",nb,-4,4); return In{Rad(r,wr),Ang(a,wa),Ang(b,wb)}; }
extern "C" void c12_unpruned_large(){ int64_t k=vp_pin(vp_int("shape",0,2)); In i=k==0? inbig(70,1,1): k==1? inbig(1,130,1): inbig(17,31,1); P3 c=real3("c",-4,4); history(SQ(i.rq,i.aq,c),SQ(i.rq,i.aq),c); }
extern "C" void c12_pruned_large(){ int64_t k=vp_pin(vp_int("shape",0,1)); In i=k==0? inbig(66,1,2): inbig(9,33,20); P3 c=real3("c",-4,4); RGP g(i.rq,0,i.aq,k?2:64,i.bq); history(PQ(i.rq,g,c),PQ(i.rq,g),c); }
