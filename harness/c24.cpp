// C24: results do not depend on what was done before
#include "ops.h"
using namespace vpq;
static Out* area(){ Out* o=(Out*)vp_shared(sizeof(Out)); o->n=0; return o; }
static void same(const Out* got,const Out* want,const char* id){ vp_assert(got->n==want->n,id); if(got->n==want->n) for(uint64_t i=0;i<want->n;i++) vp_same(got->v[i],want->v[i],id); }
static void fresh(int64_t k,int64_t v,const In& i,Out* o){ if(vp_fresh_begin()){ op(k,v,i,o); vp_fresh_end(); } }
static void check(int64_t ka,int64_t va,int64_t kb,int64_t vb,bool bad){ In a=input("A"),b=input("B"); Out*A=area(),*B=area(),*X=area(); fresh(ka,va,a,A); fresh(kb,vb,b,B);
  op(ka,va,a,X); same(X,A,"first result"); if(bad){ refused(ka); vp_reach("refused"); } op(kb,vb,b,X); same(X,B,"result after another operation"); op(ka,va,a,X); same(X,A,"the same request again"); vp_reach("history"); }
// two requests of the same kind, every combination of variants, with and without a refused request between them
extern "C" void c24_same(){ int64_t k=vp_pin(vp_int("kind",0,KINDS-1)),V=vp_param("V",3)-1,a=vp_pin(vp_int("va",0,V)),b=vp_pin(vp_int("vb",0,V)); bool bad=vp_pin(vp_int("refused",0,1)); check(k,a,k,b,bad); }
// requests of different kinds
extern "C" void c24_cross(){ int64_t ka=vp_pin(vp_int("ka",0,KINDS-1)),kb=vp_pin(vp_int("kb",0,KINDS-1)); vp_assume(ka!=kb); int64_t V=vp_param("V",1)-1,a=vp_pin(vp_int("va",0,V)),b=vp_pin(vp_int("vb",0,V)); check(ka,a,kb,b,false); }
// three requests of one kind, then the first two again
extern "C" void c24_three(){ int64_t k=vp_pin(vp_int("kind",0,KINDS-1)),V=vp_param("V",3)-1,v[3]; v[0]=vp_pin(vp_int("va",0,V)); v[1]=vp_pin(vp_int("vb",0,V)); v[2]=vp_pin(vp_int("vc",0,V)); In in[3]={input("A"),input("B"),input("C")}; Out* W[3],*X=area(); for(int j=0;j<3;j++){ W[j]=area(); fresh(k,v[j],in[j],W[j]); }
  for(int j=0;j<5;j++){ op(k,v[j%3],in[j%3],X); same(X,W[j%3],j<3?"result":"the same request again"); } vp_reach("history"); }
// lookups with arbitrary arguments: one function of one family twice, then the first question again
template<class T> static int64_t look(int64_t f,int64_t x){ typedef quadrature_traits<T> X; return f==0?X::next_algebraic_order(x): f==1?X::npts_by_algebraic_order(x): X::algebraic_order_by_npts(x); }
static int64_t look(int64_t fam,int64_t f,int64_t x){ return fam==0?look<LL>(f,x): fam==1?look<DE>(f,x): fam==2?look<AB>(f,x): look<WO>(f,x); }
extern "C" void c24_lookup(){ int64_t fam=vp_pin(vp_int("family",0,3)),f=vp_pin(vp_int("f",0,2)); int64_t H=vp_param("HI",60)*(f==2?8:1),x=vp_int("x",-4,H),y=vp_int("y",-4,H); int64_t *A=(int64_t*)vp_shared(8),*B=(int64_t*)vp_shared(8); if(vp_fresh_begin()){ *A=look(fam,f,x); vp_fresh_end(); } if(vp_fresh_begin()){ *B=look(fam,f,y); vp_fresh_end(); }
  int64_t a=look(fam,f,x),b=look(fam,f,y),c=look(fam,f,x); vp_assert(a==*A,"first answer"); vp_assert(b==*B,"second answer"); vp_assert(c==*A,"first answer again"); vp_reach("history"); }
// batchers: every pair of limits, the same or another grid
static void batch(int64_t g,uint64_t lim,Out* o){ o->n=0; SphericalQuadrature<MK,LL> q(MK(g==0?1: g==1?3: 6,1.0),LL(g==0?14: g==1?6: 50)); auto b=make_batcher(lim,q); o->put(b.nbatches()); for(size_t i=0;i<b.nbatches();i++){ auto t=b.at(i); o->put(std::get<2>(t).size()); o->put(std::get<0>(t)); } for(size_t i=0;i<b.npts()&&i<400;i++){ o->put(b.points()[i]); o->put(b.weights()[i]); } }
extern "C" void c24_batch(){ int64_t ga=vp_pin(vp_int("ga",0,2)),gb=vp_pin(vp_int("gb",0,2)); uint64_t la=vp_int("la",1,14),lb=vp_int("lb",1,14); if(ga==2||gb==2) vp_assume((la==1||la==2||la==5||la==9)&&(lb==1||lb==3||lb==8||lb==14)); else if(!vp_param("FULL",0)) vp_assume(la<=3||la==6||la==7||la==12); la=vp_pin(la); lb=vp_pin(lb); Out*B=area(),*X=area(),*Y=area(); if(vp_fresh_begin()){ batch(gb,lb,B); vp_fresh_end(); } batch(ga,la,X); batch(gb,lb,Y); same(Y,B,"batches after another batching"); vp_reach("history"); }
// sizes: pairs that agree in their low digits, neighbours, multiples
extern "C" void c24_size(){ int64_t k=vp_pin(vp_int("kind",0,10)),n=vp_pin(vp_int("n",2,vp_param("N",6))),d=vp_pin(vp_int("d",0,k<2?9:17)); int64_t m=d?n+(1<<(d-1)):2*n; bool up=vp_pin(vp_int("up",0,1)); if(!up) std::swap(n,m); double R=vp_real("R",0.125,8),S=vp_real("S",0.125,8),al=k==10?vp_real("al",0,2):0.5,be=k==10?vp_real("be",0,2):0.25; Out*B=area(),*X=area(); typedef double D;
  auto go=[&](size_t n,double R,double al,Out* o){ o->n=0; switch(k){ case 0: rec(GaussLegendre<D,D>(n),o); break; case 1: rec(GaussLobatto<D,D>(n),o); break; case 2: rec(GaussChebyshev1<D,D>(n),o); break; case 3: rec(GaussChebyshev2<D,D>(n),o); break; case 4: rec(GaussChebyshev2Modified<D,D>(n),o); break; case 5: rec(GaussChebyshev3<D,D>(n),o); break; case 6: rec(UniformTrapezoid<D,D>(n,0,R),o); break; case 7: rec(BK(n,R),o); break; case 8: rec(MH(n,R),o); break; case 9: rec(MK(n,R),o); break; default: rec(TA(n,R,al),o); } };
  if(vp_fresh_begin()){ go(m,S,be,B); vp_fresh_end(); } go(n,R,al,X); go(m,S,be,X); same(X,B,"result after another size"); vp_reach("history"); }
// angular rules of one family: every pair of sizes up to a bound
extern "C" void c24_angular(){ int64_t k=vp_pin(vp_int("family",0,3)),H=vp_param("HI",320); int64_t a=vp_int("a",1,H),b=vp_int("b",1,H); vp_assume(look(k,2,a)>0); a=vp_pin(a); vp_assume(look(k,2,b)>0); b=vp_pin(b); Out*B=area(),*X=area(); auto go=[&](int64_t n,Out* o){ o->n=0; if(k==0) rec(LL(n),o); if(k==1) rec(DE(n),o); if(k==2) rec(AB(n),o); if(k==3) rec(WO(n),o); }; if(vp_fresh_begin()){ go(b,B); vp_fresh_end(); } go(a,X); go(b,X); same(X,B,"rule after another size"); vp_reach("history"); }
// many different requests of one kind, then all of them again in two orders
extern "C" void c24_many(){ int64_t k=vp_pin(vp_int("kind",0,20)),N=vp_param("N",24); double R=vp_real("R",0.125,8); std::vector<int64_t> sz; if(k>=11&&k<15){ for(int64_t o=-1;(int64_t)sz.size()<N;){ int64_t nx=look(k-11,0,o+1); if(nx<=o) break; o=nx; int64_t n=look(k-11,1,o); if(n>700) break; sz.push_back(n); } } else for(int64_t i=0;i<N;i++) sz.push_back(i+2); int64_t M=sz.size(); typedef double D;
  auto go=[&](int64_t i,Out* o){ o->n=0; size_t n=sz[i]; if(k<7){ if(k==0) rec(GaussLegendre<D,D>(n),o); if(k==1) rec(GaussLobatto<D,D>(n),o); if(k==2) rec(GaussChebyshev1<D,D>(n),o); if(k==3) rec(GaussChebyshev2<D,D>(n),o); if(k==4) rec(GaussChebyshev2Modified<D,D>(n),o); if(k==5) rec(GaussChebyshev3<D,D>(n),o); if(k==6) rec(UniformTrapezoid<D,D>(n,0,R),o); } else if(k<11){ double S=i%3?1+0.125*double(i):R; size_t m=i%2?4:n; if(k==7) rec(BK(m,S),o); if(k==8) rec(MH(m,S),o); if(k==9) rec(MK(m,S),o); if(k==10) rec(TA(m,S,0.0625*double(i%8)),o); } else if(k<15){ if(k==11) rec(LL(n),o); if(k==12) rec(DE(n),o); if(k==13) rec(AB(n),o); if(k==14) rec(WO(n),o); }
    else if(k==15){ batch(1,n-1,o); } else if(k<20){ o->put(look(k-16,0,i)); o->put(look(k-16,1,i)); o->put(look(k-16,2,2*i)); } else { auto u=create_pruned_spec(i%2?PruningScheme::Robust:PruningScheme::Treutler,UnprunedSphericalGridSpecification(RQ[i%4],*traits(i%4,n,1+0.5*double(i%5),0.5),AQ[i/2%4],ASZ[i/2%4][1+i%3])); for(auto&r:u.pruning_regions){ o->put(r.idx_st); o->put(r.idx_en); o->put(r.angular_size); } auto g=SphericalGridFactory::generate_grid(u); o->put(g->npts()); for(size_t j=0;j<g->npts()&&j<200;j++){ o->put(g->points()[g->npts()-1-j]); o->put(g->weights()[g->npts()-1-j]); } } };
  std::vector<Out*> W; for(int64_t i=0;i<M;i++){ W.push_back(area()); if(vp_fresh_begin()){ go(i,W[i]); vp_fresh_end(); } } Out* X=area(); for(int64_t i=0;i<M;i++){ go(i,X); same(X,W[i],"result"); } for(int64_t i=0;i<M;i++){ go(i,X); same(X,W[i],"the same request again"); } for(int64_t i=M-1;i>=0;i--){ go(i,X); same(X,W[i],"the same request again"); } vp_reach("history"); }
// one request many times
extern "C" void c24_repeat(){ int64_t k=vp_pin(vp_int("kind",0,KINDS-1)),v=k<K_UNP&&k>=K_ANG?0:vp_pin(vp_int("v",0,1)); In a=input("A"); Out*A=area(),*X=area(); fresh(k,v,a,A); keeping=false; for(int64_t i=0;i<vp_param("N",40);i++){ op(k,v,a,X); same(X,A,"the same request again"); } vp_reach("history"); }
