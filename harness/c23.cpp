// C23: rules are values.  Every history of copies, moves, base-class copies and edits leaves every object with
// exactly the content it should have
#include "fac.h"
#include <integratorxx/quadratures/all.hpp>
#include <integratorxx/composite_quadratures/sub_quadrature.hpp>
#include "sph.h"
using namespace vpq;
static void put(std::vector<double>& o,double x){ o.push_back(x); }
static void put(std::vector<double>& o,const P3& x){ for(double v:x) o.push_back(v); }
template<class Q> static std::vector<double> flat(const Q& q){ std::vector<double> o; for(auto&x:q.points()) put(o,x); for(auto&w:q.weights()) put(o,w); return o; }
static void setc(double& p,double v){ p=v; }
static void setc(P3& p,double v){ p[1]=v; }
template<class Q> static void hold(const Q& q,const std::vector<double>& f,size_t n,const char* id){ bool ok=q.npts()==n&&q.points().size()==n&&q.weights().size()==n; vp_assert(ok,"number of elements"); if(!ok) return; auto g=flat(q); for(size_t i=0;i<f.size();i++) vp_same(g[i],f[i],id); if(n){ vp_same(q.weights_data()[n-1],f[f.size()-1],id); } }
// an object is either the rule itself or a copy of its base class
template<class D> struct Obj { std::unique_ptr<D> d; std::unique_ptr<Quadrature<D>> b; std::vector<double> want; };
static const char* PATTERN[]={"000000000000000000000000","111111111111111111111111","050505051515151505050505","444444444444444444444444","060606561616165606065606","250505050404040406161616","140514051405140514051405"};
template<class D> static void history(D&& q0,int64_t steps){ int64_t pat=vp_param("LONG",0)?vp_pin(vp_int("pattern",0,6)):-1; typedef Quadrature<std::decay_t<D>> B; typedef std::decay_t<D> R; size_t n=q0.npts(); std::vector<double> f=flat(q0);
  std::vector<Obj<R>> os; os.reserve(steps+2); { Obj<R> o; o.d=std::make_unique<R>(q0); o.want=f; os.push_back(std::move(o)); }
  for(int64_t s=0;s<steps;s++){ int64_t op=pat<0?vp_pin(vp_int(nm("op",s),0,6)):PATTERN[pat][s%24]-'0'; Obj<R>& o=os.back(); Obj<R> t; t.want=o.want;
    if(op==0){ if(o.d) t.d=std::make_unique<R>(*o.d); else t.b=std::make_unique<B>(static_cast<const B&>(*o.b)); os.push_back(std::move(t)); vp_reach("copied"); }            // copy
    else if(op==1){ if(o.d){ auto u=std::make_unique<R>(std::move(*o.d)); o.d=std::move(u); } else { auto u=std::make_unique<B>(std::move(*o.b)); o.b=std::move(u); } vp_reach("moved"); } // move
    else if(op==2){ if(!o.d) return; t.b=std::make_unique<B>(static_cast<const R&>(*o.d)); os.push_back(std::move(t)); vp_reach("sliced"); }                                  // copy into the base
    else if(op==3){ if(!o.d) return; auto u=std::make_unique<B>(std::move(*o.d)); o.d.reset(); o.b=std::move(u); }                                                             // move into the base
    else if(op==4){ std::vector<B> v; if(o.d) v.emplace_back(*o.d); else v.emplace_back(static_cast<const B&>(*o.b)); for(int k=0;k<3;k++) v.emplace_back(v[0]); t.b=std::make_unique<B>(std::move(v[3])); for(int k=0;k<3;k++) hold(v[k],o.want,n,"stored copies"); os.push_back(std::move(t)); } // container growth
    else if(op==5&&n){ double x=vp_real(nm("x",s),-8,8),y=vp_real(nm("y",s),-8,8); size_t d=o.want.size()/n; if(o.d){ setc(o.d->points()[n-1],x); o.d->weights()[0]=y; } else { setc(o.b->points()[n-1],x); o.b->weights()[0]=y; } o.want[(n-1)*(d-1)+(d>2?1:0)]=x; o.want[n*(d-1)]=y; vp_reach("edited"); }
    else if(op==6&&n){ double x=vp_real(nm("x",s),-8,8),y=vp_real(nm("y",s),-8,8); size_t d=o.want.size()/n; if(o.d){ setc(o.d->points_data()[0],x); o.d->weights_data()[n-1]=y; } else { setc(o.b->points_data()[0],x); o.b->weights_data()[n-1]=y; } o.want[d>2?1:0]=x; o.want[n*(d-1)+n-1]=y; }
    // after each step every object so far holds its own content
    for(auto&z:os){ if(z.d) hold(*z.d,z.want,n,"content"); if(z.b) hold(*z.b,z.want,n,"content"); } }
  hold(q0,f,n,"source unchanged"); }
static int64_t STEPS(){ return vp_param("STEPS",3); }
extern "C" void c23_line(){ int64_t n=vp_pin(vp_int("n",0,vp_param("N",3))); history(Rad(reals("p",n,-8,8),reals("w",n,-8,8)),STEPS()); }
extern "C" void c23_space(){ int64_t n=vp_pin(vp_int("n",0,vp_param("N",3))); history(Ang(reals3("p",n,-8,8),reals("w",n,-8,8)),STEPS()); }
extern "C" void c23_sub(){ int64_t n=vp_pin(vp_int("n",1,3)); auto p=reals("p",n+2,-8,8),w=reals("w",n+2,-8,8); Rad q(p,w); history(SubQuadrature<Rad>(std::pair<size_t,size_t>(1,n+1),q),STEPS()); }
extern "C" void c23_large(){ int64_t k=vp_pin(vp_int("k",0,2)),n=k==0?65: k==1?257: 1025; bool t=vp_pin(vp_int("three",0,1)); if(t) history(Ang(reals3("p",n,-8,8),reals("w",n,-8,8)),2); else history(Rad(reals("p",n,-8,8),reals("w",n,-8,8)),2); }
// the rules of the library
extern "C" void c23_rules(){ int64_t k=vp_pin(vp_int("rule",0,6)); size_t n=vp_pin(vp_int("n",0,2)); n= n==0?2: n==1?7: 40; int64_t s=vp_param("STEPS",2); double lo=vp_real("lo",-4,0),up=vp_real("up",1,4);
  if(k==0) history(GaussLegendre<double,double>(n),s); if(k==1) history(GaussLobatto<double,double>(n),s); if(k==2) history(GaussChebyshev1<double,double>(n),s); if(k==3) history(GaussChebyshev2<double,double>(n),s); if(k==4) history(GaussChebyshev2Modified<double,double>(n),s); if(k==5) history(GaussChebyshev3<double,double>(n),s); if(k==6) history(UniformTrapezoid<double,double>(n,lo,up),s); }
extern "C" void c23_radial(){ int64_t k=vp_pin(vp_int("rule",0,3)); size_t n=vp_pin(vp_int("n",1,4)); double R=vp_real("R",0.125,8); int64_t s=vp_param("STEPS",2); if(k==0) history(BK(n,R),s); if(k==1) history(MH(n,R),s); if(k==2) history(MK(n,R),s); if(k==3) history(TA(n,R),s); }
extern "C" void c23_angular(){ int64_t k=vp_pin(vp_int("rule",0,3)); bool b=vp_pin(vp_int("big",0,1)); int64_t s=vp_param("STEPS",2); if(k==0) history(LL(b?302:6),s); if(k==1) history(DE(b?302:26),s); if(k==2) history(AB(b?312:72),s); if(k==3) history(WO(b?314:6),s); }
// whole grids as values of their rule type
extern "C" void c23_grids(){ int64_t k=vp_pin(vp_int("kind",0,1)); P3 c=real3("c",-4,4); auto r=reals("r",2,-4,4),wr=reals("wr",2,-4,4),wa=reals("wa",2,-4,4),wb=reals("wb",1,-4,4); auto a=reals3("a",2,-2,2),b=reals3("b",1,-2,2); Rad rq(r,wr); Ang aq(a,wa),bq(b,wb); if(k==0) history(SQ(rq,aq,c),vp_param("STEPS",2)); else { RGP g(rq,0,aq,1,bq); history(PQ(rq,g,c),vp_param("STEPS",2)); } }
// the same at sizes where an implementation may change its ways
extern "C" void c23_big(){ int64_t k=vp_pin(vp_int("rule",0,14)),b=vp_pin(vp_int("size",0,1)); size_t n=b?130:68; int64_t s=vp_param("STEPS",1); typedef double D;
  switch(k){ case 0: history(GaussLegendre<D,D>(n),s); break; case 1: history(GaussLobatto<D,D>(n),s); break; case 2: history(GaussChebyshev1<D,D>(n),s); break; case 3: history(GaussChebyshev2<D,D>(n),s); break; case 4: history(GaussChebyshev2Modified<D,D>(n),s); break; case 5: history(GaussChebyshev3<D,D>(n),s); break; case 6: history(UniformTrapezoid<D,D>(n,0,2),s); break;
    case 7: history(BK(n,1.5),s); break; case 8: history(MH(n,1.5),s); break; case 9: history(MK(n,1.5),s); break; case 10: history(TA(n,1.5,0.6),s); break; case 11: history(LL(b?974:110),s); break; case 12: history(DE(b?974:110),s); break; case 13: history(AB(b?972:132),s); break; default: history(WO(b?1014:114),s); } vp_reach("big"); }
extern "C" void c23_biggrid(){ int64_t k=vp_pin(vp_int("kind",0,1)),b=vp_pin(vp_int("size",0,1)); MK m(b?40:6,1.0); LL a(b?50:14),c(6); P3 o{1,2,3}; int64_t s=vp_param("STEPS",1); if(k==0) history(SphericalQuadrature<MK,LL>(m,a,o),s); else { RadialGridPartition<LL> g(m,0,c,2,a); history(PrunedSphericalQuadrature<MK,LL>(m,g,o),s); } vp_reach("big"); }
