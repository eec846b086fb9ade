// C25: concurrent use.  Two threads making results, or using shared objects through const access, do not race.
// The two activities run from the same state and every pair of accesses to shared memory is compared.
#include "ops.h"
#include <integratorxx/composite_quadratures/sub_quadrature.hpp>
#include <integratorxx/composite_quadratures/product_quadrature.hpp>
using namespace vpq;
static void both(int64_t ka,int64_t va,int64_t kb,int64_t vb){ keeping=false; In a=input("A"),b=input("B"); static Out o[2]; vp_concurrently([&]{ op(ka,va,a,&o[0]); },[&]{ op(kb,vb,b,&o[1]); }); vp_reach("pair"); }
extern "C" void c25_same(){ int64_t k=vp_pin(vp_int("kind",0,KINDS-1)),V=vp_param("V",2)-1,a=vp_pin(vp_int("va",0,V)),b=vp_pin(vp_int("vb",a,V)); both(k,a,k,b); }
extern "C" void c25_cross(){ int64_t ka=vp_pin(vp_int("ka",0,KINDS-2)),kb=vp_pin(vp_int("kb",ka+1,KINDS-1)); int64_t V=vp_param("V",1)-1,a=vp_pin(vp_int("va",0,V)),b=vp_pin(vp_int("vb",0,V)); both(ka,a,kb,b); }
// a thread that is refused while the other one works
extern "C" void c25_refused(){ int64_t k=vp_pin(vp_int("kind",0,KINDS-1)); bool two=vp_pin(vp_int("two",0,1)); keeping=false; In a=input("A"); static Out o; vp_concurrently([&]{ refused(k); },[&]{ if(two) refused(k); else op(k,0,a,&o); }); vp_reach("pair"); }
// const use of one object by two threads: threads use it in ways u and v
static double val(double x){ return x; } static double val(const P3& p){ return p[0]+p[1]+p[2]; }
static double sum(const SB& q){ double s=q.npts(); for(auto&p:q.points()) s+=val(p); for(auto w:q.weights()) s+=w; return s; }
template<class Q> static double sum(const Q& q0){ const QuadratureBase<std::decay_t<decltype(q0.points())>,std::decay_t<decltype(q0.weights())>>& q=q0; double s=q0.npts(); for(auto&p:q0.points()) s+=val(p); for(auto w:q0.weights()) s+=w; for(auto&p:q.points()) s+=val(p); for(size_t i=0;i<q.weights().size();i++) s+=q.weights()[i]+q.weights(i)+q.weights_data()[i]+val(q.points_data()[i])+val(q.points(i)); return s; }
template<class Q> static void use(const Q& q,int64_t u,double* out){ if(u==0) *out=sum(q); if(u==1){ Q c(q); *out=sum(c); c.weights()[0]=3; } if(u==2){ SubQuadrature<Q> s(std::pair<size_t,size_t>(0,1),q); *out=sum(s); } if(u==3){ const auto& b=static_cast<const QuadratureBase<typename Q::point_container,typename Q::weight_container>&>(q); *out=sum(b); try{ *out+=b.weights(99999); }catch(const std::exception&){} } }
template<class Q> static void shared(const Q& q,int64_t u,int64_t v){ static double o[2]; vp_concurrently([&]{ use(q,u,&o[0]); },[&]{ use(q,v,&o[1]); }); vp_reach("shared"); }
struct Ways { int64_t u,v; }; static Ways ways(int64_t hi){ Ways w; w.u=vp_pin(vp_int("u",0,hi)); w.v=vp_pin(vp_int("v",w.u,hi)); return w; }
extern "C" void c25_rule(){ keeping=false; typedef double D; int64_t k=vp_pin(vp_int("k",0,14)),n=vp_pin(vp_int("big",0,1))?40:3; Ways w=ways(3); double R=vp_real("R",0.125,8);
  if(k==0) shared(GaussLegendre<D,D>(n),w.u,w.v); if(k==1) shared(GaussLobatto<D,D>(n),w.u,w.v); if(k==2) shared(GaussChebyshev1<D,D>(n),w.u,w.v); if(k==3) shared(GaussChebyshev2<D,D>(n),w.u,w.v); if(k==4) shared(GaussChebyshev2Modified<D,D>(n),w.u,w.v); if(k==5) shared(GaussChebyshev3<D,D>(n),w.u,w.v); if(k==6) shared(UniformTrapezoid<D,D>(n,0,R),w.u,w.v);
  if(k==7) shared(BK(n,R),w.u,w.v); if(k==8) shared(MH(n,R),w.u,w.v); if(k==9) shared(MK(n,R),w.u,w.v); if(k==10) shared(TA(n,R),w.u,w.v); bool b=n>3; if(k==11) shared(LL(b?110:6),w.u,w.v); if(k==12) shared(DE(b?110:14),w.u,w.v); if(k==13) shared(AB(b?132:72),w.u,w.v); if(k==14) shared(WO(b?114:14),w.u,w.v); }
// radial parameters
extern "C" void c25_traits(){ int64_t k=vp_pin(vp_int("k",0,3)); Ways w=ways(4); double R=vp_real("R",0.125,8),al=vp_real("al",0,2); auto t=traits(k,7,R,al); const RadialTraits& r=*t; auto other=traits(k,7,1.0,0.6); static double o[2];
  auto f=[&](int64_t u,double* o){ if(u==0) *o=r.npts(); if(u==1){ auto c=r.clone(); *o=c->compare(r); } if(u==2) *o=r.compare(*other); if(u==3){ auto g=RadialFactory::generate(RQ[k],r); *o=sum(*g); } if(u==4){ if(k==0) *o=static_cast<const BeckeRadialTraits&>(r).radial_transform(0.5)+static_cast<const BeckeRadialTraits&>(r).radial_jacobian(0.25); if(k==1){ auto&m=static_cast<const MurrayHandyLamingRadialTraits<2>&>(r); *o=m.radial_transform(0.5)+m.radial_jacobian(0.25); } if(k==2){ auto&m=static_cast<const MuraKnowlesRadialTraits&>(r); *o=m.radial_transform(0.5)+m.radial_jacobian(0.25); } if(k==3){ auto&m=static_cast<const TreutlerAhlrichsRadialTraits&>(r); *o=m.radial_transform(0.5)+m.radial_jacobian(0.25); } } };
  vp_concurrently([&]{ f(w.u,&o[0]); },[&]{ f(w.v,&o[1]); }); vp_reach("shared"); }
// specifications
extern "C" void c25_spec(){ bool pr=vp_pin(vp_int("pruned",0,1)); Ways w=ways(4); int64_t k=vp_pin(vp_int("k",0,3)); double R=vp_real("R",0.125,8); UnprunedSphericalGridSpecification u0(RQ[k],*traits(k,3,R,0.6),AQ[0],26); const auto& u=u0; PrunedSphericalGridSpecification s0; if(pr) s0=create_pruned_spec(PruningScheme::Robust,u0); const auto& s=s0; static double o[2];
  auto f=[&](int64_t h,double* o){ if(pr){ if(h==0){ auto c=s; *o=c==s; } if(h==1){ *o=s==s; } if(h==2) *o=sum(*SphericalGridFactory::generate_grid(s)); if(h==3){ auto c(s); c.pruning_regions.clear(); *o=c==s; } if(h==4){ double t=0; for(auto&r:s.pruning_regions) t+=r.angular_size+(r==s.pruning_regions[0]); *o=t; } }
    else { if(h==0){ auto c=u; *o=c.radial_traits->compare(*u.radial_traits); } if(h==1) *o=create_pruned_spec(PruningScheme::Robust,u).pruning_regions.size(); if(h==2) *o=sum(*SphericalGridFactory::generate_grid(u)); if(h==3) *o=create_pruned_spec(PruningScheme::Treutler,u).pruning_regions.size(); if(h==4) *o=create_pruned_spec(PruningScheme::Unpruned,u)==create_pruned_spec(PruningScheme::Unpruned,u); } };
  vp_concurrently([&]{ f(w.u,&o[0]); },[&]{ f(w.v,&o[1]); }); vp_reach("shared"); }
// grids: const reads, clones and copies moved elsewhere, batching
template<class G> static void gridways(const G& q){ Ways w=ways(4); static double o[2]; const SB& base=q;
  auto f=[&](int64_t h,double* o){ if(h==0) *o=sum(q)+q.center()[0]; if(h==1){ auto c=base.clone(); c->recenter(P3{1,0,0}); *o=sum(*c); } if(h==2){ G c(q); c.recenter(P3{0,1,0}); *o=sum(c); } if(h==3){ auto b=make_batcher(3,q); *o=b.nbatches()+std::get<2>(b.at(0)).size(); } if(h==4) *o=sum(base)+base.center()[1]; };
  vp_concurrently([&]{ f(w.u,&o[0]); },[&]{ f(w.v,&o[1]); }); vp_reach("shared"); }
extern "C" void c25_grid(){ int64_t k=vp_pin(vp_int("k",0,2)); if(k==0) gridways(SphericalQuadrature<MK,LL>(MK(2,1.0),LL(6),P3{1,2,3})); In a=input("A"); Rad r(std::vector<double>(a.r,a.r+2),std::vector<double>(a.w,a.w+2)); Ang g(std::vector<P3>{P3{a.a[0],a.a[1],a.a[2]}},std::vector<double>{a.v[0]}); if(k==1){ P3 c{a.R,1,2}; P3 far{0,0,0}; SQ q(Rad(std::vector<double>{1,2},std::vector<double>(a.w,a.w+2)),Ang(std::vector<P3>{P3{1,0,0},P3{0,0,1}},std::vector<double>{a.v[0],a.v[1]}),P3{1,2,3}); (void)c; (void)far; gridways(q); } if(k==2){ MK m(2,1.0); RadialGridPartition<LL> p(m,0,LL(6),1,LL(14)); gridways(PrunedSphericalQuadrature<MK,LL>(m,p,P3{1,2,3})); } }
// batchers and partitions
extern "C" void c25_batch(){ Ways w=ways(5); SphericalQuadrature<MK,LL> q(MK(2,1.0),LL(14)); auto b0=make_batcher(5,q); const auto& b=b0; static double o[2];
  auto f=[&](int64_t h,double* o){ if(h==0){ double s=b.nbatches()+b.npts()+b.max_batch_size(); for(size_t i=0;i<b.nbatches();i++){ auto t=b.at(i); s+=std::get<3>(t).size(); } *o=s; } if(h==1) *o=sum(b.quadrature()); if(h==2){ auto c=b.clone(); c.recenter(P3{1,1,1}); *o=c.nbatches(); } if(h==3){ try{ *o=std::get<2>(b.at(b.nbatches())).size(); }catch(const std::exception&){} } if(h==4){ double s=0; for(auto& p:b.points()) s+=p[0]; for(auto x:b.weights()) s+=x; *o=s; } if(h==5){ double s=0; for(auto it=b.cbegin();it!=b.cend();++it){ auto t=*it; s+=std::get<2>(t).size(); for(auto&x:std::get<3>(t)) s+=x; } *o=s; } };
  vp_concurrently([&]{ f(w.u,&o[0]); },[&]{ f(w.v,&o[1]); }); vp_reach("shared"); }
extern "C" void c25_partition(){ Ways w=ways(3); MK m(3,1.0); RadialGridPartition<LL> p0(m,0,LL(6),1,LL(14),2,LL(26)); const auto& p=p0; static double o[2];
  auto f=[&](int64_t h,double* o){ if(h==0){ double s=0; for(auto it=p.begin();it!=p.end();++it){ auto [r,g]=*it; s+=r.second-r.first+g.npts(); } *o=s; } if(h==1){ auto c=p; double s=0; for(auto it=c.cbegin();it!=c.cend();++it) s++; *o=s; } if(h==2){ PrunedSphericalQuadrature<MK,LL> q(m,p); *o=sum(q); } if(h==3){ RadialGridPartition<LL> c(m,0,LL(6)); c=p; *o=0; } };
  vp_concurrently([&]{ f(w.u,&o[0]); },[&]{ f(w.v,&o[1]); }); vp_reach("shared"); }
