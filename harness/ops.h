// the operations of the library, as a table: operation (kind, variant, R) writes its observable result into an Out
#pragma once
#include "fac.h"
#include <integratorxx/quadratures/all.hpp>
#include "sph.h"
#include <integratorxx/batch/spherical_micro_batcher.hpp>
namespace vpq {
struct In { double R,al,r[2],w[2],a[6],v[2]; };
inline In input(const char* T){ In i; auto nmx=[&](const char*k,int j){ std::string s(T); s+=k; s+=std::to_string(j); return s; }; i.R=vp_real((std::string(T)+"R").c_str(),0.125,8); i.al=vp_real((std::string(T)+"al").c_str(),0,2); for(int j=0;j<2;j++){ i.r[j]=vp_real(nmx("r",j).c_str(),-4,4); i.w[j]=vp_real(nmx("w",j).c_str(),-4,4); i.v[j]=vp_real(nmx("v",j).c_str(),-4,4); } for(int j=0;j<6;j++) i.a[j]=vp_real(nmx("a",j).c_str(),-2,2); return i; }
struct Out { uint64_t n; double v[4000]; void put(double x){ if(n<4000) v[n++]=x; } void put(const P3& p){ for(double x:p) put(x); } };
typedef SphericalMicroBatcher<std::vector<P3>,std::vector<double>> MB;
// whatever results are shared stay alive until the end of the run
inline bool keeping=true; inline void keep(std::shared_ptr<void> p){ static std::vector<std::shared_ptr<void>> k; k.push_back(std::move(p)); }
inline void junk(double& p){ p=-77; }
inline void junk(P3& p){ p={-77,5,9}; }
// record a rule, then overwrite it: what the caller does to a result must not matter to anybody else
template<class Q> void rec(Q&& q,Out* o){ o->put(q.npts()); for(auto&p:q.points()) o->put(p); for(auto&w:q.weights()) o->put(w); for(auto&p:q.points()) junk(p); for(auto&w:q.weights()) w=1e5; }
template<class G> void recgrid(G g,Out* o){ auto c=g->center(); o->put(c); rec(*g,o); g->recenter(P3{1,2,3}); if(keeping) keep(g); }
enum { VARIANTS=8 };
static const int ASZ[4][VARIANTS]={{6,14,26,38,50,110,302,590},{14,26,50,110,194,302,434,590},{72,132,192,312,372,432,72,492},{3,14,26,32,50,114,222,314}}; // points of the angular rules
static const int N1[VARIANTS]={3,5,8,12,33,65,129,2}, NR[VARIANTS]={2,3,5,9,20,50,129,1};
// grids: radial scheme, shells, angular family, angular points; variants 1..5 differ from variant 0 in one or two of them
static const int GS[VARIANTS][4]={{2,2,0,26},{0,2,0,26},{2,3,0,26},{2,2,1,26},{2,2,0,50},{3,2,3,26},{1,7,0,110},{2,15,0,38}};
enum { K_LINE=0, K_RAD=7, K_ANG=11, K_FRAD=15, K_FANG=19, K_UNP=23, K_PRU=24, K_BATCH=25, K_NEXT=26, K_NAME=30, K_MOCK=31, K_MOCKP=32, KINDS=33 };
static const char* RN[]={"Becke","mk","MHL","TreutlerAhlrichs","nothing"}; static const char* AN[]={"ll","Delley","ab","womersley","Lebedev"};
__attribute__((noinline)) inline void op1(int64_t k,int64_t v,double R,Out* o){ size_t n=N1[v]; typedef double D;
  if(k==0) rec(GaussLegendre<D,D>(n),o); if(k==1) rec(GaussLobatto<D,D>(n),o); if(k==2) rec(GaussChebyshev1<D,D>(n),o); if(k==3) rec(GaussChebyshev2<D,D>(n),o); if(k==4) rec(GaussChebyshev2Modified<D,D>(n),o); if(k==5) rec(GaussChebyshev3<D,D>(n),o); if(k==6) rec(UniformTrapezoid<D,D>(n,v&1?-1.0:0.0,R),o); }
__attribute__((noinline)) inline void op2(int64_t k,int64_t v,double R,double al,Out* o){ size_t n=NR[v]; if(k==0) rec(BK(n,R),o); if(k==1){ typedef double D2; if(v&1) rec(RadialTransformQuadrature<UniformTrapezoid<D2,D2>,MurrayHandyLamingRadialTraits<3>>(n,R),o); else rec(MH(n,R),o); } if(k==2) rec(MK(n,R),o); if(k==3) rec(TA(n,R,al),o); }
__attribute__((noinline)) inline void op3(int64_t k,int64_t v,Out* o){ size_t n=ASZ[k][v]; if(k==0) rec(LL(n),o); if(k==1) rec(DE(n),o); if(k==2) rec(AB(n),o); if(k==3) rec(WO(n),o); }
__attribute__((noinline)) inline void op4(int64_t k,int64_t v,double R,double al,Out* o){ size_t n=NR[v]; auto t=v&1?make_radial_traits(RQ[k],n,R):traits(k,n,R,al); o->put(t->npts()); auto g=RadialFactory::generate(RQ[k],*t); rec(*g,o); if(keeping) keep(std::shared_ptr<void>(std::move(g))); }
__attribute__((noinline)) inline void op5(int64_t k,int64_t v,Out* o){ auto g=S2Factory::generate(AQ[k],ASZ[k][v]); rec(*g,o); if(keeping) keep(std::shared_ptr<void>(std::move(g))); }
__attribute__((noinline)) inline void op6(int64_t k,int64_t v,double R,double al,Out* o){ auto g=GS[v]; UnprunedSphericalGridSpecification u(RQ[g[0]],*traits(g[0],g[1],R,al),AQ[g[2]],g[3]);
  if(k==0){ recgrid(SphericalGridFactory::generate_grid(u),o); return; } auto s=create_pruned_spec(v&1?PruningScheme::Treutler:PruningScheme::Robust,u); for(auto&r:s.pruning_regions){ o->put(r.idx_st); o->put(r.idx_en); o->put((double)(uint32_t)r.angular_quad); o->put(r.angular_size); } recgrid(SphericalGridFactory::generate_grid(s),o); s.pruning_regions.clear(); }
__attribute__((noinline)) inline void op7(int64_t v,double R,Out* o){ SphericalQuadrature<MK,LL> q(MK(v<2?2:3,(v&4?1.5:1.0)),LL(v&1?14:26)); if(v>1) q.recenter(P3{0,0,0.25*v}); auto b=make_batcher(v&2?8:13,q); o->put(b.nbatches()); for(size_t i=0;i<b.nbatches();i++){ auto t=b.at(i); o->put(std::get<0>(t)); o->put(std::get<1>(t)); o->put(std::get<2>(t).size()); } auto c=b.clone(); rec(c.quadrature(),o); b.recenter(P3{4,5,6}); }
__attribute__((noinline)) inline void op8(int64_t k,int64_t v,Out* o){ const int64_t q[]={1,8,17,2000,7,18,23,0}; int64_t x=q[v]; 
#define NX(T) { typedef quadrature_traits<T> X; o->put(X::next_algebraic_order(x)); o->put(X::npts_by_algebraic_order(X::next_algebraic_order(x))); o->put(X::algebraic_order_by_npts(ASZ[k][v])); }
  if(k==0) NX(LL) if(k==1) NX(DE) if(k==2) NX(AB) if(k==3) NX(WO) }
__attribute__((noinline)) inline void op9(int64_t v,Out* o){ for(int j=0;j<2;j++){ try{ o->put((double)(uint32_t)radial_from_string(RN[(v+j)%5])); }catch(const std::exception&){ o->put(-1); } try{ o->put((double)(uint32_t)angular_from_string(AN[(v+j)%5])); }catch(const std::exception&){ o->put(-1); } try{ o->put((double)(uint32_t)angular_from_string(RN[(v+j)%5])); }catch(const std::exception&){ o->put(-1); } } }
// grids from user-defined rules with arbitrary contents
__attribute__((noinline)) inline void op10(int64_t k,int64_t v,const In& i,Out* o){ std::vector<P3> ap{P3{i.a[0],i.a[1],i.a[2]}}; std::vector<double> aw{i.v[0]}; if(v&1){ ap.push_back(P3{i.a[3],i.a[4],i.a[5]}); aw.push_back(i.v[1]); } Rad r(std::vector<double>(i.r,i.r+2),std::vector<double>(i.w,i.w+2)); Ang a(ap,aw); double R=i.R; P3 c{R,v&2?1.0:0.0,0};
  if(k==0){ SQ q(r,a,c); auto l=q.clone(); l->recenter(P3{0,R,1}); rec(*l,o); rec(q,o); } else { RGP g(r,0,a,1,Ang(std::vector<P3>{P3{0,0,1}},std::vector<double>{R})); PQ q(r,g,c); auto l=q.clone(); l->recenter(P3{0,R,1}); rec(*l,o); rec(q,o); } }
inline void op(int64_t k,int64_t v,const In& i,Out* o){ o->n=0; double R=i.R;
  try{ if(k<K_RAD) op1(k,v,R,o); else if(k<K_ANG) op2(k-K_RAD,v,R,i.al,o); else if(k<K_FRAD) op3(k-K_ANG,v,o); else if(k<K_FANG) op4(k-K_FRAD,v,R,i.al,o); else if(k<K_UNP) op5(k-K_FANG,v,o); else if(k<K_BATCH) op6(k-K_UNP,v,R,i.al,o); else if(k==K_BATCH) op7(v,R,o); else if(k<K_NAME) op8(k-K_NEXT,v,o); else if(k==K_NAME) op9(v,o); else op10(k-K_MOCK,v,i,o); }
  catch(const std::exception&){ o->n=0; o->put(-12345); } }
// a request that is refused half way
__attribute__((noinline)) inline void refused(int64_t k){ try{ if(k<K_RAD) GaussLobatto<double,double> q(1); else if(k<K_ANG) RadialFactory::generate(RQ[(k-K_RAD+1)%4],*make_radial_traits(RQ[k-K_RAD],3)); else if(k<K_FRAD){ if(k==K_ANG) LL q(7); if(k==K_ANG+1) DE q(7); if(k==K_ANG+2) AB q(7); if(k==K_ANG+3) WO q(7); } else if(k<K_FANG) make_radial_traits((RadialQuad)99,3); else if(k<K_UNP) S2Factory::generate(AQ[k-K_FANG],7); else if(k<K_BATCH) SphericalGridFactory::generate_grid(create_pruned_spec(PruningScheme::Robust,UnprunedSphericalGridSpecification(RQ[0],BeckeRadialTraits(3),AQ[0],7))); else if(k==K_BATCH) make_batcher(0,SphericalQuadrature<MK,LL>(MK(2,1.0),LL(6))); else radial_from_string("?"); }catch(const std::exception&){} }
}
