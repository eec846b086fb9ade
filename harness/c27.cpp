// C27: single-precision instantiations.  Every rule can be made with float and agrees with its double-precision
// counterpart (decided by the other properties) to single precision; grids and batches made from them likewise
#include "q.h"
#include <chrono>
#include <iomanip>
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/quadratures/radial.hpp>
#include <integratorxx/quadratures/primitive/gausschebyshev1.hpp>
#include <integratorxx/quadratures/primitive/gausschebyshev2.hpp>
#include <integratorxx/quadratures/primitive/gausschebyshev3.hpp>
#include <integratorxx/quadratures/primitive/gausschebyshev2modified.hpp>
#include <integratorxx/quadratures/primitive/gausslegendre.hpp>
#include <integratorxx/quadratures/primitive/gausslobatto.hpp>
#include <integratorxx/quadratures/primitive/uniform.hpp>
#ifdef GRIDS
#include <integratorxx/quadratures/s2/lebedev_laikov.hpp>
#include <integratorxx/composite_quadratures/spherical_quadrature.hpp>
#include <integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp>
#include <integratorxx/batch/spherical_micro_batcher.hpp>
#endif
using namespace IntegratorXX; using namespace vpq; typedef float F; typedef double D;
static int64_t size(int64_t lo){ int64_t L=std::max(lo,vp_param("LO",lo)),S=vp_param("STEP",1),H=vp_param("HI",64); if(H<L) H=L; return L+S*vp_pin(vp_int("n",0,(H-L)/S)); }
static const double U=4503599627370496.0;
template<class V> static void poly(const std::vector<D>& x,const V& w,int64_t K,double tol,double(*exact)(int64_t)){ std::vector<D> m(K+1,0.0); for(size_t i=0;i<x.size();i++){ double a=1,b=x[i]; m[0]+=w[i]; if(K>0) m[1]+=w[i]*b; for(int64_t k=2;k<=K;k++){ double t=((2.0*k-1)*x[i]*b-(k-1.0)*a)/k; a=b; b=t; m[k]+=w[i]*b; } }
  double sum=0; for(int64_t k=0;k<=K;k++){ double c=vp_real(nm("c",k),-1,1),e=(m[k]-exact(k))*U; if(!(e<1e15&&e>-1e15)) e=1e15; sum+=c*std::round(e); } vp_close(sum,0,tol*U,"integrates to single precision"); }
static double leg(int64_t k){ return k==0?2:0; }
template<class Q,class P> static void agree(const Q& f,const P& d,int64_t n,double tx,double tw,bool rel){ vp_assert(f.npts()==(size_t)n&&f.points().size()==(size_t)n&&f.weights().size()==(size_t)n,"number of points"); if(f.points().size()!=(size_t)n||f.weights().size()!=(size_t)n) return; bool px=true,pw=true,up=true,pos=true; for(int64_t i=0;i<n;i++){ double x=f.points()[i],X=d.points()[i],w=f.weights()[i],W=d.weights()[i]; px=px&&std::fabs(x-X)<=tx*(rel?std::fabs(X):1); pw=pw&&std::fabs(w-W)<=tw*(rel?std::fabs(W):1); if(i&&X>d.points()[i-1]) up=up&&x>=f.points()[i-1]; pos=pos&&w>0; }
  vp_assert(px,"nodes agree to single precision"); vp_assert(pw,"weights agree to single precision"); vp_assert(up,"node order"); vp_assert(pos,"weights positive"); vp_reach("rule"); }
template<class Q> static std::vector<D> xs(const Q& q){ return std::vector<D>(q.points().begin(),q.points().end()); }
extern "C" void c27_legendre(){ int64_t n=size(1); GaussLegendre<F,F> f(n); agree(f,GaussLegendre<D,D>(n),n,2e-6,2e-6,false); poly(xs(f),f.weights(),std::min<int64_t>(2*n-1,20),1e-4,leg); }
extern "C" void c27_lobatto(){ int64_t n=size(2); GaussLobatto<F,F> f(n); agree(f,GaussLobatto<D,D>(n),n,2e-6,2e-6,false); poly(xs(f),f.weights(),std::min<int64_t>(2*n-3,20),1e-4,leg); }
extern "C" void c27_cheby1(){ int64_t n=size(1); agree(GaussChebyshev1<F,F>(n),GaussChebyshev1<D,D>(n),n,2e-6,2e-6,false); }
extern "C" void c27_cheby2(){ int64_t n=size(1); agree(GaussChebyshev2<F,F>(n),GaussChebyshev2<D,D>(n),n,2e-6,2e-6,false); }
extern "C" void c27_cheby2m(){ int64_t n=size(1); agree(GaussChebyshev2Modified<F,F>(n),GaussChebyshev2Modified<D,D>(n),n,2e-6,2e-6,false); }
extern "C" void c27_cheby3(){ int64_t n=size(1); agree(GaussChebyshev3<F,F>(n),GaussChebyshev3<D,D>(n),n,2e-6,2e-6,false); }
extern "C" void c27_trapezoid(){ int64_t n=size(2); int64_t a=vp_pin(vp_int("a",-2,2)),l=vp_pin(vp_int("l",1,3)); F lo=a*0.75f,up=lo+l*0.625f; agree(UniformTrapezoid<F,F>(n,lo,up),UniformTrapezoid<D,D>(n,lo,up),n,4e-6,4e-6,false); }
// radial rules: the map amplifies the rounding of nodes near the far end by about n^2
template<class A,class B> static void rad(const A& f,const B& d,int64_t n){ double t=2e-6+2e-7*n*n; agree(f,d,n,t,4*t,true); }
extern "C" void c27_becke(){ int64_t n=size(1); double R=0.5*vp_pin(vp_int("R",1,4)); rad(Becke<F,F>(n,R),Becke<D,D>(n,R),n); }
extern "C" void c27_mhl(){ int64_t n=size(1); double R=0.5*vp_pin(vp_int("R",1,4)); rad(MurrayHandyLaming<F,F>(n,R),MurrayHandyLaming<D,D>(n,R),n); }
extern "C" void c27_mk(){ int64_t n=size(1); double R=0.5*vp_pin(vp_int("R",1,4)); rad(MuraKnowles<F,F>(n,R),MuraKnowles<D,D>(n,R),n); }
extern "C" void c27_ta(){ int64_t n=size(1); double R=0.5*vp_pin(vp_int("R",1,4)); rad(TreutlerAhlrichs<F,F>(n,R),TreutlerAhlrichs<D,D>(n,R),n); }
#ifdef GRIDS
typedef std::array<F,3> FP;
struct Cell { double v[4]; };
template<class G> static void grid(const G& g,std::vector<Cell> want,double tol){ vp_assert(g.npts()==want.size()&&g.points().size()==want.size()&&g.weights().size()==want.size(),"number of points"); if(g.points().size()!=want.size()||g.weights().size()!=want.size()) return; std::vector<char> used(want.size(),0); bool all=true;
  for(size_t i=0;i<want.size();i++){ bool hit=false; for(size_t j=0;j<want.size()&&!hit;j++){ if(used[j]) continue; bool ok=std::fabs(g.weights()[i]-want[j].v[3])<=tol*(1+std::fabs(want[j].v[3])); for(int k=0;k<3;k++) ok=ok&&std::fabs(g.points()[i][k]-want[j].v[k])<=tol*(1+std::fabs(want[j].v[k])); if(ok){ used[j]=1; hit=true; } } all=all&&hit; } vp_assert(all,"grid points and weights to single precision"); }
template<class R,class A> static void cells(std::vector<Cell>& o,const R& r,const A& a,size_t b,size_t e,const double* c){ for(size_t i=b;i<e;i++) for(size_t j=0;j<a.npts();j++){ double x=r.points()[i]; Cell t; for(int k=0;k<3;k++) t.v[k]=c[k]+x*a.points()[j][k]; t.v[3]=x*x*r.weights()[i]*a.weights()[j]; o.push_back(t); } }
extern "C" void c27_grid(){ typedef MuraKnowles<F,F> R; typedef LebedevLaikov<F> A; int64_t n=vp_pin(vp_int("n",1,4)),cut=vp_pin(vp_int("cut",0,3)),ctr=vp_pin(vp_int("centre",0,2)); vp_assume(cut<n); double c[3]={ctr*0.5,-0.25*ctr,ctr==2?1.0:0.0}; R r(n,2.0); A a(26),s(6); std::vector<Cell> w; FP cf{(F)c[0],(F)c[1],(F)c[2]};
  if(cut==0){ cells(w,r,a,0,n,c); SphericalQuadrature<R,A> g(r,a,cf); grid(g,w,1e-5); g.recenter(FP{0,0,0}); std::vector<Cell> w0; double z[3]={0,0,0}; cells(w0,r,a,0,n,z); grid(g,w0,1e-5); }
  else { cells(w,r,s,0,cut,c); cells(w,r,a,cut,n,c); RadialGridPartition<A> p(r,0,s,cut,a); PrunedSphericalQuadrature<R,A> g(r,p,cf); grid(g,w,1e-5); auto k=g.clone(); grid(*k,w,1e-5); } vp_reach("grid"); }
extern "C" void c27_batch(){ typedef MuraKnowles<F,F> R; typedef LebedevLaikov<F> A; int64_t n=vp_pin(vp_int("n",1,6)); uint64_t lim=vp_pin(vp_int("lim",1,60)); R r(n,1.0); A a(14); SphericalQuadrature<R,A> g(r,a); auto b=make_batcher((size_t)lim,g); size_t tot=0; std::vector<Cell> w; double z[3]={0,0,0}; cells(w,r,a,0,n,z); grid(b.quadrature(),w,1e-5);
  for(size_t i=0;i<b.nbatches();i++){ auto [lo,up,p,v]=b.at(i); vp_assert(p.size()>0&&p.size()<=lim&&p.size()==v.size(),"batch size"); for(size_t j=0;j<p.size();j++) if(tot+j<b.npts()){ for(int k=0;k<3;k++) vp_assert(p[j][k]==b.points()[tot+j][k]&&lo[k]<=p[j][k]&&p[j][k]<=up[k],"batch points"); vp_assert(v[j]==b.weights()[tot+j],"batch weights"); } tot+=p.size(); } vp_assert(tot==g.npts(),"every point in one batch"); vp_reach("batches"); }
#endif
