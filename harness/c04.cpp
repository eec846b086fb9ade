// C04-C07: one-dimensional rules.  The size n is pinned path by path; the polynomial is symbolic:
// every coefficient vector c in [-1,1]^(K+1) over the orthogonal family that belongs to the rule.
#include "q.h"
#include <integratorxx/quadratures/primitive/gausslegendre.hpp>
#include <integratorxx/quadratures/primitive/gausslobatto.hpp>
#include <integratorxx/quadratures/primitive/gausschebyshev1.hpp>
#include <integratorxx/quadratures/primitive/gausschebyshev2.hpp>
#include <integratorxx/quadratures/primitive/gausschebyshev3.hpp>
#include <integratorxx/quadratures/primitive/gausschebyshev2modified.hpp>
#include <integratorxx/quadratures/primitive/uniform.hpp>
using namespace IntegratorXX; using namespace vpq;
static const double U=4503599627370496.0; // 2^52
// |sum_k c_k (M_k - e_k)| <= 2^-tolb for every c; moments rounded to multiples of 2^-52, the rounding is taken off the bound
static void poly(const std::vector<double>& err,const char*id){ double sum=0; int64_t K=(int64_t)err.size()-1;
  for(int64_t k=0;k<=K;k++){ double c=vp_real(nm("c",k),-1,1); double e=err[k]*U; if(!(e<1e15&&e>-1e15)) e=1e15; sum+=c*std::round(e); }
  vp_close(sum,0,std::ldexp(1.0,52-(int)vp_param("TOLB",36))-K-2,id); }
// moments of the polynomials p_k (Legendre: kind 0, Chebyshev T: kind 1), k=0..K
static std::vector<double> moments(int kind,const std::vector<double>& x,const std::vector<double>& w,int64_t K){ std::vector<double> m(K+1,0.0);
  for(size_t i=0;i<x.size();i++){ double a=1,b=x[i],ww=w[i],xi=x[i]; m[0]+=ww; if(K>0) m[1]+=ww*b;
    for(int64_t k=2;k<=K;k++){ double t= kind? 2*xi*b-a: ((2.0*k-1)*xi*b-(k-1.0)*a)/k; a=b; b=t; m[k]+=ww*b; } } return m; }
static void common(const std::vector<double>&x,const std::vector<double>&w,int64_t n,double lo,double up,bool incl,bool symm){
  vp_assert(x.size()==(size_t)n&&w.size()==(size_t)n,"number of points"); if(x.size()!=(size_t)n||w.size()!=(size_t)n) return;
  double sl=vp_param("SOFT",0)? 4e-16: 0; incl=incl||sl>0; lo-=sl; up+=sl;
  bool inc=true,in=true,pos=true,sx=true,sw=true; for(int64_t i=0;i<n;i++){ if(i) inc=inc&&(sl>0? x[i-1]<=x[i]+sl: x[i-1]<x[i]); in=in&&(incl? x[i]>=lo&&x[i]<=up: x[i]>lo&&x[i]<up); pos=pos&&w[i]>0&&w[i]<1e300;
    if(!(std::fabs(x[i]+x[n-1-i])<=1e-14)) sx=false; if(!(std::fabs(w[i]-w[n-1-i])<=1e-13)) sw=false; }
  vp_assert(inc,"nodes strictly increasing"); vp_assert(in,"nodes inside the interval"); vp_assert(pos,"weights positive"); if(symm){ vp_assert(sx,"nodes symmetric"); vp_assert(sw,"weights symmetric"); } }
// every size LO, LO+STEP, ... up to HI
static int64_t size(int64_t lo){ int64_t L=std::max(lo,vp_param("LO",lo)),S=vp_param("STEP",1),H=vp_param("HI",64); if(H<L) H=L; return L+S*vp_pin(vp_int("n",0,(H-L)/S)); }
extern "C" void c04_legendre(){ int64_t n=size(1); GaussLegendre<double,double> q(n); common(q.points(),q.weights(),n,-1,1,false,true); auto m=moments(0,q.points(),q.weights(),2*n-1); m[0]-=2; poly(m,"exact to degree 2n-1"); vp_reach("rule"); }
extern "C" void c05_lobatto(){ int64_t n=size(2); GaussLobatto<double,double> q(n); auto&x=q.points(); common(x,q.weights(),n,-1,1,true,true); if(x.size()==(size_t)n){ vp_assert(x[0]==-1.0,"left end point"); vp_assert(x[n-1]==1.0,"right end point"); } auto m=moments(0,x,q.weights(),2*n-3); m[0]-=2; poly(m,"exact to degree 2n-3"); vp_reach("rule"); }
extern "C" void c06_first(){ int64_t n=size(1); GaussChebyshev1<double,double> q(n); auto x=q.points(); auto w=q.weights(); common(x,w,n,-1,1,false,true); for(size_t i=0;i<x.size();i++) w[i]/=std::sqrt((1-x[i])*(1+x[i])); auto m=moments(1,x,w,2*n-1); m[0]-=M_PI; poly(m,"exact to degree 2n-1"); vp_reach("rule"); }
extern "C" void c06_second(){ int64_t n=size(1); GaussChebyshev2<double,double> q(n); auto x=q.points(); auto w=q.weights(); common(x,w,n,-1,1,false,true); for(size_t i=0;i<x.size();i++) w[i]*=std::sqrt((1-x[i])*(1+x[i])); auto m=moments(1,x,w,2*n-1); m[0]-=M_PI_2; if(n>=2) m[2]+=M_PI_4; poly(m,"exact to degree 2n-1"); vp_reach("rule"); }
extern "C" void c06_third(){ int64_t n=size(1); GaussChebyshev3<double,double> q(n); auto x=q.points(); auto w=q.weights(); common(x,w,n,0,1,false,false); for(size_t i=0;i<x.size();i++){ w[i]*=std::sqrt(x[i]/(1-x[i])); x[i]=2*x[i]-1; } auto m=moments(1,x,w,2*n-1); m[0]-=M_PI_2; m[1]-=M_PI_4; poly(m,"exact to degree 2n-1"); vp_reach("rule"); }
extern "C" void c07_modified(){ int64_t n=size(1); GaussChebyshev2Modified<double,double> q(n); auto&x=q.points(); auto&w=q.weights(); common(x,w,n,-1,1,false,true);
  bool px=true,pw=true; if(x.size()==(size_t)n) for(int64_t i=0;i<n;i++){ double j=n-i,t=j*M_PI/(n+1),s=std::sin(t),c=std::cos(t); double X=(n+1-2*j)/(n+1)+2/M_PI*(1+2*s*s/3)*c*s,W=16*s*s*s*s/(3*(n+1.0)); if(!(std::fabs(X-x[i])<=1e-13)) px=false; if(!(std::fabs(W-w[i])<=1e-13)) pw=false; }
  vp_assert(px,"published nodes"); vp_assert(pw,"published weights"); if(n>=2){ auto m=moments(0,x,w,1); m[0]-=2; poly(m,"linear functions exact"); } vp_reach("rule"); }
// trapezoid rule on an arbitrary interval, exact real arithmetic
extern "C" void c07_trapezoid(){ int64_t n=size(2); double lo=vp_real("lo",-64,64),up=vp_real("up",-64,64); vp_assume(up-lo>=0.015625); UniformTrapezoid<double,double> q(n,lo,up); auto&x=q.points(); auto&w=q.weights();
  vp_assert(x.size()==(size_t)n&&w.size()==(size_t)n,"number of points"); if(x.size()!=(size_t)n||w.size()!=(size_t)n) return; double h=(up-lo)/(n-1);
  for(int64_t i=0;i<n;i++){ vp_close(x[i],lo+i*h,1e-10,"equally spaced nodes"); vp_close(w[i],(i==0||i==n-1)?h/2:h,1e-10,"weights"); if(i) vp_assert(x[i]>x[i-1],"nodes increasing"); }
  vp_close(x[0],lo,1e-10,"first node"); vp_close(x[n-1],up,1e-10,"last node"); double s=0,m=0; for(int64_t i=0;i<n;i++){ s+=w[i]; m+=w[i]*x[i]; }
  vp_close(s,up-lo,1e-9,"constants exact"); vp_close(m,(up*up-lo*lo)/2,1e-9,"linear functions exact"); vp_reach("rule"); }
// the size-only form is the rule on [0,1]
extern "C" void c07_unit(){ int64_t n=size(2); auto pw=quadrature_traits<UniformTrapezoid<double,double>>::generate((size_t)n); auto&x=std::get<0>(pw); auto&w=std::get<1>(pw); common(x,w,n,0,1,true,false); if(x.size()!=(size_t)n||w.size()!=(size_t)n) return;
  bool ok=true; for(int64_t i=0;i<n;i++) if(!(std::fabs(x[i]-double(i)/(n-1))<=1e-14)||!(std::fabs(w[i]-((i==0||i==n-1)?0.5:1.0)/(n-1))<=1e-14)) ok=false; vp_assert(ok,"unit interval rule"); auto m=moments(0,x,w,1); m[0]-=1; m[1]-=0.5; poly(m,"linear functions exact"); vp_reach("rule"); }
// intervals of any magnitude: [lo,up] is a power of two times [a,b]
extern "C" void c07_scaled(){ static const int E[]={-300,-200,-100,-60,-40,-30,-20,-10,10,20,30,40,60,100,200,300}; double sc=std::ldexp(1.0,E[vp_pin(vp_int("scale",0,15))]); int64_t n=size(2); double a=vp_real("a",-64,64),b=vp_real("b",-64,64); vp_assume(b-a>=0.015625); UniformTrapezoid<double,double> q(n,a*sc,b*sc); auto x=q.points(); auto w=q.weights();
  vp_assert(x.size()==(size_t)n&&w.size()==(size_t)n,"number of points"); if(x.size()!=(size_t)n||w.size()!=(size_t)n) return; double h=(b-a)/(n-1); for(auto&v:x) v/=sc; for(auto&v:w) v/=sc;
  for(int64_t i=0;i<n;i++){ vp_close(x[i],a+i*h,1e-10,"equally spaced nodes"); vp_close(w[i],(i==0||i==n-1)?h/2:h,1e-10,"weights"); if(i) vp_assert(x[i]>x[i-1],"nodes increasing"); } vp_reach("rule"); }
