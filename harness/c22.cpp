// C22, bounded: radial quadratures against exact integrals of decaying functions.  n and the scale are pinned path by path;
// the integrand r^2 f(r) is symbolic: every combination with coefficients in [-1,1] of normalised r^(k+2) exp(-a r) and r^(k+2) exp(-b r^2).
#include "q.h"
#include <integratorxx/quadratures/radial/becke.hpp>
#include <integratorxx/quadratures/radial/mhl.hpp>
#include <integratorxx/quadratures/radial/muraknowles.hpp>
#include <integratorxx/quadratures/radial/treutlerahlrichs.hpp>
using namespace IntegratorXX; using namespace vpq;
static const double U=4503599627370496.0; // 2^52
// the error left with n points; at least ten times that of the published schemes on these integrands
static double tol(int64_t n){ return n<60? 1e-3: n<80? 1e-5: n<160? 1e-6: n<320? 1e-8: n<640? 1e-10: 1e-11; }
template<class Q> static void integrals(const Q& q,int64_t n,double R,const std::vector<double>& decay){ auto&x=q.points(); auto&w=q.weights(); vp_assert(x.size()==(size_t)n&&w.size()==(size_t)n,"number of points"); if(x.size()!=w.size()) return;
  double sum=0; int64_t t=0; for(double s:decay) for(int k=0;k<=4;k++) for(int g=0;g<2;g++,t++){ double a=g? s*s/(2*R*R): s/R, I=0, c0=g? std::log(2.0)+(k+3)/2.0*std::log(a)-std::lgamma((k+3)/2.0): (k+3)*std::log(a)-std::lgamma(k+3.0);
    for(size_t i=0;i<x.size();i++) I+=w[i]*std::exp(c0+(k+2)*std::log(x[i])-(g? a*x[i]*x[i]: a*x[i]));
    double e=(I-1)*U; if(!(e<1e15&&e>-1e15)) e=1e15; sum+=vp_real(nm("c",t),-1,1)*std::round(e); }
  vp_close(sum,0,tol(n)*U,"the quadrature of the integrand has converged to its integral"); vp_reach("integral"); }
static int64_t size(){ int64_t L=vp_param("LO",40),S=vp_param("STEP",1),H=vp_param("HI",160); return L+S*vp_pin(vp_int("n",0,(H-L)/S)); }
static double RR(){ static const double V[]={0.5,1,2,7,0.001,1000}; return V[vp_pin(vp_int("scale",0,5))]; }
extern "C" void c22_becke(){ int64_t n=size(); double R=RR(); integrals(Becke<double,double>((size_t)n,R),n,R,{0.5,1,2,4}); }
extern "C" void c22_mhl(){ int64_t n=size(); double R=RR(); integrals(MurrayHandyLaming<double,double>((size_t)n,R),n,R,{0.5,1,2,4}); }
extern "C" void c22_mk(){ int64_t n=size(); double R=RR(); integrals(MuraKnowles<double,double>((size_t)n,R),n,R,{8,16,32}); }
extern "C" void c22_ta(){ static const double A[]={0,0.3,0.6,1}; int64_t n=size(); double R=RR(),al=A[vp_pin(vp_int("alpha",0,3))]; integrals(TreutlerAhlrichs<double,double>((size_t)n,R,al),n,R,{4,8,16}); }
