// C08: radial transforms.  Symbolic run: hands transform and Jacobian terms (x,R,alpha symbolic) to radial.py, which
// canonicalises them and lets z3 decide "equals the published map" and "Jacobian is its derivative".
// Native run: the same statement numerically at one point.
#include "q.h"
#include <integratorxx/quadratures/radial/becke.hpp>
#include <integratorxx/quadratures/radial/mhl.hpp>
#include <integratorxx/quadratures/radial/muraknowles.hpp>
#include <integratorxx/quadratures/radial/treutlerahlrichs.hpp>
using namespace IntegratorXX; using namespace vpq;
static void near(double a,double b,const char*id){ vp_assert(std::fabs(a-b)<=1e-9*std::fabs(b),id); }
template<class T> static void go(const T& t,double x,double ref,double jref){ double v=t.radial_transform(x),j=t.radial_jacobian(x); vp_emit("T",v); vp_emit("J",j);
  vp_assert(v>0,"transform positive"); vp_assert(j>0,"transform increasing"); if(!vp_is_symbolic_run()){ near(v,ref,"published transform"); near(j,jref,"jacobian is the derivative"); } vp_reach("transform"); }
static double X(double lo){ double x=vp_real("x",lo,1); vp_assume(x>lo&&x<1); return x; }
static double R(){ return vp_real("R",1.0/(1<<30),1<<30); }
extern "C" void c08_becke(){ double x=X(-1),r=R(); go(BeckeRadialTraits(7,r),x,vp_is_symbolic_run()?0:r*(1+x)/(1-x),vp_is_symbolic_run()?0:2*r/((1-x)*(1-x))); }
template<int M> static void mhl(){ double x=X(0),r=R(); double a=0,b=0; if(!vp_is_symbolic_run()){ a=r*std::pow(x/(1-x),M); b=r*M*std::pow(x,M-1)/std::pow(1-x,M+1); } go(MurrayHandyLamingRadialTraits<M>(7,r),x,a,b); }
extern "C" void c08_mhl1(){ mhl<1>(); }
extern "C" void c08_mhl2(){ mhl<2>(); }
extern "C" void c08_mhl3(){ mhl<3>(); }
extern "C" void c08_mhl4(){ mhl<4>(); }
extern "C" void c08_mk(){ double x=X(0),r=R(); double a=0,b=0; if(!vp_is_symbolic_run()){ a=-r*std::log1p(-x*x*x); b=3*r*x*x/(1-x*x*x); double v=MuraKnowlesRadialTraits(7,r).radial_transform(x); if(x<0.02){ vp_assert(std::fabs(v-a)<=1e-15*r,"published transform"); a=v; vp_assume(v>0); } } go(MuraKnowlesRadialTraits(7,r),x,a,b); }
extern "C" void c08_ta(){ double x=X(-1),r=R(),al=vp_real("alpha",0,4); double a=0,b=0; if(!vp_is_symbolic_run()){ double L=std::log(2/(1-x)); double p=std::pow(1+x,al); a=r*p*L/M_LN2; b=r/M_LN2*p*(al*L/(1+x)+1/(1-x)); vp_assume(x>-0.9999); if(x<-0.99){ double v=TreutlerAhlrichsRadialTraits(7,r,al).radial_transform(x); vp_assert(std::fabs(v-a)<=1e-13*r,"published transform"); a=v; vp_assume(v>0); } } go(TreutlerAhlrichsRadialTraits(7,r,al),x,a,b); }
