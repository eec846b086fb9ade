// C18: mapping of (-1,1) to an interval.  The derivative of the map is taken from the executed map itself
// (symbolic differentiation of its term); natively it is a central difference.
#include "q.h"
#include <cassert>
#include <integratorxx/util/bound_transform.hpp>
using namespace IntegratorXX; using namespace vpq;
static const double INF=std::numeric_limits<double>::infinity();
static double P(double lo,double up,double x){ return std::get<0>(transform_minus_one_to_one(lo,up,x,1.0)); }
static void near(double a,double b,double t,const char*id){ vp_assert(std::fabs(a-b)<=t*(std::fabs(a)+std::fabs(b))+1e-9,id); }
static void go(double lo,double up,bool fl,bool fu){ double x=vp_real("x",-1,1),w=vp_real("w",-8,8); vp_assume(x>-1&&x<1); bool sym=vp_is_symbolic_run();
  auto [y,v]=transform_minus_one_to_one(lo,up,x,w);
  if(fl) vp_assert(lo<y||(!sym&&lo<=y),"node above the lower bound"); if(fu) vp_assert(y<up||(!sym&&y<=up),"node below the upper bound"); vp_assert(y-y==0,"node finite");
  double d; if(sym) d=vp_deriv(y,x); else { vp_assume(x>-0.999&&x<0.999); double h=1e-5*(1-std::fabs(x)); d=(8*(P(lo,up,x+h)-P(lo,up,x-h))-(P(lo,up,x+2*h)-P(lo,up,x-2*h)))/(12*h); }
  vp_assert(d>0,"map strictly increasing"); if(sym) vp_eq(v,w*d,"weight times derivative"); else near(v,w*d,1e-6,"weight times derivative");
  vp_reach("mapped"); }
static double B(const char*n){ return vp_real(n,-64,64); }
extern "C" void c18_finite(){ double lo=B("lo"),up=B("up"); vp_assume(vp_is_symbolic_run()? lo<up: lo+1e-3<up); go(lo,up,true,true); }
extern "C" void c18_upper(){ go(B("lo"),INF,true,false); }
extern "C" void c18_lower(){ go(-INF,B("up"),false,true); }
extern "C" void c18_whole(){ go(-INF,INF,false,false); }
// the image is the whole interval: the ends are approached
extern "C" void c18_ends(){ double lo=B("lo"),up=B("up"); vp_assume(lo+0.0078125<=up); double e=0x1p-30; vp_assert(P(lo,up,-1+e)-lo<=1e-3*(up-lo)&&up-P(lo,up,1-e)<=1e-3*(up-lo),"finite ends approached"); vp_assert(P(lo,INF,-1+e)-lo<=1e-3&&P(lo,INF,1-e)>=lo+16,"half-infinite above"); vp_assert(up-P(-INF,up,1-e)<=1e-3&&P(-INF,up,-1+e)<=up-16,"half-infinite below"); vp_assert(P(-INF,INF,1-e)>=16&&P(-INF,INF,-1+e)<=-16,"infinite"); vp_reach("ends"); }
// two nodes keep their order
extern "C" void c18_order(){ double lo=B("lo"),up=B("up"); vp_assume(lo+0.0078125<=up); double x=vp_real("x",-1,1),z=vp_real("z",-1,1); vp_assume(x>-1&&x<z&&z<1); if(!vp_is_symbolic_run()) vp_assume(z-x>1e-6); vp_assert(P(lo,up,x)<P(lo,up,z),"finite: order kept"); vp_assert(P(lo,INF,x)<P(lo,INF,z),"half-infinite above: order kept"); vp_assert(P(-INF,up,x)<P(-INF,up,z),"half-infinite below: order kept"); vp_assert(P(-INF,INF,x)<P(-INF,INF,z),"infinite: order kept"); vp_reach("ordered"); }
// bounds of any magnitude: a power of two times [a,b]
extern "C" void c18_scaled(){ static const int E[]={-300,-200,-100,-60,-52,-40,-30,-20,-10,10,20,30,40,60,100,200,300}; double sc=std::ldexp(1.0,E[vp_pin(vp_int("scale",0,16))]); double a=B("a"),b=B("b"); vp_assume(a+0.0078125<=b); double x=vp_real("x",-1,1),w=vp_real("w",-8,8); vp_assume(x>-0.99&&x<0.99); bool sym=vp_is_symbolic_run();
  auto f=[&](double z){ return P(a*sc,b*sc,z)/sc; }; auto [y,v]=transform_minus_one_to_one(a*sc,b*sc,x,w); y/=sc; v/=sc; vp_assert(a<y&&y<b,"node inside the interval"); double d; if(sym) d=vp_deriv(y,x); else { double h=1e-3*(1-std::fabs(x)); d=(8*(f(x+h)-f(x-h))-(f(x+2*h)-f(x-2*h)))/(12*h); }
  vp_assert(d>0,"map strictly increasing"); if(sym) vp_eq(v,w*d,"weight times derivative"); else near(v,w*d,1e-6,"weight times derivative"); vp_reach("mapped"); }
