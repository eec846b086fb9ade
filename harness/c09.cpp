// C09: radial quadratures = base rule x transform.  n pinned path by path, R (and alpha) symbolic.
#include "q.h"
#include <integratorxx/quadratures/radial/becke.hpp>
#include <integratorxx/quadratures/radial/mhl.hpp>
#include <integratorxx/quadratures/radial/muraknowles.hpp>
#include <integratorxx/quadratures/radial/treutlerahlrichs.hpp>
using namespace IntegratorXX; using namespace vpq;
typedef Becke<double,double> BK; typedef MuraKnowles<double,double> MK; typedef MurrayHandyLaming<double,double> MH; typedef TreutlerAhlrichs<double,double> TA;
struct Ref { std::vector<double> r,w; }; // published formulas for R=1
static Ref ref(int k,int64_t n,double al){ Ref o; for(int64_t j=1;j<=n;j++){ double r,w;
  if(k==0||k==3){ double t=(n+1-j)*M_PI/(n+1),x=std::cos(t); if(2*j==n+1) x=0; double wb=M_PI/(n+1)*std::sin(t); double omx=2*std::sin(t/2)*std::sin(t/2),opx=2*std::cos(t/2)*std::cos(t/2);
    if(k==0){ r=opx/omx; w=wb*2/(omx*omx); } else { double L=std::log(2/omx),p=std::pow(opx,al); r=p*L/M_LN2; w=wb*p/M_LN2*(al*L/opx+1/omx); } }
  else { double x=double(j)/(n+1),wb=1.0/(n+1); if(k==1){ r=(x/(1-x))*(x/(1-x)); w=wb*2*x/((1-x)*(1-x)*(1-x)); } else { double c=1-x*x*x; r=-std::log1p(-x*x*x); w=wb*3*x*x/c; } }
  o.r.push_back(r); o.w.push_back(w); } return o; }
// relative tolerance, plus the rounding of a double near 1 (logarithms of numbers next to 1)
static bool rel(double a,double s,double b,double tol=1e-8){ double t=s*b; double d=tol*t+1e-15*s; return a<=t+d&&a>=t-d; }
template<class Q> static void check(const Q& q,int64_t n,double R,const Ref& f){ auto&p=q.points(); auto&w=q.weights(); vp_assert(p.size()==(size_t)n&&w.size()==(size_t)n&&q.npts()==(size_t)n,"number of points"); if(p.size()!=(size_t)n||w.size()!=(size_t)n) return;
  const double tol=n>2100?2e-15*double(n)*double(n):1e-8; // 1-x is of the order 1/n^2
  for(int64_t i=0;i<n;i++){ if(n>2100&&i>64&&i<n-600&&i%17) continue; vp_assert(rel(p[i],R,f.r[i],tol),"points are the transformed nodes"); vp_assert(rel(w[i],R,f.w[i],tol),"weights are base weight times derivative"); vp_assert(p[i]>0&&p[i]<=1e300,"points positive and finite"); vp_assert(w[i]>0&&w[i]<=1e300,"weights positive"); if(i) vp_assert(p[i-1]<p[i],"points increasing"); } }
static int64_t size(){ int64_t L=vp_param("LO",1),S=vp_param("STEP",1),H=vp_param("HI",40); return L+S*vp_pin(vp_int("n",0,(H-L)/S)); }
static double RR(){ return vp_real("R",0.0009765625,1024); }
extern "C" void c09_becke(){ int64_t n=size(); double R=RR(); check(BK((size_t)n,R),n,R,ref(0,n,0)); vp_reach("grid"); }
extern "C" void c09_mhl(){ int64_t n=size(); double R=RR(); check(MH((size_t)n,R),n,R,ref(1,n,0)); vp_reach("grid"); }
extern "C" void c09_mk(){ int64_t n=size(); double R=RR(); check(MK((size_t)n,R),n,R,ref(2,n,0)); vp_reach("grid"); }
static const double AL[]={0,0.25,0.6,1,0.9375,1.5};
extern "C" void c09_ta(){ int64_t n=size(); int64_t k=vp_pin(vp_int("k",0,5)); double R=RR(); check(TA((size_t)n,R,AL[k]),n,R,ref(3,n,AL[k])); vp_reach("grid"); }
// omitted parameters take the documented defaults, all construction routes agree
extern "C" void c09_default(){ int64_t n=size(); double R=RR();
  check(BK(BeckeRadialTraits(n)),n,1,ref(0,n,0)); check(MH(MurrayHandyLamingRadialTraits<2>(n)),n,1,ref(1,n,0)); check(MK(MuraKnowlesRadialTraits(n)),n,1,ref(2,n,0)); check(TA(TreutlerAhlrichsRadialTraits(n)),n,1,ref(3,n,0.6));
  check(TA((size_t)n,R),n,R,ref(3,n,0.6));
  std::unique_ptr<RadialTraits> t=std::make_unique<TreutlerAhlrichsRadialTraits>(n,R,0.25); check(TA(*t),n,R,ref(3,n,0.25)); t=std::make_unique<BeckeRadialTraits>(n,R); check(BK(*t),n,R,ref(0,n,0)); vp_reach("defaults"); }
// composition with arbitrary scale and exponent: node i is the transform of base node i, weight i the base weight times the Jacobian
template<class Q,class B,class T> static void comp(int64_t n,const T& t,const std::vector<double>& bx,const std::vector<double>& bw,int64_t off){ Q q(t); vp_assert(q.npts()==(size_t)n,"number of points"); if(q.npts()!=(size_t)n) return;
  for(int64_t i=0;i<n;i++){ vp_eq(q.points()[i],t.radial_transform(bx[i+off]),"point is the transform of the base node"); vp_eq(q.weights()[i],bw[i+off]*t.radial_jacobian(bx[i+off]),"weight is base weight times Jacobian"); } }
extern "C" void c09_compose(){ int64_t n=size(); int64_t k=vp_pin(vp_int("k",0,3)); double R=RR(),al=vp_real("alpha",0,2); GaussChebyshev2<double,double> c(n); UniformTrapezoid<double,double> u(n+2,0.,1.);
  if(k==0) comp<BK,int>(n,BeckeRadialTraits(n,R),c.points(),c.weights(),0); else if(k==1) comp<MH,int>(n,MurrayHandyLamingRadialTraits<2>(n,R),u.points(),u.weights(),1); else if(k==2) comp<MK,int>(n,MuraKnowlesRadialTraits(n,R),u.points(),u.weights(),1); else comp<TA,int>(n,TreutlerAhlrichsRadialTraits(n,R,al),c.points(),c.weights(),0); vp_reach("composed"); }
