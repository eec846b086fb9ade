// C19: eval_Pn returns P_n(x), P_n'(x), P_{n-1}(x).  Oracle: the explicit power-basis coefficients
// P_n = 2^-n sum_k (-1)^k C(n,k) C(2n-2k,n) x^(n-2k)   (exact in double for n <= 24).
#include "q.h"
#include <integratorxx/util/legendre.hpp>
using namespace vpq;
static double binom(int n,int k){ double r=1; for(int i=1;i<=k;i++) r=r*(n-k+i)/i; return r; }
static double val(int n,double x,bool der){ // Horner in x
  std::vector<double> c(n+2,0.0); double s=1; for(int i=0;i<n;i++) s*=0.5; for(int k=0;2*k<=n;k++) c[n-2*k]=(k%2?-1:1)*s*binom(n,k)*binom(2*n-2*k,n);
  double r=0; for(int p=n;p>=(der?1:0);p--) r=r*x+(der? p*c[p]: c[p]); return r; }
static double mag(int n,double x,bool der){ double s=1,ax=std::fabs(x),r=0; for(int i=0;i<n;i++) s*=0.5; for(int k=0;2*k<=n;k++){ int p=n-2*k; double t=s*binom(n,k)*binom(2*n-2*k,n)*(der?p:1); for(int i=0;i<p-(der&&p?1:0);i++) t*=ax; r+=t; } return r+1; }
// native: rounding scale of the evaluation
static void near(double a,double b,double m,const char*id){ if(vp_is_symbolic_run()) vp_eq(a,b,id); else vp_assert(std::fabs(a-b)<=1e-12*m,id); }
extern "C" void c19_eval(){ int64_t n=vp_pin(vp_int("n",0,vp_param("HI",24))); double B=vp_param("XMAX",4); double x=vp_real("x",-B,B); bool sym=vp_is_symbolic_run(); if(sym) vp_assume(x!=1&&x!=-1); else vp_assume(x*x-1!=0);
  auto [p,d,q]=IntegratorXX::eval_Pn<double>(x,(size_t)n); double m=1,md=1,mq=1; if(!sym){ m=mag(n,x,false); md=mag(n,x,true)+0.01*(n+1)*(n+1)*m/std::fabs(x*x-1); mq= n?mag(n-1,x,false):1; }
  near(p,val(n,x,false),m,"P_n"); near(d,val(n,x,true),md,"P_n'"); if(n>=1) near(q,val(n-1,x,false),mq,"P_{n-1}"); vp_reach("evaluated"); }
// larger degrees: oracle by P'_{k+1} = P'_{k-1} + (2k+1) P_k and Bonnet's recurrence carried along from k = 0
extern "C" void c19_recur(){ int64_t L=vp_param("LO",1),H=vp_param("HI",48),ST=vp_param("STEP",1); int64_t n=L+ST*vp_pin(vp_int("n",0,(H-L)/ST)); double x=vp_real("x",-1,1); if(vp_is_symbolic_run()) vp_assume(x>-1&&x<1); else vp_assume(x*x-1!=0);
  auto [p,d,q]=IntegratorXX::eval_Pn<double>(x,(size_t)n); double a=1,b=x,da=0,db=1; for(int64_t k=1;k<n;k++){ double c=((2*k+1)*x*b-k*a)/(k+1),dc=da+(2*k+1)*b; a=b; b=c; da=db; db=dc; }
  near(p,b,1e3,"P_n"); near(d,db,n*n*(1e4+1e-2*n/std::fabs(x*x-1)),"P_n'"); near(q,a,1e3,"P_{n-1}"); vp_reach("evaluated"); }
