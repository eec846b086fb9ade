// C26: product rules combine every pair of elements of their factors exactly once, with the combining operation
#include "sph.h"
using namespace vpq;
// an operation that is neither commutative nor linear; K is a symbolic constant of the run
static double K;
struct Op11 { double operator()(const double& x,const double& y) const { return K*x+y*y; } };
struct Op13 { P3 operator()(const double& x,const P3& y) const { return {x*y[0]+K,x-y[1],y[2]*y[2]}; } double operator()(const double& x,const double& y) const { return K*x-y; } };
struct Op33 { double operator()(const P3& x,const P3& y) const { return x[0]*y[1]+K*x[2]-y[2]; } double operator()(const double& x,const double& y) const { return x*y+K*y; } };
static void add(std::vector<double>& o,double x){ o.push_back(x); }
static void add(std::vector<double>& o,const P3& x){ for(double v:x) o.push_back(v); }
template<class Op,class Q1,class Q2> static void product(const Q1& a,const Q2& b){ K=vp_real("K",-4,4); Op op; auto [p,w]=quadrature_traits<ProductQuadrature<Op,Q1,Q2>>::generate(a,b); size_t N=a.npts()*b.npts(); vp_assert(p.size()==N&&w.size()==N,"one element per pair"); if(p.size()!=N||w.size()!=N||!N){ vp_reach("empty"); return; }
  std::vector<double> got,want; for(size_t i=0;i<N;i++){ add(got,p[i]); add(got,w[i]); } for(size_t i=0;i<a.npts();i++) for(size_t j=0;j<b.npts();j++){ add(want,op(a.points()[i],b.points()[j])); add(want,op(a.weights()[i],b.weights()[j])); }
  vp_multiset(got.data(),want.data(),N,got.size()/N,"every pair combined once"); vp_reach("product"); }
static Rad rad(const char* p,const char* w,int64_t n){ return Rad(reals(p,n,-4,4),reals(w,n,-4,4)); }
static Ang ang(const char* p,const char* w,int64_t n){ return Ang(reals3(p,n,-2,2),reals(w,n,-4,4)); }
static void shape(int64_t& a,int64_t& b){ int64_t N=vp_param("N",4); if(vp_param("LARGE",0)){ const int64_t s[][2]={{40,70},{1,1030},{1030,1},{65,33},{129,9},{256,4}}; int64_t k=vp_pin(vp_int("shape",0,vp_param("LARGE",0)-1)); a=s[k][0]; b=s[k][1]; } else { a=vp_pin(vp_int("n1",0,N)); b=vp_pin(vp_int("n2",0,N)); } }
extern "C" void c26_scalar(){ int64_t a,b; shape(a,b); product<Op11>(rad("p","w",a),rad("q","v",b)); }
extern "C" void c26_mixed(){ int64_t a,b; shape(a,b); product<Op13>(rad("p","w",a),ang("q","v",b)); }
extern "C" void c26_space(){ int64_t a,b; shape(a,b); product<Op33>(ang("p","w",a),ang("q","v",b)); }
// factors may be slices, and products leave their factors alone
extern "C" void c26_slice(){ int64_t n=vp_pin(vp_int("n",1,3)),b=vp_pin(vp_int("b",0,n-1)),e=vp_pin(vp_int("e",1,n)); vp_assume(b<e); Rad r=rad("p","w",n); Ang a=ang("q","v",2); Rad r0(r); Ang a0(a); product<Op13>(SubQuadrature<Rad>(std::pair<size_t,size_t>(b,e),r),a); for(int64_t i=0;i<n;i++){ vp_same(r.points()[i],r0.points()[i],"factor unchanged"); vp_same(r.weights()[i],r0.weights()[i],"factor unchanged"); } for(int i=0;i<2;i++){ for(int k=0;k<3;k++) vp_same(a.points()[i][k],a0.points()[i][k],"factor unchanged"); vp_same(a.weights()[i],a0.weights()[i],"factor unchanged"); } }
// the operation of the spherical grids: a direction scaled by a radius, weights multiplied
extern "C" void c26_spherical(){ double r=vp_real("r",-8,8),x=vp_real("x",-8,8),y=vp_real("y",-8,8); P3 d=real3("d",-2,2); detail::spherical_combine_op<double> op; auto p=op(r,d); for(int k=0;k<3;k++) vp_eq(p[k],r*d[k],"direction scaled by the radius"); vp_eq(op(x,y),x*y,"weights multiplied"); }
