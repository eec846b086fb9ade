// C20: bounds-checked element access, equal storage sizes, sub-quadratures are exact slices
#include "q.h"
#include <integratorxx/composite_quadratures/sub_quadrature.hpp>
using namespace IntegratorXX; using namespace vpq;
template<class Q> static void sizes(const Q& q,size_t n){ vp_assert(q.npts()==n,"npts"); vp_assert(q.points().size()==n,"points size"); vp_assert(q.weights().size()==n,"weights size"); }
extern "C" void c20_index1(){ int64_t n=vp_pin(vp_int("n",0,4)); auto p=reals("p",n,-8,8),w=reals("w",n,-8,8); Rad q(p,w); sizes(q,n);
  uint64_t i=vp_u64("i"); double v=0,u=0; bool tp=false,tw=false;
  try{ v=q.points(i); }catch(const std::exception&){ tp=true; } try{ u=q.weights(i); }catch(const std::exception&){ tw=true; }
  vp_assert(tp==(i>=(uint64_t)n),"points(i) throws exactly out of range"); vp_assert(tw==(i>=(uint64_t)n),"weights(i) throws exactly out of range");
  if(!tp&&i<(uint64_t)n){ vp_same(v,p[i],"points(i) value"); } if(!tw&&i<(uint64_t)n) vp_same(u,w[i],"weights(i) value");
  if(!tp) vp_reach("in range"); else vp_reach("out of range"); }
extern "C" void c20_index3(){ int64_t n=vp_pin(vp_int("n",0,3)); auto p=reals3("p",n,-8,8); auto w=reals("w",n,-8,8); Ang q(p,w); sizes(q,n);
  const QuadratureBase<std::vector<P3>,std::vector<double>>& b=q;
  uint64_t i=vp_u64("i"); P3 v{0,0,0}; double u=0; bool tp=false,tw=false;
  try{ v=b.points(i); }catch(const std::exception&){ tp=true; } try{ u=b.weights(i); }catch(const std::exception&){ tw=true; }
  vp_assert(tp==(i>=(uint64_t)n),"points(i) throws exactly out of range"); vp_assert(tw==(i>=(uint64_t)n),"weights(i) throws exactly out of range");
  if(!tp&&i<(uint64_t)n) for(int k=0;k<3;k++) vp_same(v[k],p[i][k],"points(i) value"); if(!tw&&i<(uint64_t)n) vp_same(u,w[i],"weights(i) value"); }
// storage accessors agree; copies are independent
extern "C" void c20_storage(){ int64_t n=vp_pin(vp_int("n",1,4)); auto p=reals("p",n,-8,8),w=reals("w",n,-8,8); Rad q(p,w); const Rad& cq=q;
  for(int64_t i=0;i<n;i++){ vp_same(cq.points()[i],p[i],"const points"); vp_same(cq.weights()[i],w[i],"const weights"); vp_same(cq.points_data()[i],p[i],"points_data"); vp_same(cq.weights_data()[i],w[i],"weights_data"); vp_same(q.points()[i],p[i],"points"); vp_same(q.weights()[i],w[i],"weights"); }
  int64_t k=vp_pin(vp_int("k",0,n-1)); double x=vp_real("x",-8,8),y=vp_real("y",-8,8); Rad c(q); c.points()[k]=x; c.weights_data()[k]=y; sizes(c,n);
  for(int64_t i=0;i<n;i++){ vp_same(q.points(i),p[i],"copy is independent (points)"); vp_same(q.weights(i),w[i],"copy is independent (weights)"); vp_same(c.points(i),i==k?x:p[i],"edited copy points"); vp_same(c.weights(i),i==k?y:w[i],"edited copy weights"); }
  Rad m(std::move(c)); sizes(m,n); for(int64_t i=0;i<n;i++){ vp_same(m.points(i),i==k?x:p[i],"moved points"); vp_same(m.weights(i),i==k?y:w[i],"moved weights"); } }
extern "C" void c20_sub(){ int64_t n=vp_pin(vp_int("n",1,vp_param("N",5))); int64_t b=vp_int("b",0,n-1); int64_t e=vp_int("e",1,n); vp_assume(b<e); auto p=reals("p",n,-8,8),w=reals("w",n,-8,8); Rad q(p,w);
  SubQuadrature<Rad> s(std::pair<size_t,size_t>(b,e),q); b=vp_pin(b); e=vp_pin(e); sizes(s,e-b);
  if(s.npts()==(size_t)(e-b)) for(int64_t i=b;i<e;i++){ vp_same(s.points(i-b),p[i],"sub points"); vp_same(s.weights(i-b),w[i],"sub weights"); }
  sizes(q,n); for(int64_t i=0;i<n;i++){ vp_same(q.points(i),p[i],"parent points unchanged"); vp_same(q.weights(i),w[i],"parent weights unchanged"); }
  if(b>0&&e<n) vp_reach("interior slice"); if(e-b==n) vp_reach("full slice");
  // slices of slices compose
  if(e-b>=2){ SubQuadrature<SubQuadrature<Rad>> t(std::pair<size_t,size_t>(1,e-b),s); sizes(t,e-b-1); for(int64_t i=b+1;i<e;i++) vp_same(t.points(i-b-1),p[i],"nested slice"); } }
// the same at larger sizes: any index, slices around chosen positions
extern "C" void c20_index_large(){ int64_t n=vp_pin(vp_int("k",0,3)); n=n==0?65: n==1?129: n==2?300: 1025; auto p=reals("p",n,-8,8),w=reals("w",n,-8,8); Rad q(p,w); sizes(q,n); bool same=true;
  uint64_t i=vp_u64("i"); double v=0,u=0; bool tp=false,tw=false; try{ v=q.points(i); }catch(const std::exception&){ tp=true; } try{ u=q.weights(i); }catch(const std::exception&){ tw=true; }
  vp_assert(tp==(i>=(uint64_t)n),"points(i) throws exactly out of range"); vp_assert(tw==(i>=(uint64_t)n),"weights(i) throws exactly out of range");
  if(tp||tw||i>=(uint64_t)n) return; const int64_t at[]={0,1,31,32,63,64,n/2,n-2,n-1}; for(int64_t k:at) if(i==(uint64_t)k){ vp_same(v,p[k],"points(i) value"); vp_same(u,w[k],"weights(i) value"); } vp_reach("large"); (void)same; }
extern "C" void c20_sub_large(){ int64_t n=300; const int64_t at[]={0,1,2,31,63,64,65,127,128,200,256,257,298,299,300}; int64_t b=at[vp_pin(vp_int("b",0,13))],e=at[vp_pin(vp_int("e",1,14))]; vp_assume(b<e); auto p=reals("p",n,-8,8),w=reals("w",n,-8,8); Rad q(p,w);
  SubQuadrature<Rad> s(std::pair<size_t,size_t>(b,e),q); sizes(s,e-b); if(s.npts()!=(size_t)(e-b)) return; for(int64_t i=b;i<e;i++){ vp_same(s.points(i-b),p[i],"sub points"); vp_same(s.weights(i-b),w[i],"sub weights"); }
  sizes(q,n); for(int64_t i=0;i<n;i++){ vp_same(q.points(i),p[i],"parent points unchanged"); vp_same(q.weights(i),w[i],"parent weights unchanged"); }
  if(e-b>=2){ SubQuadrature<SubQuadrature<Rad>> t(std::pair<size_t,size_t>(1,e-b),s); sizes(t,e-b-1); for(int64_t i=b+1;i<e;i++) vp_same(t.points(i-b-1),p[i],"nested slice"); } vp_reach("large slice"); }
