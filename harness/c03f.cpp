// C03 through the factories: exactly the sizes a family provides give a grid, on every route
#include "fac.h"
using namespace vpq;
static int64_t order(int64_t k,uint64_t n){ int64_t i=(int64_t)n; return k==0? quadrature_traits<LL>::algebraic_order_by_npts(i): k==1? quadrature_traits<DE>::algebraic_order_by_npts(i): k==2? quadrature_traits<AB>::algebraic_order_by_npts(i): quadrature_traits<WO>::algebraic_order_by_npts(i); }
static const AngularQuad FAM=AQ[VPF];
extern "C" void c03f_s2(){ uint64_t n=vp_u64("n"); bool sup=order(VPF,n)>=0; bool th=false; size_t m=0; try{ auto g=S2Factory::generate(FAM,(size_t)n); vp_assert((bool)g,"a grid"); if(g) m=g->npts(); }catch(const std::exception&){ th=true; } vp_assert(th==!sup,"factory raises exactly for unsupported sizes"); if(!th){ vp_assert(m==n,"size of the result"); vp_reach("supported"); } else vp_reach("unsupported"); }
extern "C" void c03f_sph(){ uint64_t n=vp_u64("n"); int64_t kr=vp_pin(vp_int("kr",0,3)),route=vp_pin(vp_int("route",0,3)); bool sup=order(VPF,n)>=0; if(sup) vp_assume(n<=(uint64_t)vp_param("HI",200)); bool th=false; size_t m=0; auto t=traits(kr,2,1.0,0.6); size_t ok=VPF==0?6:VPF==1?14:VPF==2?72:3;
  try{ SphericalGridFactory::spherical_grid_ptr g; if(route==0) g=SphericalGridFactory::generate_unpruned_grid(RQ[kr],*t,FAM,(size_t)n); else if(route==1) g=SphericalGridFactory::generate_grid(UnprunedSphericalGridSpecification(RQ[kr],*t,FAM,(size_t)n)); else { std::vector<PruningRegion> reg={{0,1,FAM,route==2?(size_t)n:ok},{1,2,FAM,route==2?ok:(size_t)n}}; g=SphericalGridFactory::generate_pruned_grid(RQ[kr],*t,reg); } vp_assert((bool)g,"a grid"); if(g) m=g->npts(); }catch(const std::exception&){ th=true; }
  vp_assert(th==!sup,"factory raises exactly for unsupported sizes"); if(!th){ vp_assert(m==(route<2?2*n:n+ok),"size of the result"); vp_reach("supported"); } else vp_reach("unsupported"); }
