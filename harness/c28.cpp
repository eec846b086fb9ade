// C28: degenerate requests.  Whatever the size (0 and 1 included), a rule or grid is either refused with an error or
// has exactly that many elements, all finite; nothing is read or written out of bounds
#include "fac.h"
#include <integratorxx/quadratures/all.hpp>
#include "sph.h"
#include <integratorxx/batch/spherical_micro_batcher.hpp>
using namespace vpq;
static bool fin(double x){ return x-x==0; }
static bool fin(const P3& p){ return fin(p[0])&&fin(p[1])&&fin(p[2]); }
template<class Q> static void formed(const Q& q,size_t n){ vp_assert(q.npts()==n&&q.points().size()==n&&q.weights().size()==n,"number of elements"); bool ok=true; for(auto&p:q.points()) ok=ok&&fin(p); for(auto&w:q.weights()) ok=ok&&fin(w); vp_assert(ok,"finite points and weights"); }
// f makes and checks a rule, or throws before it does
template<class F> static bool made(F f){ try{ f(); }catch(const std::exception&){ vp_reach("refused"); return false; } vp_reach("made"); return true; }
extern "C" void c28_line(){ int64_t k=vp_pin(vp_int("rule",0,7)); size_t n=vp_pin(vp_int("n",0,vp_param("N",6))); bool ok=made([&]{ if(k==0) formed(GaussLegendre<double,double>(n),n); if(k==1) formed(GaussLobatto<double,double>(n),n); if(k==2) formed(GaussChebyshev1<double,double>(n),n); if(k==3) formed(GaussChebyshev2<double,double>(n),n); if(k==4) formed(GaussChebyshev2Modified<double,double>(n),n); if(k==5) formed(GaussChebyshev3<double,double>(n),n); if(k==6) formed(UniformTrapezoid<double,double>(n,-1.0,2.0),n);
    if(k==7){ auto pw=quadrature_traits<UniformTrapezoid<double,double>>::generate(n); auto&p=std::get<0>(pw); auto&w=std::get<1>(pw); vp_assert(p.size()==n&&w.size()==n,"number of elements"); bool f=true; for(double x:p) f=f&&fin(x); for(double x:w) f=f&&fin(x); vp_assert(f,"finite points and weights"); } });
  if(n>=2) vp_assert(ok,"sizes from two on are provided"); }
extern "C" void c28_radial(){ int64_t k=vp_pin(vp_int("rule",0,3)); size_t n=vp_pin(vp_int("n",0,vp_param("N",6))); double R=vp_pin(vp_int("R",1,3)); bool viaf=vp_pin(vp_int("factory",0,1)); bool ok=made([&]{ if(viaf){ auto q=RadialFactory::generate(RQ[k],*traits(k,n,R,0.6)); (void)q; return; } if(k==0) formed(BK(n,R),n); if(k==1) formed(MH(n,R),n); if(k==2) formed(MK(n,R),n); if(k==3) formed(TA(n,R),n); }); if(n>=1) vp_assert(ok,"sizes from one on are provided"); }
// atomic grids with 0.. radial shells, all pruning schemes
extern "C" void c28_grid(){ int64_t k=vp_pin(vp_int("rule",0,3)); size_t n=vp_pin(vp_int("n",0,vp_param("N",6))); int64_t ps=vp_pin(vp_int("pruning",0,3)); UnprunedSphericalGridSpecification u(RQ[k],*traits(k,n,1.5,0.6),AQ[0],26);
  made([&]{ if(ps==3){ auto g=SphericalGridFactory::generate_grid(u); vp_assert(g->npts()==n*26,"number of points"); formed(*g,n*26); return; }
    auto s=create_pruned_spec(ps==0?PruningScheme::Unpruned: ps==1?PruningScheme::Robust: PruningScheme::Treutler,u); auto g=SphericalGridFactory::generate_grid(s); formed(*g,g->npts()); if(n==0) vp_assert(g->npts()==0,"no shells, no points"); else vp_assert(g->npts()>=n,"every shell has points"); if(ps==0) vp_assert(g->npts()==n*26,"number of points"); }); }
// batches of an empty grid
typedef SphericalMicroBatcher<std::vector<P3>,std::vector<double>> MB;
extern "C" void c28_batch(){ bool nr=vp_pin(vp_int("nr",0,1)),na=!nr&&vp_pin(vp_int("na",0,1)); uint64_t lim=vp_u64("lim"); Rad r(reals("r",nr,-4,4),reals("wr",nr,-4,4)); Ang a(reals3("a",na,-2,2),reals("wa",na,-4,4)); SQ q(r,a,real3("c",-4,4)); formed(q,0);
  bool ok=made([&]{ auto b=make_batcher((size_t)lim,q); vp_assert(b.npts()==0&&b.nbatches()==0,"no batches"); size_t k=0; for(auto it=b.begin();it!=b.end()&&k<3;++it) k++; vp_assert(k==0,"nothing to iterate over"); uint64_t i=vp_u64("i"); vp_assert(throws([&]{ b.at(i); }),"no batch to access"); auto c=b.clone(); vp_assert(c.nbatches()==0&&c.npts()==0,"clone"); b.recenter(real3("d",-4,4)); }); vp_assert(ok==(lim>0),"only a zero limit is refused"); }
