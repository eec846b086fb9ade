// C27: single-precision angular grids, every supported size
#include "s2fam.h"
#if defined(FAM_LL)
typedef IntegratorXX::LebedevLaikov<float> FamF;
#elif defined(FAM_DE)
typedef IntegratorXX::Delley<float> FamF;
#elif defined(FAM_AB)
typedef IntegratorXX::AhrensBeylkin<float> FamF;
#elif defined(FAM_WO)
typedef IntegratorXX::Womersley<float> FamF;
#endif
typedef IntegratorXX::quadrature_traits<FamF> TF;
extern "C" void ENTRY(c27)(){ int64_t n=vp_int("n",1,vp_param("HI",100000)); int64_t L=FT::algebraic_order_by_npts(n); vp_assume(L>=0); n=vp_pin(n); vp_assert(TF::algebraic_order_by_npts(n)==L&&TF::npts_by_algebraic_order(L)==n&&TF::next_algebraic_order(L)==L,"same sizes and orders"); Fam d(n); FamF f(n);
  vp_assert(f.npts()==(size_t)n&&f.points().size()==(size_t)n&&f.weights().size()==(size_t)n,"number of points"); if(f.points().size()!=(size_t)n||f.weights().size()!=(size_t)n) return; bool p=true,w=true; for(int64_t i=0;i<n;i++){ for(int k=0;k<3;k++) p=p&&std::fabs(f.points()[i][k]-d.points()[i][k])<=2.5e-7; w=w&&std::fabs(f.weights()[i]-d.weights()[i])<=1e-6*std::fabs(d.weights()[i])+1e-9; } vp_assert(p,"points agree to single precision"); vp_assert(w,"weights agree to single precision"); vp_reach("grid"); }
extern "C" void CAT(ENTRY(c27),_reject)(){ int64_t n=(int64_t)vp_u64("n"); int64_t L=FT::algebraic_order_by_npts(n); vp_assert(TF::algebraic_order_by_npts(n)==L,"same sizes and orders"); if(L<0){ vp_assert(vpq::throws([&]{ FamF q((size_t)n); }),"unsupported size refused"); vp_reach("refused"); } }
