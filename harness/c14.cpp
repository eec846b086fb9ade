// C14: pruning schemes.  Angular family by -DFAM_xx; radial size and angular size symbolic.
#include "fac.h"
using namespace vpq;
#if defined(FAM_LL)
typedef LL Fam; enum{FI=0};
#define FTAG LL
#elif defined(FAM_DE)
typedef DE Fam; enum{FI=1};
#define FTAG DE
#elif defined(FAM_AB)
typedef AB Fam; enum{FI=2};
#define FTAG AB
#else
typedef WO Fam; enum{FI=3};
#define FTAG WO
#endif
typedef quadrature_traits<Fam> FT;
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
#define ENTRY(x) CAT(CAT(x,_),FTAG)
// smallest supported order >= o (largest supported if none), by search over the orders themselves
static int64_t smallest(int64_t o){ for(int64_t k=o<0?0:o;k<=400;k++) if(FT::npts_by_algebraic_order(k)>0) return k; for(int64_t k=o;k>=0;k--) if(FT::npts_by_algebraic_order(k)>0) return k; return -1; }
static uint64_t sized(int64_t o){ return (uint64_t)FT::npts_by_algebraic_order(smallest(o)); }
static void common(const PrunedSphericalGridSpecification& s,int64_t k,const RadialTraits& t){ vp_assert(s.radial_quad==RQ[k],"radial scheme carried over"); vp_assert(s.radial_traits&&s.radial_traits->compare(t),"radial parameters carried over"); }
// regions: contiguous, ascending, non-empty, cover [0,n); sz[j] applies to shells first[j]..first[j+1]-1
static void regions(const PrunedSphericalGridSpecification& s,uint64_t n,const uint64_t* edge,const uint64_t* sz,int parts){ auto&r=s.pruning_regions; vp_assert(!r.empty(),"at least one region"); uint64_t at=0; vp_assert(r.size()<=(size_t)parts,"number of regions");
  for(size_t i=0;i<r.size()&&i<(size_t)parts;i++){ vp_assert(r[i].idx_st==at,"regions contiguous from shell 0"); vp_assert(r[i].idx_st<r[i].idx_en,"regions non-empty"); vp_assert(r[i].idx_en<=n,"regions within the radial range"); vp_assert(r[i].angular_quad==AQ[FI],"angular family carried over");
    // every shell of the region has the documented size: first and last shell decide, edges are monotone and sizes constant in between
    uint64_t q=vp_u64(nm("shell",i)); if(vp_is_symbolic_run()) vp_assume(q>=r[i].idx_st&&q<r[i].idx_en); else if(!(q>=r[i].idx_st&&q<r[i].idx_en)) q=r[i].idx_st; uint64_t want= q<edge[0]? sz[0]: q<edge[1]? sz[1]: sz[2]; vp_assert(r[i].angular_size==want,"angular size of a shell"); at=r[i].idx_en; }
  vp_assert(at==n,"regions cover every shell"); if(r.size()==3) vp_reach("three regions"); if(r.size()<3) vp_reach("fewer regions"); }
static int64_t scheme(){ return vp_pin(vp_int("k",0,3)); }
static uint64_t rsize(){ uint64_t n=vp_u64("n"); vp_assume(n>=1&&n<=(1ull<<40)); return n; }
struct In { uint64_t n,a; int64_t k,ord; double R,al; std::unique_ptr<RadialTraits> t; };
static In input(bool all){ In i; i.k=all?scheme():vp_param("SCHEME",3); i.n=rsize(); i.R=vp_real("R",0.0009765625,1024); i.al=vp_real("alpha",0,2); i.a=vp_u64("asz"); i.t=traits(i.k,i.n,i.R,i.al); return i; }
static UnprunedSphericalGridSpecification unp(const In& i){ return UnprunedSphericalGridSpecification(RQ[i.k],*i.t,AQ[FI],i.a); }
// number of shells up to and including shell n/d : floor(n/d)+1
static uint64_t upto(uint64_t n,uint64_t d){ return n/d+1; }
static void robust(const In& in,const PrunedSphericalGridSpecification& s,int64_t ord){ uint64_t e[2]={upto(in.n,4),upto(in.n,2)}; uint64_t sz[3]={sized(7),ord>6?sized(ord-6):in.a,in.a}; common(s,in.k,*in.t); regions(s,in.n,e,sz,3); }
static void treutler(const In& in,const PrunedSphericalGridSpecification& s){ uint64_t e[2]={upto(in.n,3),upto(in.n,2)}; uint64_t sz[3]={sized(7),sized(11),in.a}; common(s,in.k,*in.t); regions(s,in.n,e,sz,3); }
static void unpruned(const In& in,const PrunedSphericalGridSpecification& s){ common(s,in.k,*in.t); vp_assert(s.pruning_regions.size()==1,"one region"); if(s.pruning_regions.size()!=1) return; auto&r=s.pruning_regions[0]; vp_assert(r.idx_st==0&&r.idx_en==in.n,"the region covers every shell"); vp_assert(r.angular_quad==AQ[FI]&&r.angular_size==in.a,"requested angular grid"); vp_reach("unpruned"); }
static void supported(In& in){ in.ord=FT::algebraic_order_by_npts((int64_t)in.a); vp_assume(in.ord>=0&&in.a<100000); in.a=vp_pin(in.a); in.ord=vp_pin(in.ord); }
extern "C" void ENTRY(c14_robust)(){ In in=input(false); supported(in); auto s=robust_psi4_pruning_scheme(unp(in)); robust(in,s,in.ord); }
extern "C" void ENTRY(c14_treutler)(){ In in=input(false); in.ord=FT::algebraic_order_by_npts((int64_t)in.a); vp_assume(in.ord>=0&&in.a<100000); auto s=treutler_pruning_scheme(unp(in)); treutler(in,s); }
// every radial scheme, through the dispatcher, for one mid-size and one small angular grid
extern "C" void ENTRY(c14_create)(){ In in=input(true); int64_t big=vp_pin(vp_int("big",0,1)); int64_t o=smallest(big?29:3); in.a=sized(o); in.ord=o; int64_t p=vp_pin(vp_int("scheme",0,2)); if(p==0) unpruned(in,create_pruned_spec(PruningScheme::Unpruned,unp(in))); if(p==1) robust(in,create_pruned_spec(PruningScheme::Robust,unp(in)),in.ord); if(p==2) treutler(in,create_pruned_spec(PruningScheme::Treutler,unp(in))); }
// unpruned: any requested size at all is carried over
extern "C" void ENTRY(c14_unpruned)(){ In in=input(true); unpruned(in,create_pruned_spec(PruningScheme::Unpruned,unp(in))); }
extern "C" void ENTRY(c14_reject)(){ In in=input(false); int64_t ord=FT::algebraic_order_by_npts((int64_t)in.a); vp_assume(ord<0); bool viaspec=vp_pin(vp_int("via",0,1)); vp_assert(throws([&]{ if(viaspec) create_pruned_spec(PruningScheme::Robust,unp(in)); else robust_psi4_pruning_scheme(unp(in)); }),"unsupported angular size is rejected"); vp_reach("rejected"); }
