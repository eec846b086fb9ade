// C03: exactly the sizes a family provides can be constructed
#include "s2fam.h"
#include "s2sizes.h"
extern "C" void ENTRY(c03)(){ uint64_t n=vp_u64("n"); int64_t o=FT::algebraic_order_by_npts((int64_t)n); bool sup=o>=0;
  bool th=false; size_t m=0; double ws=0;
  try{ Fam q((size_t)n); m=q.npts(); for(auto w:q.weights()) ws+=w; }catch(const std::exception&){ th=true; }
  if(sup){ vp_assert(!th,"supported size raises"); if(!th){ vp_assert(m==n,"size of the result"); vp_assert(ws>1,"a supported size gives a real grid"); } vp_reach("supported"); }
  else { vp_assert(th,"unsupported size does not raise"); vp_reach("unsupported"); } }
// the published sizes of the family stay available
extern "C" void ENTRY(c03_pub)(){ int64_t i=vp_int("i",0,(int64_t)(sizeof(s2sizes)/sizeof(*s2sizes))-1); i=vp_pin(i); int64_t n=s2sizes[i]; bool th=false; try{ Fam q((size_t)n); }catch(const std::exception&){ th=true; } vp_assert(!th,"published size raises"); vp_assert(FT::algebraic_order_by_npts(n)>=0,"published size has an order"); }
