// C01: size<->order lookups of every angular family, over all 64-bit arguments
#include "s2fam.h"
extern "C" void ENTRY(c01_size)(){ int64_t n=vp_int("n",INT64_MIN,INT64_MAX); int64_t o=FT::algebraic_order_by_npts(n);
  if(o>=0){ vp_assert(n>0,"supported size is positive"); vp_assert(FT::npts_by_algebraic_order(o)==n,"order of a supported size maps back to the size"); vp_assert(FT::next_algebraic_order(o)==o,"next order of a supported order is itself"); vp_reach("supported size"); } else vp_reach("unsupported size"); }
extern "C" void ENTRY(c01_order)(){ int64_t o=vp_int("o",INT64_MIN,INT64_MAX); int64_t n=FT::npts_by_algebraic_order(o);
  if(n>=0){ vp_assert(n>0,"size is positive"); vp_assert(o>=0,"supported order is non-negative"); vp_assert(FT::algebraic_order_by_npts(n)==o,"size of a supported order maps back to the order"); vp_reach("supported order"); } else vp_reach("unsupported order"); }
extern "C" void ENTRY(c01_next)(){ int64_t q=vp_int("q",INT64_MIN,INT64_MAX), m=vp_int("m",INT64_MIN,INT64_MAX); int64_t r=FT::next_algebraic_order(q); bool msup=FT::npts_by_algebraic_order(m)>=0;
  vp_assert(FT::npts_by_algebraic_order(r)>0,"next order is supported");
  if(r>=q){ if(msup) vp_assert(m<q||m>=r,"no supported order between the request and the answer"); vp_reach("answered"); }
  else { if(msup) vp_assert(m<=r,"an order below the request is returned only above the largest supported order, and is the largest"); vp_reach("above range"); } }
