// C02: exactness of every angular grid: for every size n and every polynomial of degree l<=order(n),
// i.e. every coefficient vector c over the orthonormal real spherical harmonics of degree l
#include "s2fam.h"
extern "C" void ENTRY(c02)(){ int64_t lo=vp_param("LO",1),hi=vp_param("HI",100000); int64_t n=vp_int("n",lo,hi); int64_t L=FT::algebraic_order_by_npts(n); vp_assume(L>=0); n=vp_pin(n); L=vp_pin(L); if(L>400){ vp_fail("implausible order"); return; }
  double tol=std::ldexp(1.0,52-vp_param("TOLB",36));
  auto pw=FT::generate(n); auto& P=std::get<0>(pw); auto& W=std::get<1>(pw);
  vp_assert(P.size()==(size_t)n,"number of points"); vp_assert(W.size()==(size_t)n,"number of weights");
  double worst=0; for(auto&p:P){ double r=std::sqrt(p[0]*p[0]+p[1]*p[1]+p[2]*p[2]); double d=std::fabs(r-1); if(!(d<=worst)) worst=d; } vp_assert(worst<=1e-14,"unit length");
  std::vector<double> mom((L+1)*(L+1)); vp_s2_moments(&P[0][0],W.data(),n,L,mom.data());
  double c[2*400+1]; for(int64_t m=0;m<=2*L;m++) c[m]=vp_real(vpq::nm("c",m),-1,1);
  // error of each moment in units u=2^-52, rounded to an integer (rounding <=u/2 each, taken off the tolerance)
  for(int64_t l=0;l<=L;l++){ double sum=0; for(int64_t m=0;m<=2*l;m++){ double e=mom[l*l+m]-(l==0?3.5449077018110320546:0); e*=4503599627370496.0; if(!(e<1e15&&e>-1e15)) e=1e15; sum+=c[m]*std::round(e); }
    char id[32]="exact degree "; int k=13; char t[8]; int q=0; int64_t v=l; do{ t[q++]='0'+v%10; v/=10; }while(v); while(q) id[k++]=t[--q]; id[k]=0;
    vp_close(sum,0,tol-(l+1),id); }
  // the class itself holds exactly this grid
  if(vp_param("CLASS",1)){ Fam q(n); vp_assert(q.npts()==(size_t)n&&q.points().size()==(size_t)n,"object size"); bool same=true; for(int64_t i=0;i<n;i++) for(int k=0;k<3;k++) same=same&&q.points()[i][k]==P[i][k]; for(int64_t i=0;i<n;i++) same=same&&q.weights()[i]==W[i]; vp_assert(same,"object holds the generated grid"); }
  vp_reach("grid"); }
