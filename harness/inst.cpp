// parts of the interface that only exist once a template is instantiated; one define per entry, so that
// one that does not compile does not hide the others
#include "sph.h"
#include <integratorxx/batch/spherical_micro_batcher.hpp>
using namespace vpq;
#ifdef SUB3
// slices of three-dimensional rules
extern "C" void c20_sub3(){ int64_t n=vp_pin(vp_int("n",1,4)); int64_t b=vp_pin(vp_int("b",0,n-1)),e=vp_pin(vp_int("e",1,n)); vp_assume(b<e); auto p=reals3("p",n,-8,8); auto w=reals("w",n,-8,8); Ang q(p,w); SubQuadrature<Ang> s(std::pair<size_t,size_t>(b,e),q); vp_assert(s.npts()==(size_t)(e-b)&&s.points().size()==(size_t)(e-b)&&s.weights().size()==(size_t)(e-b),"size of the slice"); if(s.npts()!=(size_t)(e-b)) return; for(int64_t i=b;i<e;i++){ for(int k=0;k<3;k++) vp_same(s.points(i-b)[k],p[i][k],"sub points"); vp_same(s.weights(i-b),w[i],"sub weights"); } vp_reach("slice"); }
#endif
#ifdef CITER
// iterating over a const batcher up to cend()
typedef SphericalMicroBatcher<std::vector<P3>,std::vector<double>> MB;
extern "C" void c21_citer(){ int64_t n=vp_pin(vp_int("n",1,vp_param("N",4))); int64_t mask=vp_pin(vp_int("cuts",0,(1<<(n-1))-1)); std::vector<size_t> idx{0}; for(int64_t i=1;i<n;i++) if(mask>>(i-1)&1) idx.push_back(i); idx.push_back(n); auto P=reals3("p",n,-4,4); auto W=reals("w",n,-4,4); const MB b((size_t)n,SQ(Rad({1.0},{1.0}),Ang(P,W)),idx);
  size_t k=0; for(auto it=b.cbegin(); it!=b.cend()&&k<(size_t)n; it++,k++){ auto t=it.range(); size_t m=std::get<0>(t); if(k+1<idx.size()){ vp_assert(m==idx[k+1]-idx[k],"batch size"); auto p=std::get<1>(t); auto w=std::get<3>(t); for(size_t i=idx[k];i<idx[k+1];i++){ for(int c=0;c<3;c++) vp_same((*(p+(i-idx[k])))[c],P[i][c],"batch points"); vp_same(*(w+(i-idx[k])),W[i],"batch weights"); } } }
  vp_assert(k==idx.size()-1,"const iteration visits every batch"); vp_assert(b.cbegin()==b.cbegin()&&!(b.cbegin()==b.cend()),"comparison"); vp_reach("iterated"); }
#endif
#ifdef PITER
// iterating over a grid partition (const and not, both increments)
template<class It> static void walk(It it,It en,const std::vector<size_t>& st,size_t nr,const std::vector<std::vector<P3>>& A,const std::vector<std::vector<double>>& W,bool post){ size_t k=0; while(it!=en&&k<st.size()){ if(post){ auto o=it++; vp_assert(!(o==it),"the old position is kept"); auto v=*o; vp_assert(v.first.first==st[k],"post-increment gives the old position"); if(++k==st.size()) break; continue; } auto v=*it; size_t e=k+1<st.size()?st[k+1]:nr; vp_assert(v.first.first==st[k]&&v.first.second==e,"range of the region"); auto&q=v.second; vp_assert(q.npts()==A[k].size(),"rule of the region"); if(q.npts()==A[k].size()) for(size_t i=0;i<A[k].size();i++){ for(int c=0;c<3;c++) vp_same(q.points()[i][c],A[k][i][c],"rule of the region"); vp_same(q.weights()[i],W[k][i],"rule of the region"); } ++it; ++k; } vp_assert(k==st.size()&&it==en,"every region visited"); }
extern "C" void c11_iter(){ int64_t nr=vp_pin(vp_int("nr",1,vp_param("N",4))); int64_t mask=vp_pin(vp_int("cuts",0,(1<<(nr-1))-1)); std::vector<size_t> st{0}; for(int64_t i=1;i<nr;i++) if(mask>>(i-1)&1) st.push_back(i); std::vector<std::vector<P3>> A; std::vector<std::vector<double>> W; auto r=reals("r",nr,-4,4),wr=reals("wr",nr,-4,4); Rad rq(r,wr); RGP g; for(size_t k=0;k<st.size();k++){ char p[3]={char('a'+k),'p',0},w[3]={char('a'+k),'w',0}; A.push_back(reals3(p,1+k%2,-2,2)); W.push_back(reals(w,1+k%2,-4,4)); g.add_quad(rq,st[k],Ang(A[k],W[k])); } g.finalize(rq); g.finalize(rq);
  int64_t how=vp_pin(vp_int("how",0,4)); bool post=vp_pin(vp_int("post",0,1)); RGP h; const RGP* p=&g; RGP other(rq,0,Ang(A[0],W[0])); if(how==1){ h=g; p=&h; } if(how==2){ h=g; other=std::move(h); p=&other; } if(how==3){ other=g; p=&other; } const RGP& c=*p; if(how==4) walk(g.begin(),g.end(),st,nr,A,W,post); else { walk(c.begin(),c.end(),st,nr,A,W,post); walk(c.cbegin(),c.cend(),st,nr,A,W,post); }
  auto idx=g.partition_idx(); vp_assert(idx.size()==st.size()+1&&idx.back()==(size_t)nr,"partition indices"); vp_reach("walked"); }
#endif
