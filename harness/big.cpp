// rules and grids of more than 65536 elements: contents fixed and decodable, a few elements arbitrary reals
#include "sph.h"
#include <integratorxx/composite_quadratures/sub_quadrature.hpp>
#include <integratorxx/batch/spherical_micro_batcher.hpp>
using namespace vpq;
typedef SphericalMicroBatcher<std::vector<P3>,std::vector<double>> MB;
// radius i+1, direction (1,j/1024,0): point (i,j) decodes from x and y; weights 1+i/4 and 1+j/8; s is the arbitrary weight of direction 0
static std::vector<double> radii(int64_t n){ std::vector<double> v(n); for(int64_t i=0;i<n;i++) v[i]=double(i+1); return v; }
static std::vector<double> rw(int64_t n){ std::vector<double> v(n); for(int64_t i=0;i<n;i++) v[i]=1+0.25*double(i); return v; }
static std::vector<P3> dirs(int64_t b,int64_t n){ std::vector<P3> v(n); for(int64_t j=0;j<n;j++) v[j]=P3{1.0,double(b+j)/1024,0.0}; return v; }
static std::vector<double> aw(int64_t b,int64_t n,double s){ std::vector<double> v(n); for(int64_t j=0;j<n;j++) v[j]=1+0.125*double(b+j); if(!b) v[0]=s; return v; }
// every (shell, direction) once: dirs of shell i are [lo(i),lo(i)+cnt(i))
template<class Q,class L,class C> static void decode(const Q& q,int64_t nr,int64_t total,double s,const P3& c,L lo,C cnt){ vp_assert(q.npts()==(size_t)total&&q.points().size()==(size_t)total&&q.weights().size()==(size_t)total,"number of points"); if(q.points().size()!=(size_t)total||q.weights().size()!=(size_t)total) return;
  std::vector<int64_t> off(nr+1,0); for(int64_t i=0;i<nr;i++) off[i+1]=off[i]+cnt(i); std::vector<char> seen(total,0); bool okp=true,okw=true; auto& P=q.points(); auto& W=q.weights();
  for(int64_t k=0;k<total;k++){ double x=P[k][0]-c[0]; double y=P[k][1]-c[1]; if(!(x>=1&&x<=double(nr))){ okp=false; break; } int64_t i=int64_t(x)-1; double t=y*1024; double jj=t/x; if(!(jj>=0&&jj<1e6)){ okp=false; break; } int64_t j=int64_t(jj); if(double(i+1)!=x||double(j)*x!=t||j<lo(i)||j>=lo(i)+cnt(i)){ okp=false; break; } char& f=seen[off[i]+j-lo(i)]; if(f){ okp=false; break; } f=1;
    if(j==0){ vp_eq(W[k],(1+0.25*double(i))*(x*x)*s,"weights"); } else if(W[k]!=(1+0.25*double(i))*(1+0.125*double(j))*(x*x)) okw=false; if(k%4096==0||k>=total-2) vp_eq(P[k][2],c[2],"points"); }
  vp_assert(okp,"every combination exactly once"); vp_assert(okw,"weight of every combination"); auto z=q.center(); for(int k=0;k<3;k++) vp_eq(z[k],c[k],"centre"); }
static P3 cen(){ return P3{-5.0,17.0,vp_real("cz",-4,4)}; }
extern "C" void c10_big(){ int64_t k=vp_pin(vp_int("shape",0,2)),nr=k==0?260: k==1?3: 66000,na=k==0?260: k==1?22000: 1; double s=vp_real("s",-4,4); P3 c=cen(); Rad rq(radii(nr),rw(nr)); Ang aq(dirs(0,na),aw(0,na,s)); SQ q(rq,aq,c); decode(q,nr,nr*na,s,c,[](int64_t){ return int64_t(0); },[&](int64_t){ return na; }); vp_reach("big"); }
extern "C" void c11_big(){ int64_t k=vp_pin(vp_int("shape",0,3)); double s=vp_real("s",-4,4); P3 c=cen(); int64_t nr=k==3?700: k==2?66000: 90; Rad rq(radii(nr),rw(nr)); RGP g; std::vector<int64_t> st,na; if(k==0){ st={0,20,50}; na={10,500,1400}; } else if(k==1){ st={0,1,89}; na={66000,3,5}; } else if(k==2){ st={0,65540,65999}; na={1,2,7}; } else for(int64_t i=0;i<nr;i++){ st.push_back(i); na.push_back(1+i%11); }
  for(size_t i=0;i<st.size();i++) g.add_quad(rq,st[i],Ang(dirs(0,na[i]),aw(0,na[i],s))); g.finalize(rq); PQ q(rq,g,c); std::vector<int64_t> of(nr); for(int64_t i=0,r=0;i<nr;i++){ while(r+1<(int64_t)st.size()&&st[r+1]<=i) r++; of[i]=na[r]; } auto cnt=[&](int64_t i){ return of[i]; }; int64_t total=0; for(int64_t i=0;i<nr;i++) total+=cnt(i); decode(q,nr,total,s,c,[](int64_t){ return int64_t(0); },cnt); vp_reach("big"); }
template<class Q> static void moved(Q& q,int64_t nr,int64_t total,double s,const P3& c,int64_t na){ auto L=[](int64_t){ return int64_t(0); }; auto C=[&](int64_t){ return na; }; P3 d{3.0,-2.0,vp_real("dz",-4,4)},e{8.0,1.0,vp_real("ez",-4,4)}; auto cl=q.clone(); Q k(q); q.recenter(d); decode(q,nr,total,s,d,L,C); decode(*cl,nr,total,s,c,L,C); cl->recenter(e); decode(*cl,nr,total,s,e,L,C); decode(k,nr,total,s,c,L,C); Q m(std::move(k)); decode(m,nr,total,s,c,L,C); vp_reach("big"); }
extern "C" void c12_big(){ bool pr=vp_pin(vp_int("pruned",0,1)); int64_t nr=300,na=221; double s=vp_real("s",-4,4); P3 c=cen(); Rad rq(radii(nr),rw(nr)); Ang aq(dirs(0,na),aw(0,na,s)); if(pr){ RGP g(rq,0,aq); PQ q(rq,g,c); moved(q,nr,nr*na,s,c,na); } else { SQ q(rq,aq,c); moved(q,nr,nr*na,s,c,na); } }
// batches of a large grid: every limit of a list, fixed lattice of points
extern "C" void c13_big(){ int64_t n=66000; std::vector<P3> P(n); std::vector<double> W(n); for(int64_t i=0;i<n;i++){ P[i]=P3{double(i%41)-20,double(i/41%41)-20,double(i/1681)-20}; W[i]=double(i+1); } static const uint64_t lim[]={100000,66000,65999,65536,30000,1000}; uint64_t mx=lim[vp_pin(vp_int("limit",0,vp_param("LIMITS",6)-1))]; MB b(mx,SQ(Rad({1.0},{1.0}),Ang(P,W)));
  vp_assert(b.npts()==(size_t)n&&b.points().size()==(size_t)n&&b.weights().size()==(size_t)n,"number of points"); if(b.npts()!=(size_t)n) return; size_t nb=b.nbatches(),at=0,cnt=0; bool ok=true,box=true; for(auto it=b.begin();it!=b.end()&&ok;++it){ auto t=it.range(); size_t m=std::get<0>(t); if(m<1||m>mx||at+m>(size_t)n||(size_t)(std::get<1>(t)-b.points().begin())!=at||(size_t)(std::get<3>(t)-b.weights().begin())!=at||++cnt>nb) ok=false; at+=m; } vp_assert(ok&&at==(size_t)n&&cnt==nb,"consecutive non-empty batches within the limit cover the grid");
  std::vector<char> seen(n,0); bool once=true; for(int64_t k=0;k<n;k++){ double w=b.weights()[k]; int64_t i=w>=1&&w<=double(n)? int64_t(w)-1: -1; if(i<0||seen[i]||b.points()[k]!=P[i]){ once=false; break; } seen[i]=1; } vp_assert(once,"every point exactly once with its weight"); (void)box; vp_reach("big"); }
// indexed access, slices, copies
extern "C" void c20_big(){ int64_t n=66000; std::vector<double> p(n),w(n); for(int64_t i=0;i<n;i++){ p[i]=double(i); w[i]=double(-i); } double x=vp_real("x",-8,8); static const int64_t at[]={0,255,256,32767,32768,65534,65535,65536,65537,65999}; int64_t e=at[vp_pin(vp_int("edit",0,9))]; p[e]=x; w[e]=x+1; Rad q(p,w); vp_assert(q.npts()==(size_t)n&&q.points().size()==(size_t)n&&q.weights().size()==(size_t)n,"storage size");
  for(int64_t k:at){ vp_same(q.points(k),k==e?x:double(k),"points(i) value"); vp_same(q.weights(k),k==e?x+1:double(-k),"weights(i) value"); } uint64_t i=vp_u64("i"); vp_assume(i>=(uint64_t)n); vp_assert(throws([&]{ q.points(i); }),"points(i) throws out of range"); vp_assert(throws([&]{ q.weights(i); }),"weights(i) throws out of range"); vp_reach("big"); }
extern "C" void c20_subbig(){ int64_t n=66000; std::vector<double> p(n),w(n); for(int64_t i=0;i<n;i++){ p[i]=double(i); w[i]=double(-i); } double x=vp_real("x",-8,8); p[65536]=x; static const int64_t at[]={0,1,65535,65536,65537,66000}; int64_t b=at[vp_pin(vp_int("b",0,4))],e=at[vp_pin(vp_int("e",1,5))]; vp_assume(b<e); Rad q(p,w); SubQuadrature<Rad> s(std::pair<size_t,size_t>(b,e),q); vp_assert(s.npts()==(size_t)(e-b)&&s.points().size()==(size_t)(e-b)&&s.weights().size()==(size_t)(e-b),"storage size"); if(s.points().size()!=(size_t)(e-b)||s.weights().size()!=(size_t)(e-b)) return;
  bool ok=true; for(int64_t i=b;i<e;i++){ if(i==65536) vp_same(s.points()[i-b],x,"slice"); else if(s.points()[i-b]!=double(i)) ok=false; if(s.weights()[i-b]!=double(-i)) ok=false; } vp_assert(ok,"slice"); vp_assert(q.npts()==(size_t)n,"parent unchanged"); vp_reach("big"); }
extern "C" void c21_big(){ int64_t n=66000; std::vector<P3> P(n); std::vector<double> W(n); for(int64_t i=0;i<n;i++){ P[i]=P3{double(i),double(i%7),double(-i)}; W[i]=double(i+1); } double s=vp_real("s",-8,8); W[65537]=s; int64_t k=vp_pin(vp_int("division",0,2)); std::vector<size_t> ix{0}; if(k==0){ ix.push_back(65536); ix.push_back(65538); } else if(k==1){ for(int64_t i=1;i<n;i++) ix.push_back(i); } else for(int64_t i=3;i<n;i+=3) ix.push_back(i); if(ix.back()!=(size_t)n) ix.push_back(n); size_t nb=ix.size()-1; MB b((size_t)n,SQ(Rad({1.0},{1.0}),Ang(P,W)),ix); const MB& cb=b; vp_assert(b.nbatches()==nb,"number of batches");
  auto is=[&](const auto& t,size_t g){ auto& tp=std::get<2>(t); auto& tw=std::get<3>(t); size_t st=ix[g],m=ix[g+1]-st; if(tp.size()!=m||tw.size()!=m) return false; for(size_t j=0;j<m;j++){ if(tp[j]!=P[st+j]) return false; if(st+j==65537) vp_same(tw[j],s,"weight"); else if(tw[j]!=W[st+j]) return false; } auto lo=std::get<0>(t),up=std::get<1>(t); return lo[0]==double(st)&&up[0]==double(st+m-1)&&up[2]==-double(st)&&lo[2]==-double(st+m-1); };
  size_t g=0; bool ok=true; for(auto it=b.begin();it!=b.end()&&g<nb&&ok;++it,++g) if(nb<30000||g%61==0||g+70>nb||(g>65500&&g<65560)) ok=is(*it,g); vp_assert(ok&&g==nb,"iteration"); for(size_t h:{size_t(0),nb/2,size_t(21845),size_t(65534),size_t(65535),size_t(65536),size_t(65537),nb-1}) if(h<nb) vp_assert(is(b.at(h),h)&&is(cb.at(h),h),"at(i)"); uint64_t i=vp_u64("i"); vp_assume(i>=nb); vp_assert(throws([&]{ b.at(i); })&&throws([&]{ cb.at(i); }),"beyond the last batch"); vp_reach("big"); }
extern "C" void c23_huge(){ int64_t n=66000; std::vector<double> p(n),w(n); for(int64_t i=0;i<n;i++){ p[i]=double(i); w[i]=double(-i); } double x=vp_real("x",-8,8); p[65537]=x; Rad q(p,w); auto is=[&](const Rad& r,double y,double z){ if(r.npts()!=(size_t)n||r.points().size()!=(size_t)n||r.weights().size()!=(size_t)n) return false; for(int64_t i=0;i<n;i++){ if(i==65537) vp_same(r.points()[i],y,"content"); else if(r.points()[i]!=double(i)) return false; if(i==65999){ vp_same(r.weights()[i],z,"content"); } else if(r.weights()[i]!=double(-i)) return false; } return true; };
  Rad c(q); vp_assert(is(c,x,-65999.0),"copy"); double y=vp_real("y",-8,8); c.points()[65537]=y; c.weights_data()[65999]=y; vp_assert(is(q,x,-65999.0),"source of the copy"); Rad m(std::move(c)); vp_assert(is(m,y,y),"moved"); std::vector<Rad> v; v.push_back(q); v.push_back(m); v.push_back(m); v.push_back(q); v.push_back(q); vp_assert(is(v[0],x,-65999.0)&&is(v[2],y,y)&&is(v[4],x,-65999.0),"container"); vp_reach("big"); }
struct Op { P3 operator()(const double& x,const P3& y) const { return {x*y[0],x-y[1],y[2]}; } double operator()(const double& x,const double& y) const { return 1024*x-y; } };
extern "C" void c26_big(){ int64_t k=vp_pin(vp_int("shape",0,2)),n1=k==0?260: k==1?66000: 1,n2=k==0?255: k==1?1: 66000; std::vector<double> p(n1),w(n1),v(n2); std::vector<P3> d(n2); for(int64_t i=0;i<n1;i++){ p[i]=double(i+1)*131072; w[i]=double(i); } for(int64_t j=0;j<n2;j++){ d[j]=P3{1,double(j),0}; v[j]=double(j); } double z=vp_real("z",-8,8); d[n2-1][2]=z; Rad a(p,w); Ang b(d,v); auto [P,W]=quadrature_traits<ProductQuadrature<Op,Rad,Ang>>::generate(a,b); int64_t N=n1*n2; vp_assert(P.size()==(size_t)N&&W.size()==(size_t)N,"one element per pair"); if(P.size()!=(size_t)N||W.size()!=(size_t)N) return; std::vector<char> seen(N,0); bool ok=true;
  for(int64_t t=0;t<N;t++){ double x=P[t][0]/131072; if(!(x>=1&&x<=double(n1))){ ok=false; break; } int64_t i=int64_t(x)-1; double y=P[t][0]-P[t][1]; if(!(y>=0&&y<double(n2))){ ok=false; break; } int64_t j=int64_t(y); if(double(i+1)!=x||double(j)!=y||seen[i*n2+j]||W[t]!=1024*double(i)-double(j)){ ok=false; break; } seen[i*n2+j]=1; if(j==n2-1) vp_same(P[t][2],z,"third coordinate"); } vp_assert(ok,"every pair combined once"); vp_reach("big"); }
