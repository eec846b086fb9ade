// C13: batching partitions the grid; C21: access to batches
#include "sph.h"
#include <integratorxx/batch/spherical_micro_batcher.hpp>
#include <integratorxx/quadratures/radial/muraknowles.hpp>
#include <integratorxx/quadratures/s2/lebedev_laikov.hpp>
using namespace vpq;
typedef SphericalMicroBatcher<std::vector<P3>,std::vector<double>> MB;
static SQ mkgrid(const std::vector<P3>& P,const std::vector<double>& W){ return SQ(Rad({1.0},{1.0}),Ang(P,W)); }
static std::vector<Pt> rows(const std::vector<P3>& P,const std::vector<double>& W){ std::vector<Pt> o; for(size_t i=0;i<P.size();i++){ Pt t; for(int k=0;k<3;k++) t.v[k]=P[i][k]; t.v[3]=W[i]; o.push_back(t); } return o; }
static void checkbatches(MB& b,const std::vector<Pt>& want,uint64_t mx){ size_t n=want.size(),nb=b.nbatches(); vp_assert(b.npts()==n&&b.points().size()==n&&b.weights().size()==n,"number of points"); vp_assert(nb>=1&&nb<=n,"number of batches"); if(!(nb>=1&&nb<=n)||b.npts()!=n) return;
  std::vector<Pt> got; size_t cnt=0; for(auto it=b.begin();it!=b.end();++it){ auto t=it.range(); size_t k=std::get<0>(t); vp_assert(k>=1,"batches non-empty"); vp_assert(k<=mx,"batch within the maximum size"); if(k>n) return; auto pb=std::get<1>(t); auto wb=std::get<3>(t); vp_assert((size_t)(pb-b.points().begin())==got.size()&&(size_t)(wb-b.weights().begin())==got.size(),"batches consecutive"); for(size_t i=0;i<k&&got.size()<n;i++){ Pt p; for(int c=0;c<3;c++) p.v[c]=pb[i][c]; p.v[3]=wb[i]; got.push_back(p); } if(++cnt>n) break; }
  vp_assert(cnt==nb,"iteration visits every batch"); vp_assert(got.size()==n,"batches cover the grid"); if(got.size()==n) vp_multiset(&got[0].v[0],&want[0].v[0],n,4,"every point exactly once with its weight"); }
static uint64_t maxsize(){ uint64_t m=vp_u64("max"); vp_assume(m>=1); return m; }
// lattice coordinates: multiples of 72 so that the first subdivisions stay exact in double arithmetic
static std::vector<P3> lattice(int64_t n,int dims,int64_t lo,int64_t hi){ std::vector<P3> P; for(int64_t i=0;i<n;i++){ P3 p{0,0,0}; for(int k=0;k<dims;k++) p[k]=vp_lat(nm("p",i,k),lo,hi,72); P.push_back(p); } return P; }
static void run(int dims){ int64_t n=vp_pin(vp_int("n",1,vp_param("N",3))); auto P=lattice(n,dims,vp_param("LO",0),vp_param("HI",5)); auto W=reals("w",n,-4,4); uint64_t mx=maxsize(); auto want=rows(P,W); SQ q=mkgrid(P,W);
  MB b(mx,q); vp_assert(b.max_batch_size()==mx,"maximum size kept"); checkbatches(b,want,mx); if(b.nbatches()>1) vp_reach("several batches"); if(b.nbatches()==1) vp_reach("one batch");
  // the batched original is untouched when passed by reference
  vp_assert(q.npts()==(size_t)n,"source grid size"); for(int64_t i=0;i<n&&q.npts()==(size_t)n;i++){ for(int k=0;k<3;k++) vp_same(q.points()[i][k],P[i][k],"source grid unchanged"); vp_same(q.weights()[i],W[i],"source grid unchanged"); } }
extern "C" void c13_line(){ run(1); }
extern "C" void c13_plane(){ run(2); }
extern "C" void c13_space(){ run(3); }
// all points coincide (any real position), any size limit
extern "C" void c13_coincident(){ int64_t n=vp_pin(vp_int("n",1,vp_param("N",6))); P3 c=real3("c",-4,4); std::vector<P3> P(n,c); auto W=reals("w",n,-4,4); uint64_t mx=maxsize(); MB b(mx,mkgrid(P,W)); checkbatches(b,rows(P,W),mx); vp_assert(b.nbatches()>=(n+std::min<uint64_t>(mx,n)-1)/std::min<uint64_t>(mx,n),"enough batches"); vp_reach("coincident"); }
// clusters: two sites with arbitrary multiplicities on a line, around and away from the origin
extern "C" void c13_clusters(){ int64_t a=vp_pin(vp_int("a",0,vp_param("N",4))),b=vp_pin(vp_int("b",1,vp_param("N",4))); int64_t lo=vp_param("LO",-3),hi=vp_param("HI",3); double x=vp_lat("x",lo,hi,72),y=vp_lat("y",lo,hi,72); std::vector<P3> P; for(int64_t i=0;i<a;i++) P.push_back(P3{x,0,0}); for(int64_t i=0;i<b;i++) P.push_back(P3{y,0,0}); auto W=reals("w",a+b,-4,4); uint64_t mx=maxsize(); auto q=std::make_shared<SQ>(mkgrid(P,W)); MB m(mx,std::static_pointer_cast<SB>(q)); checkbatches(m,rows(P,W),mx); vp_reach("clusters"); }
// larger fixed arrangements, every maximum size: several refinement rounds, boxes with and without the origin
static std::vector<P3> arrangement(int64_t kind,int64_t n){ std::vector<P3> P; for(int64_t i=0;i<n;i++){ double t=double(i); P3 p{0,0,0}; if(kind==0) p={double(i%3)-1,double(i/3%3)-1,double(i/9)-1}; else if(kind==1) p={std::ldexp(1.0,(int)(i%12)),i%2?3.0:0.0,0}; else if(kind==2) p={t*t+1,7-t,double(i*i%5)}; else if(kind==3) p={(i%2?1:-1)*std::ldexp(1.0,(int)-(i/2)),0,0}; else if(kind==4) p={double(i/4),double(i/4),i%4==3?1.0:0.0}; else if(kind==5) p={0.1*t-0.7,0.3*double(i%7)+0.1,1.0/(t+3)}; else if(kind==6){ double r=0.37*double(i/6+1); int k=i%6; p[k/2]=(k%2?-1:1)*r; p[(k/2+1)%3]+=0.11; } else p={0.1*double(i%4),1e-3*double(i/4%3),7e5+0.7*double(i)}; P.push_back(p); } return P; }
extern "C" void c13_many(){ int64_t kind=vp_pin(vp_int("kind",0,7)); int64_t N=vp_param("N",12); int64_t n=vp_pin(vp_int("n",5,N+vp_param("BIG",0))); static const int64_t big[]={33,64,65,127,129,200,257,300,400,513}; if(n>N) n=big[n-N-1]; auto P=arrangement(kind,n); std::vector<double> W; for(int64_t i=0;i<n;i++) W.push_back(0.25+i); uint64_t mx=maxsize(); MB b(mx,mkgrid(P,W)); checkbatches(b,rows(P,W),mx); if(b.nbatches()>=5) vp_reach("five batches"); }
// real atomic grids (radial rule times Lebedev-Laikov rule, and pruned ones), at the origin and away from it
extern "C" void c13_atomic(){ int64_t k=vp_pin(vp_int("grid",0,vp_param("GRIDS",6)-1)); P3 c{0,0,0}; if(k%2) c=P3{1.25,-0.5,3}; int64_t nr=k<2?10: k<4?50: 20; int64_t na=k<2?110: k<4?14: 110; uint64_t mx=maxsize(); 
  auto go=[&](auto& q){ std::vector<P3> P; std::vector<double> W; for(auto&p:q.points()) P.push_back(p); for(auto w:q.weights()) W.push_back(w); MB b(mx,q); checkbatches(b,rows(P,W),mx); auto z=b.quadrature().center(); for(int i=0;i<3;i++) vp_same(z[i],c[i],"centre of the batched grid"); if(b.nbatches()>=5) vp_reach("five batches"); };
  MuraKnowles<double,double> rq((size_t)nr,1.0); LebedevLaikov<double> aq(na);
  if(k<4){ SphericalQuadrature<MuraKnowles<double,double>,LebedevLaikov<double>> q(rq,aq,c); go(q); } else { RadialGridPartition<LebedevLaikov<double>> g(rq,0,LebedevLaikov<double>(6),8,LebedevLaikov<double>(na),13,LebedevLaikov<double>(14)); PrunedSphericalQuadrature<MuraKnowles<double,double>,LebedevLaikov<double>> q(rq,g,c); go(q); } }
extern "C" void c13_zero(){ int64_t n=vp_pin(vp_int("n",1,3)); auto P=reals3("p",n,-4,4); auto W=reals("w",n,-4,4); vp_assert(throws([&]{ MB b((size_t)0,mkgrid(P,W)); }),"maximum size zero is rejected"); vp_reach("rejected"); }
// ---------------------------------------------------------------- C21
static void box(const P3& lo,const P3& up,const std::vector<P3>& p){ for(int k=0;k<3;k++){ bool l=false,u=false; for(auto&x:p){ vp_assert(lo[k]<=x[k]&&x[k]<=up[k],"box contains the batch"); l=l||lo[k]==x[k]; u=u||up[k]==x[k]; } vp_assert(l&&u,"box is tight"); } }
template<class T> static void batch(const T& t,const std::vector<P3>& P,const std::vector<double>& W,size_t b,size_t e,const P3& sh,const char* id){ auto&p=std::get<2>(t); auto&w=std::get<3>(t); vp_assert(p.size()==e-b&&w.size()==e-b,"batch size"); if(p.size()!=e-b||w.size()!=e-b) return; for(size_t i=b;i<e;i++){ for(int k=0;k<3;k++) vp_eq(p[i-b][k],P[i][k]+sh[k],id); vp_eq(w[i-b],W[i],id); } box(std::get<0>(t),std::get<1>(t),p); }
struct S { int64_t n; std::vector<size_t> idx; std::vector<P3> P; std::vector<double> W; };
static S setup(int dims){ S s; s.n=vp_pin(vp_int("n",1,vp_param("N",3))); int64_t mask=vp_pin(vp_int("cuts",0,(1<<(s.n-1))-1)); s.idx={0}; for(int64_t i=1;i<s.n;i++) if(mask>>(i-1)&1) s.idx.push_back(i); s.idx.push_back(s.n); for(int64_t i=0;i<s.n;i++){ P3 p{0,double(i%2),double(i*i%3)}; for(int k=0;k<dims;k++) p[k]=vp_real(nm("p",i,k),-4,4); s.P.push_back(p); } s.W=reals("w",s.n,-4,4); return s; }
static const P3 Z{0,0,0};
extern "C" void c21_iterate(){ S s=setup(vp_param("DIMS",2)); MB b((size_t)s.n,mkgrid(s.P,s.W),s.idx); size_t nb=s.idx.size()-1; vp_assert(b.nbatches()==nb,"number of batches"); vp_assert(b.npts()==(size_t)s.n,"number of points"); size_t k=0; for(auto it=b.begin();it!=b.end()&&k<nb;++it,++k) batch(*it,s.P,s.W,s.idx[k],s.idx[k+1],Z,"iteration delivers the points in order"); vp_assert(k==nb,"iteration visits every batch"); 
  auto it=b.begin(); for(k=0;k<nb;k++) batch(*it++,s.P,s.W,s.idx[k],s.idx[k+1],Z,"post-increment iteration"); vp_assert(it==b.end(),"ends after the last batch"); if(nb==3) vp_reach("three batches"); vp_reach("iterated"); }
extern "C" void c21_at(){ S s=setup(1); MB b((size_t)s.n,mkgrid(s.P,s.W),s.idx); const MB& cb=b; size_t nb=s.idx.size()-1; uint64_t i=vp_u64("i"); bool th=false,tc=false;
  try{ auto t=b.at(i); i=vp_pin(i); if(i<nb) batch(t,s.P,s.W,s.idx[i],s.idx[i+1],Z,"at(i)"); }catch(const std::exception&){ th=true; } try{ auto t=cb.at(i); i=vp_pin(i); if(i<nb) batch(t,s.P,s.W,s.idx[i],s.idx[i+1],Z,"const at(i)"); }catch(const std::exception&){ tc=true; }
  vp_assert(th==(i>=nb),"at(i) raises exactly beyond the last batch"); vp_assert(tc==(i>=nb),"const at(i) raises exactly beyond the last batch"); if(th) vp_reach("beyond"); else vp_reach("within"); }
extern "C" void c21_const(){ S s=setup(2); const MB b((size_t)s.n,mkgrid(s.P,s.W),s.idx); size_t nb=s.idx.size()-1; auto it=b.cbegin(); for(size_t k=0;k<nb;k++,++it) batch(*it,s.P,s.W,s.idx[k],s.idx[k+1],Z,"const iteration"); vp_assert(it.idx_it==b.cend().idx_it,"const end");
  vp_assert(b.nbatches()==nb&&b.npts()==(size_t)s.n,"sizes"); for(int64_t i=0;i<s.n;i++){ vp_same(b.points()[i][0],s.P[i][0],"points()"); vp_same(b.weights()[i],s.W[i],"weights()"); vp_same(b.quadrature().points()[i][1],s.P[i][1],"quadrature()"); } }
static void whole(MB& b,const S& s,const std::vector<P3>& P,const P3& sh,const char*id){ size_t nb=s.idx.size()-1; vp_assert(b.nbatches()==nb,"number of batches"); if(b.nbatches()!=nb) return; size_t k=0; for(auto it=b.begin();it!=b.end()&&k<nb;++it,++k) batch(*it,P,s.W,s.idx[k],s.idx[k+1],sh,id); vp_assert(k==nb,"iteration visits every batch"); }
extern "C" void c21_clone(){ S s=setup(1); uint64_t mx=vp_u64("max"); vp_assume(mx>=1); MB b(mx,mkgrid(s.P,s.W),s.idx); MB c=b.clone(); vp_assert(c.max_batch_size()==mx,"clone keeps the maximum size"); vp_assert(&c.quadrature()!=&b.quadrature(),"clone owns its grid"); whole(c,s,s.P,Z,"clone has the same batches");
  int64_t side=vp_pin(vp_int("side",0,2)); P3 t=real3("t",-4,4); if(side==0){ c.recenter(t); whole(b,s,s.P,Z,"original unaffected by the clone"); whole(c,s,s.P,t,"moved clone"); } else if(side==1){ b.recenter(t); whole(c,s,s.P,Z,"clone unaffected by the original"); whole(b,s,s.P,t,"moved original"); } else { c.points()[0][0]+=1; c.weights()[0]+=1; whole(b,s,s.P,Z,"original unaffected by editing the clone"); } vp_reach("cloned"); }
extern "C" void c21_recenter(){ S s=setup(1); MB b((size_t)s.n,mkgrid(s.P,s.W),s.idx); P3 t=real3("t",-4,4),u=real3("u",-4,4); b.recenter(t); whole(b,s,s.P,t,"moved batches"); auto z=b.quadrature().center(); for(int k=0;k<3;k++) vp_eq(z[k],t[k],"centre"); b.recenter(u); whole(b,s,s.P,u,"moved twice"); vp_reach("moved"); }
// batches produced by the batcher itself, seen through every access path
extern "C" void c21_generated(){ int64_t n=vp_pin(vp_int("n",1,vp_param("N",3))); auto P=lattice(n,1,-2,3); auto W=reals("w",n,-4,4); uint64_t mx=maxsize(); MB b(mx,mkgrid(P,W)); const MB& cb=b; size_t k=0,o=0; auto cit=cb.cbegin(); for(auto it=b.begin();it!=b.end()&&k<(size_t)n;++it,++cit,++k){ auto t=*it; size_t m=std::get<2>(t).size(); if(o+m>(size_t)n){ vp_fail("more points than the grid"); return; } std::vector<P3> PP(b.points().begin(),b.points().end()); std::vector<double> WW(b.weights().begin(),b.weights().end()); batch(t,PP,WW,o,o+m,Z,"storage order"); batch(b.at(k),PP,WW,o,o+m,Z,"at agrees"); batch(cb.at(k),PP,WW,o,o+m,Z,"const at agrees"); batch(*cit,PP,WW,o,o+m,Z,"const iteration agrees"); o+=m; } vp_assert(o==(size_t)n,"batches cover the grid"); vp_assert(k==b.nbatches(),"iteration visits every batch"); vp_reach("generated"); }
// many batches, large batches: fixed coordinates, arbitrary weights
static S large(){ S s; int64_t k=vp_pin(vp_int("shape",0,4)); s.n=k==0?120: k==1?130: k==2?150: k==3?257: 99; if(k==0) for(int64_t i=0;i<=s.n;i++) s.idx.push_back(i); else if(k==1) for(int64_t i=0;i<=s.n;i+=2) s.idx.push_back(i); else if(k==2) s.idx={0,1,2,66,67,149,150}; else if(k==3) s.idx={0,257}; else for(int64_t i=0;i<=s.n;i+=11) s.idx.push_back(i); s.P=arrangement(2+k,s.n); s.W=reals("w",s.n,-4,4); return s; }
extern "C" void c21_large(){ S s=large(); uint64_t mx=vp_u64("max"); vp_assume(mx>=1); MB b(mx,mkgrid(s.P,s.W),s.idx); const MB& cb=b; size_t nb=s.idx.size()-1; whole(b,s,s.P,Z,"iteration delivers the points in order"); auto cit=cb.cbegin(); for(size_t k=0;k<nb;k++,++cit) batch(*cit,s.P,s.W,s.idx[k],s.idx[k+1],Z,"const iteration"); vp_assert(cit.idx_it==cb.cend().idx_it,"const end");
  uint64_t i=vp_u64("i"); bool th=false; try{ auto t=b.at(i); i=vp_pin(i); if(i<nb){ batch(t,s.P,s.W,s.idx[i],s.idx[i+1],Z,"at(i)"); auto u=cb.at(i); batch(u,s.P,s.W,s.idx[i],s.idx[i+1],Z,"const at(i)"); } }catch(const std::exception&){ th=true; } vp_assert(th==(i>=nb),"at(i) raises exactly beyond the last batch"); if(th) vp_reach("beyond"); else vp_reach("large"); }
extern "C" void c21_large_move(){ S s=large(); MB b((size_t)s.n,mkgrid(s.P,s.W),s.idx); MB c=b.clone(); P3 t{0.5,-0.25,vp_real("t",-4,4)}; whole(c,s,s.P,Z,"clone has the same batches"); c.recenter(t); whole(b,s,s.P,Z,"original unaffected by the clone"); whole(c,s,s.P,t,"moved clone"); vp_reach("moved"); }
