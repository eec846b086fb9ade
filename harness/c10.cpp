// C10: unpruned product grids; C11: pruned grids.  Radial and angular rules are user-defined types with arbitrary contents.
#include "sph.h"
using namespace vpq;
template<class Q> static void shape(const Q& q,size_t n,const P3& c){ vp_assert(q.npts()==n&&q.points().size()==n&&q.weights().size()==n,"number of points"); auto z=q.center(); for(int k=0;k<3;k++) vp_same(z[k],c[k],"centre"); }
extern "C" void c10_product(){ int64_t N=vp_param("N",3); int64_t nr=vp_pin(vp_int("nr",1,N)),na=vp_pin(vp_int("na",1,N)); auto r=reals("r",nr,-4,4),wr=reals("wr",nr,-4,4),wa=reals("wa",na,-4,4); auto a=reals3("a",na,-2,2); P3 c=real3("c",-4,4);
  Rad rq(r,wr); Ang aq(a,wa); SQ q(rq,aq,c); shape(q,nr*na,c); std::vector<Pt> w; for(int64_t i=0;i<nr;i++) for(int64_t j=0;j<na;j++) w.push_back(pt(r[i],wr[i],a[j],wa[j],c)); same(grid(q),w,"number of points","every combination exactly once");
  vp_reach("grid"); }
// default centre is the origin; the base-class view is the same grid
extern "C" void c10_default(){ int64_t nr=vp_pin(vp_int("nr",1,2)),na=vp_pin(vp_int("na",1,2)); auto r=reals("r",nr,-4,4),wr=reals("wr",nr,-4,4),wa=reals("wa",na,-4,4); auto a=reals3("a",na,-2,2); Rad rq(r,wr); Ang aq(a,wa); P3 o{0,0,0};
  SQ q(rq,aq); shape(q,nr*na,o); std::vector<Pt> w; for(int64_t i=0;i<nr;i++) for(int64_t j=0;j<na;j++) w.push_back(pt(r[i],wr[i],a[j],wa[j],o)); same(grid(q),w,"number of points","default centre is the origin");
  const SB& b=q; shape(b,nr*na,o); same(grid(b),w,"number of points","base view"); for(int64_t i=0;i<nr;i++) vp_same(rq.points()[i],r[i],"radial rule unchanged"); for(int64_t j=0;j<na;j++) vp_same(aq.weights()[j],wa[j],"angular rule unchanged"); }
static std::unique_ptr<RGP> build(int how,const Rad& rq,const std::vector<size_t>& st,const std::vector<Ang>& qs){ size_t k=st.size(); auto mk=[](auto&&...a){ return std::make_unique<RGP>(a...); };
  if(how==1&&k==1) return mk(rq,st[0],qs[0]); if(how==1&&k==2) return mk(rq,st[0],qs[0],st[1],qs[1]); if(how==1&&k==3) return mk(rq,st[0],qs[0],st[1],qs[1],st[2],qs[2]); if(how==1&&k==4) return mk(rq,st[0],qs[0],st[1],qs[1],st[2],qs[2],st[3],qs[3]);
  auto g=std::make_unique<RGP>(); for(size_t i=0;i<k;i++) g->add_quad(rq,st[i],qs[i]); g->finalize(rq); if(how==2) return std::make_unique<RGP>(*g); if(how==3) return std::make_unique<RGP>(std::move(*g)); return g; }
extern "C" void c11_pruned(){ int64_t N=vp_param("N",4); int64_t nr=vp_pin(vp_int("nr",1,N)); int64_t mask=vp_pin(vp_int("cuts",0,(1<<(nr-1))-1)); int64_t how=vp_pin(vp_int("how",0,3)); int64_t sh=vp_pin(vp_int("sizes",0,2)); auto r=reals("r",nr,-4,4),wr=reals("wr",nr,-4,4); P3 c=real3("c",-4,4);
  std::vector<size_t> st{0}; for(int64_t i=1;i<nr;i++) if(mask>>(i-1)&1) st.push_back(i); std::vector<std::vector<P3>> A; std::vector<std::vector<double>> W; std::vector<Ang> qs; for(size_t k=0;k<st.size();k++){ int64_t na=1+(k+sh)%3; char p[3]={char('a'+k),'p',0},w[3]={char('a'+k),'w',0}; A.push_back(reals3(p,na,-2,2)); W.push_back(reals(w,na,-4,4)); qs.push_back(Ang(A.back(),W.back())); }
  Rad rq(r,wr); auto gp=build(how,rq,st,qs); RGP& g=*gp;
  std::vector<Pt> w; for(int64_t i=0;i<nr;i++){ size_t k=st.size()-1; while((int64_t)st[k]>i) k--; for(size_t j=0;j<A[k].size();j++) w.push_back(pt(r[i],wr[i],A[k][j],W[k][j],c)); }
  PQ q(rq,g,c); shape(q,w.size(),c); same(grid(q),w,"number of points","shell uses the rule of its region"); if(st.size()>2) vp_reach("three regions"); if(nr==1) vp_reach("one shell"); if(st.size()==(size_t)nr&&nr>1) vp_reach("one-shell regions"); }
// one region over everything is the unpruned grid; default centre
extern "C" void c11_single(){ int64_t nr=vp_pin(vp_int("nr",1,3)),na=vp_pin(vp_int("na",1,3)); bool cen=vp_pin(vp_int("cen",0,1)); auto r=reals("r",nr,-4,4),wr=reals("wr",nr,-4,4),wa=reals("wa",na,-4,4); auto a=reals3("a",na,-2,2); Rad rq(r,wr); Ang aq(a,wa); P3 c{0,0,0}; if(cen) c=real3("c",-4,4);
  RGP g(rq,0,aq); if(cen){ PQ p(rq,g,c); SQ q(rq,aq,c); shape(p,nr*na,c); same(grid(p),grid(q),"number of points","single region equals the unpruned grid"); } else { PQ p(rq,g); SQ q(rq,aq); shape(p,nr*na,c); same(grid(p),grid(q),"number of points","single region equals the unpruned grid"); const SB& b=p; same(grid(b),grid(q),"number of points","base view"); } vp_reach("single"); }
// large shapes, contents still arbitrary reals
static const int64_t SH[][2]={{1,300},{300,1},{65,67},{129,9},{9,129},{33,110},{2,1030},{520,3}};
extern "C" void c10_large(){ int64_t k=vp_pin(vp_int("shape",0,vp_param("SHAPES",8)-1)),nr=SH[k][0],na=SH[k][1]; auto r=reals("r",nr,-4,4),wr=reals("wr",nr,-4,4),wa=reals("wa",na,-4,4); auto a=reals3("a",na,-2,2); P3 c=real3("c",-4,4);
  Rad rq(r,wr); Ang aq(a,wa); SQ q(rq,aq,c); shape(q,nr*na,c); std::vector<Pt> w; w.reserve(nr*na); for(int64_t i=0;i<nr;i++) for(int64_t j=0;j<na;j++) w.push_back(pt(r[i],wr[i],a[j],wa[j],c)); same(grid(q),w,"number of points","every combination exactly once"); vp_reach("grid"); }
// many shells, many regions, regions of very different size
extern "C" void c11_large(){ int64_t k=vp_pin(vp_int("shape",0,vp_param("SHAPES",6)-1)); int64_t how=vp_pin(vp_int("how",0,3)); int64_t nr=k==0?70: k==1?70: k==2?66: k==3?100: k==4?33: 24; std::vector<size_t> st; std::vector<int64_t> na; auto reg=[&](size_t b,int64_t n){ st.push_back(b); na.push_back(n); };
  if(k==0) for(int64_t i=0;i<nr;i++) reg(i,1+i%3); else if(k==1){ reg(0,70); reg(35,6); } else if(k==2){ reg(0,1); reg(64,130); reg(65,2); } else if(k==3){ reg(0,2); reg(99,3); } else if(k==4){ reg(0,7); reg(1,8); reg(2,40); reg(32,5); } else { for(int64_t i=0;i<12;i++) reg(2*i,1+(i*5)%7); }
  auto r=reals("r",nr,-4,4),wr=reals("wr",nr,-4,4); P3 c=real3("c",-4,4); int64_t mx=*std::max_element(na.begin(),na.end()); auto a=reals3("a",mx+st.size(),-2,2); auto wa=reals("wa",mx+st.size(),-4,4); std::vector<Ang> qs; for(size_t i=0;i<st.size();i++) qs.push_back(Ang(std::vector<P3>(a.begin()+i,a.begin()+i+na[i]),std::vector<double>(wa.begin()+i,wa.begin()+i+na[i])));
  Rad rq(r,wr); auto gp=build(how,rq,st,qs); std::vector<Pt> w; for(int64_t i=0;i<nr;i++){ size_t g=st.size()-1; while((int64_t)st[g]>i) g--; for(int64_t j=0;j<na[g];j++) w.push_back(pt(r[i],wr[i],a[g+j],wa[g+j],c)); }
  PQ q(rq,*gp,c); shape(q,w.size(),c); same(grid(q),w,"number of points","shell uses the rule of its region"); vp_reach("large"); }
// radii, weights and centres of any magnitude: powers of two times arbitrary numbers
static std::vector<Pt> down(std::vector<Pt> v,double s,double t){ for(auto&p:v){ for(int k=0;k<3;k++) p.v[k]/=s; p.v[3]/=s*s*t; } return v; }
static const int EX[]={-150,-60,-40,-30,-20,20,30,40,60,150};
struct Sc { double s,t; std::vector<double> r,wr,wa,wb; std::vector<P3> a,b; P3 c; std::vector<double> R,W; P3 C; };
static Sc scaled(){ Sc x; x.s=std::ldexp(1.0,EX[vp_pin(vp_int("scale",0,9))]); x.t=std::ldexp(1.0,EX[vp_pin(vp_int("wscale",0,2))*4]); x.r=reals("r",2,-4,4); x.wr=reals("wr",2,-4,4); x.wa=reals("wa",2,-4,4); x.wb=reals("wb",1,-4,4); x.a=reals3("a",2,-2,2); x.b=reals3("b",1,-2,2); x.c=real3("c",-4,4); for(auto v:x.r) x.R.push_back(v*x.s); for(auto v:x.wr) x.W.push_back(v*x.t); for(int k=0;k<3;k++) x.C[k]=x.c[k]*x.s; return x; }
extern "C" void c10_scaled(){ Sc x=scaled(); Rad rq(x.R,x.W); Ang aq(x.a,x.wa); SQ q(rq,aq,x.C); shape(q,4,x.C); std::vector<Pt> w; for(int i=0;i<2;i++) for(int j=0;j<2;j++) w.push_back(pt(x.r[i],x.wr[i],x.a[j],x.wa[j],x.c)); same(down(grid(q),x.s,x.t),w,"number of points","every combination exactly once"); vp_reach("grid"); }
extern "C" void c11_scaled(){ Sc x=scaled(); Rad rq(x.R,x.W); Ang aq(x.a,x.wa),bq(x.b,x.wb); RGP g(rq,0,aq,1,bq); PQ q(rq,g,x.C); shape(q,3,x.C); std::vector<Pt> w; for(int j=0;j<2;j++) w.push_back(pt(x.r[0],x.wr[0],x.a[j],x.wa[j],x.c)); w.push_back(pt(x.r[1],x.wr[1],x.b[0],x.wb[0],x.c)); same(down(grid(q),x.s,x.t),w,"number of points","shell uses the rule of its region"); vp_reach("grid"); }
