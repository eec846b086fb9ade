// C17: equality and copies of radial parameters, regions and specifications
#include "fac.h"
using namespace vpq;
typedef MurrayHandyLamingRadialTraits<2> M2; typedef MurrayHandyLamingRadialTraits<3> M3;
struct Par { int64_t k; uint64_t n; double R,al; std::unique_ptr<RadialTraits> p; };
static Par par(const char* sfx,bool five){ std::string s(sfx); Par r; r.k=vp_pin(vp_int(("k"+s).c_str(),0,five?4:3)); r.n=vp_u64(("n"+s).c_str()); r.R=vp_real(("R"+s).c_str(),-8,8); r.al=vp_real(("al"+s).c_str(),-8,8); if(r.k<4) r.p=traits(r.k,r.n,r.R,r.al); else r.p=std::make_unique<M3>(r.n,r.R); return r; }
static bool want(const Par&a,const Par&b){ return a.k==b.k && ((a.n==b.n)&(a.R==b.R)&((a.k!=3)|(a.al==b.al))); }
extern "C" void c17_traits(){ Par a=par("1",true),b=par("2",true); bool w=want(a,b); vp_assert(a.p->compare(*b.p)==w,"parameters equal exactly when all components are"); vp_assert(b.p->compare(*a.p)==w,"symmetric"); vp_assert(a.p->compare(*a.p),"reflexive"); vp_assert(a.p->npts()==a.n,"size kept");
  auto c=a.p->clone(); vp_assert((bool)c&&c.get()!=a.p.get(),"clone is a new object"); if(!c) return; vp_assert(c->compare(*a.p)&&a.p->compare(*c),"clone equal"); vp_assert(c->compare(*b.p)==w,"clone behaves like its source"); vp_assert(c->npts()==a.n,"clone keeps the size"); a.p.reset(); vp_assert(c->npts()==a.n&&c->compare(*b.p)==w,"clone outlives its source"); if(w) vp_reach("equal"); else vp_reach("different"); }
// the concrete types' own operator== and copies
template<class T> static void own(const T&a,const T&b,bool w){ vp_assert((a==b)==w,"operator== of the concrete type"); T c(a); vp_assert(c==a,"copy equal"); c=b; vp_assert((a==c)==w,"assignment"); vp_assert(c==b,"assigned equals source"); }
extern "C" void c17_own(){ int64_t k=vp_pin(vp_int("k",0,3)); uint64_t n=vp_u64("n"),m=vp_u64("m"); double R=vp_real("R",-8,8),S=vp_real("S",-8,8),al=vp_real("al",-8,8),be=vp_real("be",-8,8); bool w=(n==m)&(R==S);
  if(k==0) own(BeckeRadialTraits(n,R),BeckeRadialTraits(m,S),w); if(k==1) own(M2(n,R),M2(m,S),w); if(k==2) own(MuraKnowlesRadialTraits(n,R),MuraKnowlesRadialTraits(m,S),w); if(k==3) own(TreutlerAhlrichsRadialTraits(n,R,al),TreutlerAhlrichsRadialTraits(m,S,be),w&(al==be)); vp_reach("own"); }
static PruningRegion region(const char* p){ std::string s(p); PruningRegion r; r.idx_st=vp_u64((s+"st").c_str()); r.idx_en=vp_u64((s+"en").c_str()); r.angular_quad=(AngularQuad)(uint32_t)vp_int((s+"aq").c_str(),0,0xffffffffll); r.angular_size=vp_u64((s+"as").c_str()); return r; }
static bool weq(const PruningRegion&a,const PruningRegion&b){ return (a.idx_st==b.idx_st)&(a.idx_en==b.idx_en)&((uint32_t)a.angular_quad==(uint32_t)b.angular_quad)&(a.angular_size==b.angular_size); }
extern "C" void c17_region(){ auto a=region("a"),b=region("b"); bool w=weq(a,b); vp_assert((a==b)==w,"regions equal exactly when all components are"); vp_assert((b==a)==w,"symmetric"); vp_assert(a==a,"reflexive"); PruningRegion c=a; vp_assert(c==a,"copy"); if(w) vp_reach("equal"); else vp_reach("different"); }
struct Sp { bool has; Par p; std::vector<PruningRegion> r; uint32_t q; PrunedSphericalGridSpecification s; };
static void spec(Sp& x,const char* sfx,int64_t maxr){ std::string s(sfx); x.has=vp_pin(vp_int(("has"+s).c_str(),0,1)); x.q=(uint32_t)vp_int(("rq"+s).c_str(),0,0xffffffffll); int64_t n=vp_pin(vp_int(("nr"+s).c_str(),0,maxr)); for(int64_t i=0;i<n;i++) x.r.push_back(region((s+(i?"y":"x")).c_str())); if(x.has){ x.p=par(sfx,false); x.s=PrunedSphericalGridSpecification((RadialQuad)x.q,*x.p.p,x.r); } else { x.s.radial_quad=(RadialQuad)x.q; x.s.pruning_regions=x.r; } }
static bool weq(const Sp&a,const Sp&b){ if(a.has!=b.has||a.r.size()!=b.r.size()) return false; bool w=a.q==b.q; if(a.has){ if(a.p.k!=b.p.k) return false; w=w&want(a.p,b.p); } for(size_t i=0;i<a.r.size();i++) w=w&weq(a.r[i],b.r[i]); return w; }
extern "C" void c17_spec(){ Sp a,b; spec(a,"1",vp_param("NR",2)); spec(b,"2",vp_param("NR",2)); bool w=weq(a,b); vp_assert((a.s==b.s)==w,"specifications equal exactly when all components are"); vp_assert((b.s==a.s)==w,"symmetric"); if(w) vp_reach("equal"); else vp_reach("different"); }
// copies and assignments are equal to and independent of the source
extern "C" void c17_copy(){ Sp a,b; spec(a,"1",2); spec(b,"2",1); PrunedSphericalGridSpecification c(a.s),d; vp_assert(c==a.s,"copy equal"); d=a.s; vp_assert(d==a.s,"assigned equal"); if(a.has) vp_assert(c.radial_traits.get()!=a.s.radial_traits.get()&&d.radial_traits.get()!=a.s.radial_traits.get(),"copies own their parameters"); else vp_assert(!c.radial_traits&&!d.radial_traits,"missing parameters stay missing"); auto& dd=d; d=dd; vp_assert(d==a.s,"self assignment");
  bool w=weq(a,b); d=b.s; vp_assert(d==b.s,"reassigned"); vp_assert((d==a.s)==w,"reassignment replaces everything"); vp_assert(c==a.s,"other copy unaffected"); a.s.radial_traits.reset(); a.s.pruning_regions.clear(); vp_assert((c==b.s)==w,"copy unaffected by changes of the source"); vp_assert((bool)c.radial_traits==a.has&&c.pruning_regions.size()==a.r.size(),"copy keeps its components"); vp_reach("copied"); }
// unpruned specifications: construction clones, copies are deep
extern "C" void c17_unpruned(){ Par a=par("1",false); uint32_t rq=vp_int("rq",0,0xffffffffll),aq=vp_int("aq",0,0xffffffffll); uint64_t as=vp_u64("as"); UnprunedSphericalGridSpecification s((RadialQuad)rq,*a.p,(AngularQuad)aq,as); vp_assert(s.radial_traits&&s.radial_traits.get()!=a.p.get()&&s.radial_traits->compare(*a.p),"construction clones the parameters");
  UnprunedSphericalGridSpecification c(s); vp_assert(c.radial_traits&&c.radial_traits.get()!=s.radial_traits.get()&&c.radial_traits->compare(*a.p),"copy clones the parameters"); vp_assert((uint32_t)c.radial_quad==rq&&(uint32_t)c.angular_quad==aq&&c.angular_size==as,"copy keeps every component"); s.radial_traits.reset(); UnprunedSphericalGridSpecification e(s); vp_assert(!e.radial_traits,"missing parameters stay missing"); vp_assert(c.radial_traits->compare(*a.p),"copy independent"); vp_reach("copied"); }
// specifications with many regions: one region arbitrary on each side, or one side longer than the other
extern "C" void c17_many(){ static const int64_t NS[]={3,4,5,8,9,16,17,33,70}; int64_t n=NS[vp_pin(vp_int("n",0,vp_param("NS",9)-1))]; int64_t k=vp_pin(vp_int("k",0,5)); k=k==0?0: k==1?1: k==2?n/2: k==3?n-2: k==4?n-1: n; Par p=par("p",false); uint32_t q=(uint32_t)vp_int("rq",0,0xffffffffll); auto make=[&](){ std::vector<PruningRegion> r; for(int64_t i=0;i<n;i++){ PruningRegion g; g.idx_st=3*i; g.idx_en=3*i+3; g.angular_quad=AngularQuad::LebedevLaikov; g.angular_size=26; r.push_back(g); } return r; };
  auto ra=make(),rb=make(); bool w=true; if(k<n){ ra[k]=region("a"); rb[k]=region("b"); w=weq(ra[k],rb[k]); } else { rb.pop_back(); w=false; } PrunedSphericalGridSpecification a((RadialQuad)q,*p.p,ra),b((RadialQuad)q,*p.p,rb); vp_assert((a==b)==w,"specifications equal exactly when all components are"); vp_assert((b==a)==w,"symmetric"); PrunedSphericalGridSpecification c(a); vp_assert(c==a,"copy equal"); vp_assert((c==b)==w,"copy behaves like its source"); c=b; vp_assert(c==b,"assigned equal"); vp_assert((a==c)==w,"assignment replaces everything"); if(w) vp_reach("equal"); else vp_reach("different"); }
