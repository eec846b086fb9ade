// C15: runtime factories against the concrete types
#include "fac.h"
using namespace vpq;
typedef std::vector<double> VD; typedef std::vector<P3> V3;
static double RR(){ return vp_real("R",0.0009765625,1024); }
static const double AL[]={0.6,0,0.25,1};
template<class A,class B> static void eq1(const A&a,const B&b){ vp_assert(a.npts()==b.npts()&&a.points().size()==b.points().size()&&a.weights().size()==b.weights().size(),"same number of points"); if(a.points().size()!=b.points().size()||a.weights().size()!=b.weights().size()) return; for(size_t i=0;i<a.points().size();i++){ vp_same(a.points()[i],b.points()[i],"same points"); vp_same(a.weights()[i],b.weights()[i],"same weights"); } }
template<class A,class B> static void eq3(const A&a,const B&b){ vp_assert(a.npts()==b.npts()&&a.points().size()==b.points().size()&&a.weights().size()==b.weights().size(),"same number of points"); if(a.points().size()!=b.points().size()||a.weights().size()!=b.weights().size()) return; for(size_t i=0;i<a.points().size();i++){ for(int k=0;k<3;k++) vp_same(a.points()[i][k],b.points()[i][k],"same points"); vp_same(a.weights()[i],b.weights()[i],"same weights"); } }
// f called with the concrete radial quadrature of scheme k
template<class F> static void withrad(int64_t k,size_t n,double R,double al,F f){ if(k==0) f(BK(n,R)); else if(k==1) f(MH(n,R)); else if(k==2) f(MK(n,R)); else f(TA(n,R,al)); }
template<class F> static void withang(int64_t k,size_t n,F f){ if(k==0) f(LL(n)); else if(k==1) f(DE(n)); else if(k==2) f(AB(n)); else f(WO(n)); }
static const int SZ[4][3]={{6,14,26},{14,26,50},{72,132,192},{3,6,8}};
// radial: every enumerator value, every kind of parameters
extern "C" void c15_radial(){ uint32_t rq=(uint32_t)vp_int("rq",0,0xffffffffll); int64_t k=vp_pin(vp_int("k",0,3)); int64_t n=vp_pin(vp_int("n",1,vp_param("N",4))); int64_t ia=vp_pin(vp_int("ia",0,k==3?3:0)); double R=RR(); auto t=traits(k,n,R,AL[ia]); bool th=false; RadialFactory::radial_grid_ptr g;
  try{ g=RadialFactory::generate((RadialQuad)rq,*t); }catch(const std::exception&){ th=true; } bool match=rq==(uint32_t)RQ[k]; vp_assert(th==!match,"raises exactly for foreign enumerators or parameters"); if(th){ vp_reach("rejected"); return; } vp_assert((bool)g,"a grid"); if(!g||!match) return; withrad(k,n,R,AL[ia],[&](const auto& q){ eq1(*g,q); }); vp_reach("radial"); }
// runtime-made parameters
extern "C" void c15_traits(){ uint32_t rq=(uint32_t)vp_int("rq",0,0xffffffffll); uint64_t n=vp_u64("n"); double R=vp_real("R",-8,8),al=vp_real("al",-8,8); int64_t args=vp_pin(vp_int("args",1,3)); std::unique_ptr<RadialTraits> t; bool th=false;
  try{ t= args==1? make_radial_traits((RadialQuad)rq,(size_t)n): args==2? make_radial_traits((RadialQuad)rq,(size_t)n,R): make_radial_traits((RadialQuad)rq,(size_t)n,R,al); }catch(const std::exception&){ th=true; }
  int k=-1; for(int j=0;j<4;j++) if(rq==(uint32_t)RQ[j]) k=j; bool ok=k>=0&&(args<3||k==3); vp_assert(th==!ok,"raises exactly when the parameters do not fit the scheme"); if(th){ vp_reach("rejected"); return; } vp_assert((bool)t,"parameters made"); if(!t||k<0) return; auto w=traits(k,n,args>=2?R:1.0,args==3?al:0.6); vp_assert(t->compare(*w)&&w->compare(*t),"the parameters asked for"); vp_reach("made"); }
// angular: every enumerator value and every size up to the bound
extern "C" void c15_angular(){ uint32_t aq=(uint32_t)vp_int("aq",0,0xffffffffll); int64_t n=vp_int("n",0,vp_param("HI",400)); bool th=false; S2Factory::s2_grid_ptr g; try{ g=S2Factory::generate((AngularQuad)aq,(size_t)n); }catch(const std::exception&){ th=true; }
  int k=-1; for(int j=0;j<4;j++) if(aq==(uint32_t)AQ[j]) k=j; bool sup=k>=0; if(k==0) sup=quadrature_traits<LL>::algebraic_order_by_npts(n)>=0; if(k==1) sup=quadrature_traits<DE>::algebraic_order_by_npts(n)>=0; if(k==2) sup=quadrature_traits<AB>::algebraic_order_by_npts(n)>=0; if(k==3) sup=quadrature_traits<WO>::algebraic_order_by_npts(n)>=0;
  vp_assert(th==!sup,"raises exactly for foreign enumerators or unsupported sizes"); if(th){ vp_reach("rejected"); return; } vp_assert((bool)g,"a grid"); if(!g||!sup) return; n=vp_pin(n); withang(k,n,[&](const auto& q){ eq3(*g,q); }); vp_reach("angular"); }
static void unprunedeq(const SphericalGridFactory::spherical_grid_ptr& g,int64_t kr,size_t n,double R,double al,int64_t ka,size_t na){ vp_assert((bool)g,"a grid"); if(!g) return; withrad(kr,n,R,al,[&](const auto& r){ withang(ka,na,[&](const auto& a){ SphericalQuadrature<std::decay_t<decltype(r)>,std::decay_t<decltype(a)>> q(r,a); eq3(*g,q); auto c=g->center(); vp_assert(c[0]==0&&c[1]==0&&c[2]==0,"centred at the origin"); }); }); }
// unpruned spherical grids: enumerators and parameters
extern "C" void c15_unpruned(){ int64_t kr=vp_pin(vp_int("kr",0,3)),ka=vp_pin(vp_int("ka",0,3)),route=vp_pin(vp_int("route",0,2)); int64_t n=vp_pin(vp_int("n",1,vp_param("N",2))); double R=RR(); size_t na=SZ[ka][vp_pin(vp_int("s",0,vp_param("S",0)))]; auto t=traits(kr,n,R,0.25); SphericalGridFactory::spherical_grid_ptr g;
  try{ if(route==0) g=SphericalGridFactory::generate_unpruned_grid(RQ[kr],*t,AQ[ka],na); else if(route==1) g=SphericalGridFactory::generate_grid(UnprunedSphericalGridSpecification(RQ[kr],*t,AQ[ka],na)); else withrad(kr,n,R,0.25,[&](const auto& r){ withang(ka,na,[&](const auto& a){ g=SphericalGridFactory::generate_unpruned_grid(r,a); }); }); }catch(const std::exception&){ vp_assert(false,"valid request raises"); return; }
  unprunedeq(g,kr,n,R,0.25,ka,na); vp_reach("grid"); }
extern "C" void c15_unpruned_err(){ uint32_t rq=(uint32_t)vp_int("rq",0,0xffffffffll),aq=(uint32_t)vp_int("aq",0,0xffffffffll); int64_t k=vp_pin(vp_int("k",0,3)),route=vp_pin(vp_int("route",0,1)); uint64_t na=vp_u64("na"); double R=RR(); auto t=traits(k,2,R,0.25); int ka=-1; for(int j=0;j<4;j++) if(aq==(uint32_t)AQ[j]) ka=j; bool sup=false; int64_t o=-1; if(ka==0) o=quadrature_traits<LL>::algebraic_order_by_npts((int64_t)na); if(ka==1) o=quadrature_traits<DE>::algebraic_order_by_npts((int64_t)na); if(ka==2) o=quadrature_traits<AB>::algebraic_order_by_npts((int64_t)na); if(ka==3) o=quadrature_traits<WO>::algebraic_order_by_npts((int64_t)na); sup=o>=0;
  vp_assume(!(sup&&rq==(uint32_t)RQ[k])); if(sup) vp_assume(na<=200); bool th=throws([&]{ if(route==0) SphericalGridFactory::generate_unpruned_grid((RadialQuad)rq,*t,(AngularQuad)aq,(size_t)na); else SphericalGridFactory::generate_grid(UnprunedSphericalGridSpecification((RadialQuad)rq,*t,(AngularQuad)aq,(size_t)na)); }); vp_assert(th,"foreign enumerator, parameters or size raises"); vp_reach("rejected"); }
// pruned grids against RadialGridPartition and PrunedSphericalQuadrature
template<class R,class A> static void prunedeq(const SphericalGridFactory::spherical_grid_ptr& g,const R& r,const std::vector<PruningRegion>& reg){ RadialGridPartition<A> p; for(auto&x:reg) p.add_quad(r,x.idx_st,A(x.angular_size)); p.finalize(r); PrunedSphericalQuadrature<R,A> q(r,p); eq3(*g,q); auto c=g->center(); vp_assert(c[0]==0&&c[1]==0&&c[2]==0,"centred at the origin"); }
template<class A,class R> static SphericalGridFactory::spherical_grid_ptr viapart(const R& r,const std::vector<PruningRegion>& reg){ RadialGridPartition<A> p; for(auto&x:reg) p.add_quad(r,x.idx_st,A(x.angular_size)); p.finalize(r); return SphericalGridFactory::generate_pruned_grid(r,p); }
extern "C" void c15_pruned(){ int64_t kr=vp_pin(vp_int("kr",0,3)),ka=vp_pin(vp_int("ka",0,3)),route=vp_pin(vp_int("route",0,2)); int64_t n=vp_pin(vp_int("n",1,vp_param("N",3))); int64_t mask=vp_pin(vp_int("cuts",0,(1<<(n-1))-1)); double R=RR(); std::vector<PruningRegion> reg; size_t st=0; int j=0; for(int64_t i=1;i<=n;i++) if(i==n||(mask>>(i-1)&1)){ reg.push_back({st,(size_t)i,AQ[ka],(size_t)SZ[ka][j++%2]}); st=i; } auto t=traits(kr,n,R,0.25); SphericalGridFactory::spherical_grid_ptr g;
  try{ if(route==0) g=SphericalGridFactory::generate_pruned_grid(RQ[kr],*t,reg); else if(route==1) g=SphericalGridFactory::generate_grid(PrunedSphericalGridSpecification(RQ[kr],*t,reg)); else withrad(kr,n,R,0.25,[&](const auto& r){ if(ka==0) g=viapart<LL>(r,reg); else if(ka==1) g=viapart<DE>(r,reg); else if(ka==2) g=viapart<AB>(r,reg); else g=viapart<WO>(r,reg); }); }catch(const std::exception&){ vp_assert(false,"valid request raises"); return; }
  vp_assert((bool)g,"a grid"); if(!g) return; withrad(kr,n,R,0.25,[&](const auto& r){ typedef std::decay_t<decltype(r)> Q; if(ka==0) prunedeq<Q,LL>(g,r,reg); else if(ka==1) prunedeq<Q,DE>(g,r,reg); else if(ka==2) prunedeq<Q,AB>(g,r,reg); else prunedeq<Q,WO>(g,r,reg); }); vp_reach("grid"); if(reg.size()>1) vp_reach("several regions"); }
static bool famok(uint32_t a){ return a==(uint32_t)AQ[0]||a==(uint32_t)AQ[1]||a==(uint32_t)AQ[3]; }
extern "C" void c15_pruned_err(){ uint32_t rq=(uint32_t)vp_int("rq",0,0xffffffffll); uint32_t a[3]; int64_t k=vp_pin(vp_int("k",0,3)),nr=vp_pin(vp_int("nr",0,3)),route=vp_pin(vp_int("route",0,1)); double R=RR(); size_t n=nr?nr:2; auto t=traits(k,n,R,0.25); std::vector<PruningRegion> reg; bool ok=nr>0; for(int64_t i=0;i<nr;i++){ a[i]=(uint32_t)vp_int(nm("a",i),0,0xffffffffll); reg.push_back({(size_t)i,(size_t)i+1,(AngularQuad)a[i],26}); ok=ok&&famok(a[i])&&a[i]==a[0]; }
  ok=ok&&rq==(uint32_t)RQ[k]; bool th=throws([&]{ if(route==0) SphericalGridFactory::generate_pruned_grid((RadialQuad)rq,*t,reg); else SphericalGridFactory::generate_grid(PrunedSphericalGridSpecification((RadialQuad)rq,*t,reg)); }); vp_assert(th==!ok,"raises exactly for foreign enumerators or parameters, mixed families or no regions"); if(th) vp_reach("rejected"); else vp_reach("accepted"); }
// missing radial parameters
extern "C" void c15_missing(){ int64_t kr=vp_pin(vp_int("kr",0,3)),ka=vp_pin(vp_int("ka",0,3)); auto t=traits(kr,3,1.0,0.6); UnprunedSphericalGridSpecification u(RQ[kr],*t,AQ[ka],(size_t)SZ[ka][0]); u.radial_traits.reset(); PrunedSphericalGridSpecification p; p.radial_quad=RQ[kr]; p.pruning_regions={{0,3,AQ[ka],(size_t)SZ[ka][0]}};
  vp_assert(throws([&]{ SphericalGridFactory::generate_grid(u); }),"unpruned grid without radial parameters raises"); vp_assert(throws([&]{ SphericalGridFactory::generate_grid(p); }),"pruned grid without radial parameters raises"); for(auto s:{PruningScheme::Unpruned,PruningScheme::Robust,PruningScheme::Treutler}) vp_assert(throws([&]{ create_pruned_spec(s,u); }),"pruning without radial parameters raises"); vp_reach("rejected"); }
// whole pipeline: scheme -> specification -> grid equals the hand-made pruned grid
extern "C" void c15_pipeline(){ int64_t kr=vp_pin(vp_int("kr",0,3)),ka=vp_pin(vp_int("ka",0,3)),sc=vp_pin(vp_int("sc",0,2)); int64_t n=vp_pin(vp_int("n",1,vp_param("N",4))); double R=RR(); size_t na=SZ[ka][vp_pin(vp_int("s",0,1))]; auto t=traits(kr,n,R,0.25); PruningScheme S[]={PruningScheme::Unpruned,PruningScheme::Robust,PruningScheme::Treutler}; SphericalGridFactory::spherical_grid_ptr g; std::vector<PruningRegion> reg;
  try{ auto sp=create_pruned_spec(S[sc],UnprunedSphericalGridSpecification(RQ[kr],*t,AQ[ka],na)); reg=sp.pruning_regions; g=SphericalGridFactory::generate_grid(sp); }catch(const std::exception&){ vp_assert(false,"valid request raises"); return; } vp_assert((bool)g&&!reg.empty(),"a grid"); if(!g) return;
  if(sc==0) unprunedeq(g,kr,n,R,0.25,ka,na); else withrad(kr,n,R,0.25,[&](const auto& r){ typedef std::decay_t<decltype(r)> Q; if(ka==0) prunedeq<Q,LL>(g,r,reg); else if(ka==1) prunedeq<Q,DE>(g,r,reg); else if(ka==2) prunedeq<Q,AB>(g,r,reg); else prunedeq<Q,WO>(g,r,reg); }); vp_reach("pipeline"); }
// larger requests: enumerators and parameters match, sizes chosen
static const int64_t BN[]={7,16,33,64,65,100,129,300};
extern "C" void c15_radial_large(){ int64_t k=vp_pin(vp_int("k",0,3)); int64_t n=BN[vp_pin(vp_int("i",0,7))]; int64_t ia=vp_pin(vp_int("ia",0,k==3?3:0)); double R=RR(); auto t=traits(k,n,R,AL[ia]); RadialFactory::radial_grid_ptr g; try{ g=RadialFactory::generate(RQ[k],*t); }catch(const std::exception&){ vp_assert(false,"valid request raises"); return; } vp_assert((bool)g,"a grid"); if(!g) return; withrad(k,n,R,AL[ia],[&](const auto& q){ eq1(*g,q); }); vp_reach("radial"); }
static const int BSZ[4][2]={{302,1202},{302,1202},{312,1032},{339,1059}};
static const int64_t PN[][2]={{10,0},{50,0},{3,1}};
extern "C" void c15_unpruned_large(){ int64_t kr=vp_pin(vp_int("kr",0,3)),ka=vp_pin(vp_int("ka",0,3)),route=vp_pin(vp_int("route",0,1)),s=vp_pin(vp_int("s",0,2)); int64_t n=PN[s][0]; size_t na=BSZ[ka][PN[s][1]]; double R=RR(); auto t=traits(kr,n,R,0.25); SphericalGridFactory::spherical_grid_ptr g;
  try{ if(route==0) g=SphericalGridFactory::generate_unpruned_grid(RQ[kr],*t,AQ[ka],na); else g=SphericalGridFactory::generate_grid(UnprunedSphericalGridSpecification(RQ[kr],*t,AQ[ka],na)); }catch(const std::exception&){ vp_assert(false,"valid request raises"); return; }
  unprunedeq(g,kr,n,R,0.25,ka,na); vp_reach("grid"); }
// many shells and regions, unequal regions
static std::vector<PruningRegion> regs(int64_t pat,int64_t ka,int64_t& n){ std::vector<PruningRegion> r; size_t st=0; int j=0; auto add=[&](size_t len,size_t na){ r.push_back({st,st+len,AQ[ka],na}); st+=len; }; (void)j;
  if(pat==0) for(int i=0;i<12;i++) add(1+i%4,SZ[ka][(i*2)%3]); else if(pat==1){ add(40,SZ[ka][0]); add(1,SZ[ka][2]); add(30,SZ[ka][1]); } else if(pat==2){ add(2,SZ[ka][1]); add(3,BSZ[ka][0]); add(2,SZ[ka][0]); } else for(int i=0;i<33;i++) add(1,SZ[ka][i%3]); n=st; return r; }
extern "C" void c15_pruned_large(){ int64_t kr=vp_pin(vp_int("kr",0,3)),ka=vp_pin(vp_int("ka",0,3)),route=vp_pin(vp_int("route",0,1)),pat=vp_pin(vp_int("pat",0,3)); int64_t n=0; auto reg=regs(pat,ka,n); double R=RR(); auto t=traits(kr,n,R,0.25); SphericalGridFactory::spherical_grid_ptr g;
  try{ if(route==0) g=SphericalGridFactory::generate_pruned_grid(RQ[kr],*t,reg); else g=SphericalGridFactory::generate_grid(PrunedSphericalGridSpecification(RQ[kr],*t,reg)); }catch(const std::exception&){ vp_assert(false,"valid request raises"); return; }
  vp_assert((bool)g,"a grid"); if(!g) return; withrad(kr,n,R,0.25,[&](const auto& r){ typedef std::decay_t<decltype(r)> Q; if(ka==0) prunedeq<Q,LL>(g,r,reg); else if(ka==1) prunedeq<Q,DE>(g,r,reg); else if(ka==2) prunedeq<Q,AB>(g,r,reg); else prunedeq<Q,WO>(g,r,reg); }); vp_reach("grid"); }
extern "C" void c15_pipeline_large(){ int64_t kr=vp_pin(vp_int("kr",0,3)),ka=vp_pin(vp_int("ka",0,3)),sc=vp_pin(vp_int("sc",0,2)); const int64_t N[]={13,25,50}; int64_t n=N[vp_pin(vp_int("i",0,2))]; double R=RR(); size_t na=BSZ[ka][0]; auto t=traits(kr,n,R,0.25); PruningScheme S[]={PruningScheme::Unpruned,PruningScheme::Robust,PruningScheme::Treutler}; SphericalGridFactory::spherical_grid_ptr g; std::vector<PruningRegion> reg;
  try{ auto sp=create_pruned_spec(S[sc],UnprunedSphericalGridSpecification(RQ[kr],*t,AQ[ka],na)); reg=sp.pruning_regions; g=SphericalGridFactory::generate_grid(sp); }catch(const std::exception&){ vp_assert(false,"valid request raises"); return; } vp_assert((bool)g&&!reg.empty(),"a grid"); if(!g) return;
  if(sc==0) unprunedeq(g,kr,n,R,0.25,ka,na); else withrad(kr,n,R,0.25,[&](const auto& r){ typedef std::decay_t<decltype(r)> Q; if(ka==0) prunedeq<Q,LL>(g,r,reg); else if(ka==1) prunedeq<Q,DE>(g,r,reg); else if(ka==2) prunedeq<Q,AB>(g,r,reg); else prunedeq<Q,WO>(g,r,reg); }); vp_reach("pipeline"); }
