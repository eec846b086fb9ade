// C16: names.  The string content is symbolic byte by byte; the accepted set is spelled out here.
#include "q.h"
#include <integratorxx/generators/radial_factory.hpp>
#include <integratorxx/generators/s2_factory.hpp>
// the compiled library's translation units, as they are built in a release; then the header-only implementation
#if __has_include(<../src/radial_factory.cxx>)
#include <../src/radial_factory.cxx>
#endif
#if __has_include(<../src/s2_factory.cxx>)
#include <../src/s2_factory.cxx>
#endif
#if __has_include(<../src/spherical_factory.cxx>)
#include <../src/spherical_factory.cxx>
#endif
#include <integratorxx/generators/impl/impl.hpp>
using namespace IntegratorXX; using namespace vpq;
// case-insensitive equality without branches on the content
static bool is(const std::string& s,const char* n){ size_t L=0; while(n[L]) L++; if(s.size()!=L) return false; unsigned d=0; for(size_t i=0;i<L;i++) d|=((unsigned char)s[i]|0x20u)^(unsigned char)n[i]; return d==0; }
// lengths far beyond any accepted name: around powers of two, and an accepted length plus a power of two
static int64_t length(){ if(!vp_param("LONG",0)) return vp_pin(vp_int("len",0,vp_param("LEN",20))); int64_t b=vp_pin(vp_int("base",0,4)),o=vp_pin(vp_int("off",-2,17)); return (b==0?32: b==1?64: b==2?128: b==3?256: 512)+o; }
static std::string text(){ int64_t L=length(); std::string s; char fill=L>20? (char)vp_byte("fill"): 0; for(int64_t i=0;i<L;i++) s.push_back(i<20||i+4>L? (char)vp_byte(nm("b",i)): fill); return s; }
extern "C" void c16_radial(){ std::string s=text(); uint32_t want=0; if(is(s,"becke")) want=1+(uint32_t)RadialQuad::Becke; if(is(s,"murrayhandylaming")||is(s,"mhl")) want=1+(uint32_t)RadialQuad::MurrayHandyLaming; if(is(s,"muraknowles")||is(s,"mk")) want=1+(uint32_t)RadialQuad::MuraKnowles; if(is(s,"treutlerahlrichs")||is(s,"ta")) want=1+(uint32_t)RadialQuad::TreutlerAhlrichs;
  uint32_t got=0; try{ got=1+(uint32_t)radial_from_string(s); }catch(const std::exception&){ got=0; }
  vp_assert(got==want,"radial name"); if(want) vp_reach("accepted"); else vp_reach("rejected"); }
extern "C" void c16_angular(){ std::string s=text(); uint32_t want=0; if(is(s,"ahrensbeylkin")||is(s,"ab")) want=1+(uint32_t)AngularQuad::AhrensBeylkin; if(is(s,"delley")) want=1+(uint32_t)AngularQuad::Delley; if(is(s,"lebedevlaikov")||is(s,"lebedev")||is(s,"ll")) want=1+(uint32_t)AngularQuad::LebedevLaikov; if(is(s,"womersley")) want=1+(uint32_t)AngularQuad::Womersley;
  uint32_t got=0; try{ got=1+(uint32_t)angular_from_string(s); }catch(const std::exception&){ got=0; }
  vp_assert(got==want,"angular name"); if(want) vp_reach("accepted"); else vp_reach("rejected"); }
// the argument keeps its content (passed by value); both parsers agree that a name belongs to at most one of them
extern "C" void c16_disjoint(){ std::string s=text(),c=s; bool r=!throws([&]{ radial_from_string(s); }),a=!throws([&]{ angular_from_string(s); }); vp_assert(!(r&&a),"a name is radial or angular, not both"); unsigned d=0; for(size_t i=0;i<s.size();i++) d|=(unsigned char)s[i]^(unsigned char)c[i]; vp_assert(d==0,"argument unchanged"); vp_reach("parsed"); }
extern "C" void c16_types(){ typedef double D; bool ok=false; int64_t k=vp_pin(vp_int("k",0,7));
  try{ if(k==0) ok=radial_from_type<Becke<D,D>>()==RadialQuad::Becke; if(k==1) ok=radial_from_type<MurrayHandyLaming<D,D>>()==RadialQuad::MurrayHandyLaming; if(k==2) ok=radial_from_type<MuraKnowles<D,D>>()==RadialQuad::MuraKnowles; if(k==3) ok=radial_from_type<TreutlerAhlrichs<D,D>>()==RadialQuad::TreutlerAhlrichs;
    if(k==4) ok=angular_from_type<AhrensBeylkin<D>>()==AngularQuad::AhrensBeylkin; if(k==5) ok=angular_from_type<Delley<D>>()==AngularQuad::Delley; if(k==6) ok=angular_from_type<LebedevLaikov<D>>()==AngularQuad::LebedevLaikov; if(k==7) ok=angular_from_type<Womersley<D>>()==AngularQuad::Womersley; }catch(const std::exception&){ ok=false; }
  vp_assert(ok,"enumerator of a concrete type"); vp_reach("types"); }
