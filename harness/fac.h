#pragma once
#include "q.h"
#include <chrono>
#include <iomanip>
#include <integratorxx/generators/radial_factory.hpp>
#include <integratorxx/generators/s2_factory.hpp>
#include <integratorxx/generators/spherical_factory.hpp>
// the compiled library's translation units, as they are built in a release; then the header-only implementation
#if __has_include(<../src/radial_factory.cxx>)
#include <../src/radial_factory.cxx>
#endif
#if __has_include(<../src/s2_factory.cxx>)
#include <../src/s2_factory.cxx>
#endif
#if __has_include(<../src/spherical_factory.cxx>)
#include <../src/spherical_factory.cxx>
#endif
#include <integratorxx/generators/impl/impl.hpp>
namespace vpq {
using namespace IntegratorXX;
typedef Becke<double,double> BK; typedef MuraKnowles<double,double> MK; typedef MurrayHandyLaming<double,double> MH; typedef TreutlerAhlrichs<double,double> TA;
typedef LebedevLaikov<double> LL; typedef Delley<double> DE; typedef AhrensBeylkin<double> AB; typedef Womersley<double> WO;
static const RadialQuad RQ[4]={RadialQuad::Becke,RadialQuad::MurrayHandyLaming,RadialQuad::MuraKnowles,RadialQuad::TreutlerAhlrichs};
static const AngularQuad AQ[4]={AngularQuad::LebedevLaikov,AngularQuad::Delley,AngularQuad::AhrensBeylkin,AngularQuad::Womersley};
// parameters of scheme k
inline std::unique_ptr<RadialTraits> traits(int64_t k,size_t n,double R,double al){ if(k==0) return std::make_unique<BeckeRadialTraits>(n,R); if(k==1) return std::make_unique<MurrayHandyLamingRadialTraits<2>>(n,R); if(k==2) return std::make_unique<MuraKnowlesRadialTraits>(n,R); return std::make_unique<TreutlerAhlrichsRadialTraits>(n,R,al); }
}
