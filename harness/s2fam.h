// one angular family, chosen by -DFAM_xx
#pragma once
#include "q.h"
#if defined(FAM_LL)
#include <integratorxx/quadratures/s2/lebedev_laikov.hpp>
typedef IntegratorXX::LebedevLaikov<double> Fam;
#define FTAG LL
#elif defined(FAM_DE)
#include <integratorxx/quadratures/s2/delley.hpp>
typedef IntegratorXX::Delley<double> Fam;
#define FTAG DE
#elif defined(FAM_AB)
#include <integratorxx/quadratures/s2/ahrens_beylkin.hpp>
typedef IntegratorXX::AhrensBeylkin<double> Fam;
#define FTAG AB
#elif defined(FAM_WO)
#include <integratorxx/quadratures/s2/womersley.hpp>
typedef IntegratorXX::Womersley<double> Fam;
#define FTAG WO
#endif
typedef IntegratorXX::quadrature_traits<Fam> FT;
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
#define ENTRY(x) CAT(CAT(x,_),FTAG)
