#pragma once
#include "q.h"
#include <chrono>
#include <iomanip>
#include <integratorxx/composite_quadratures/spherical_quadrature.hpp>
#include <integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp>
namespace vpq {
using namespace IntegratorXX;
typedef SphericalQuadrature<Rad,Ang> SQ; typedef PrunedSphericalQuadrature<Rad,Ang> PQ; typedef RadialGridPartition<Ang> RGP;
typedef SphericalQuadratureBase<std::vector<P3>,std::vector<double>> SB;
struct Pt { double v[4]; };
inline Pt pt(double r,double wr,const P3& a,double wa,const P3& c){ Pt p; for(int k=0;k<3;k++) p.v[k]=c[k]+r*a[k]; p.v[3]=wr*wa*(r*r); return p; }
template<class Q> std::vector<Pt> grid(const Q& q){ std::vector<Pt> o; auto&p=q.points(); auto&w=q.weights(); for(size_t i=0;i<p.size();i++){ Pt t; for(int k=0;k<3;k++) t.v[k]=p[i][k]; t.v[3]=w[i]; o.push_back(t); } return o; }
inline void same(const std::vector<Pt>& got,const std::vector<Pt>& want,const char* idn,const char* id){ vp_assert(got.size()==want.size(),idn); if(got.size()!=want.size()||got.empty()) return; vp_multiset(&got[0].v[0],&want[0].v[0],want.size(),4,id); }
}
