// helpers shared by the harnesses: user-defined quadratures with arbitrary (symbolic) content
#pragma once
#include "vp.h"
#include <cmath>
#include <cstdint>
#include <memory>
#include <vector>
#include <array>
#include <string>
#include <tuple>
#include <limits>
#include <algorithm>
#include <numeric>
#include <stdexcept>
#include <iostream>
#include <functional>
#include <integratorxx/quadrature.hpp>
#include <integratorxx/types.hpp>
#include <integratorxx/type_traits.hpp>
namespace vpq {
struct Nm { char b[24]; operator const char*() const { return b; } };
inline Nm nm(const char* p, int64_t i, int64_t j=-1){ Nm r; int k=0; while(*p&&k<10) r.b[k++]=*p++;
  auto put=[&](int64_t v){ char t[8]; int m=0; do{ t[m++]='0'+v%10; v/=10; }while(v&&m<8); while(m) r.b[k++]=t[--m]; };
  put(i); if(j>=0){ r.b[k++]='_'; put(j); } r.b[k]=0; return r; }
typedef std::array<double,3> P3;
struct Rad; struct Ang;
}
namespace IntegratorXX {
template<> struct quadrature_traits<vpq::Rad> {
  using point_type=double; using weight_type=double; using point_container=std::vector<double>; using weight_container=std::vector<double>;
  static std::tuple<point_container,weight_container> generate(const std::vector<double>& p,const std::vector<double>& w){ return std::make_tuple(p,w); } };
template<> struct quadrature_traits<vpq::Ang> {
  using point_type=cartesian_pt_t<double>; using weight_type=double; using point_container=std::vector<point_type>; using weight_container=std::vector<double>;
  static std::tuple<point_container,weight_container> generate(const point_container& p,const std::vector<double>& w){ return std::make_tuple(p,w); } };
}
namespace vpq {
struct Rad : IntegratorXX::Quadrature<Rad> { using B=IntegratorXX::Quadrature<Rad>;
  using point_type=double; using weight_type=double; using point_container=std::vector<double>; using weight_container=std::vector<double>;
  Rad(const std::vector<double>& p,const std::vector<double>& w): B(p,w) {} };
struct Ang : IntegratorXX::Quadrature<Ang> { using B=IntegratorXX::Quadrature<Ang>;
  using point_type=P3; using weight_type=double; using point_container=std::vector<P3>; using weight_container=std::vector<double>;
  Ang(const std::vector<P3>& p,const std::vector<double>& w): B(p,w) {} };
inline std::vector<double> reals(const char* p,int64_t n,double lo,double hi){ std::vector<double> v; for(int64_t i=0;i<n;i++) v.push_back(vp_real(nm(p,i),lo,hi)); return v; }
inline P3 real3(const char* p,double lo,double hi){ P3 r; for(int k=0;k<3;k++) r[k]=vp_real(nm(p,k),lo,hi); return r; }
inline std::vector<P3> reals3(const char* p,int64_t n,double lo,double hi){ std::vector<P3> v; for(int64_t i=0;i<n;i++){ P3 r; for(int k=0;k<3;k++) r[k]=vp_real(nm(p,i,k),lo,hi); v.push_back(r);} return v; }
// does f throw a std::exception?  anything else escaping is a violation
template<class F> bool throws(F&& f){ try{ f(); }catch(const std::exception&){ return true; } return false; }
}
