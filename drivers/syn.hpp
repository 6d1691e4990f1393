// Rules with given points and weights, as a user of the library would define them.
#pragma once
#include "common.hpp"
#include <integratorxx/quadrature.hpp>
using namespace IntegratorXX;
#ifdef WITH_FLOAT
using T = float;
#else
using T = double;
#endif
using P3 = std::array<T, 3>;
struct SynRad; struct SynAng;
namespace IntegratorXX {
template <> struct quadrature_traits<SynRad> {
  using point_type = T; using weight_type = T; using point_container = std::vector<T>; using weight_container = std::vector<T>;
  static std::tuple<point_container, weight_container> generate(const std::vector<T>& p, const std::vector<T>& w) { return { p, w }; }
};
template <> struct quadrature_traits<SynAng> {
  using point_type = P3; using weight_type = T; using point_container = std::vector<P3>; using weight_container = std::vector<T>;
  static std::tuple<point_container, weight_container> generate(const std::vector<P3>& p, const std::vector<T>& w) { return { p, w }; }
};
}
struct SynRad : Quadrature<SynRad> {
  using base_type = Quadrature<SynRad>; using point_type = T; using weight_type = T; using point_container = std::vector<T>; using weight_container = std::vector<T>;
  SynRad(const std::vector<T>& p, const std::vector<T>& w) : base_type(p, w) {}
};
struct SynAng : Quadrature<SynAng> {
  using base_type = Quadrature<SynAng>; using point_type = P3; using weight_type = T; using point_container = std::vector<P3>; using weight_container = std::vector<T>;
  SynAng(const std::vector<P3>& p, const std::vector<T>& w) : base_type(p, w) {}
};
