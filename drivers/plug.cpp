// Rules, maps and combinations a user of the library defines, over integers.
//   plug PLAN OUT      lines: incl n k a b c cx cy cz d
#include "common.hpp"
#include <integratorxx/quadratures/radial/radial_transform.hpp>
#include <integratorxx/composite_quadratures/spherical_quadrature.hpp>
#include <integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp>
#include <integratorxx/batch/spherical_micro_batcher.hpp>
using namespace IntegratorXX;
#include "syn.hpp"
static std::vector<long> asked;
static T DEN = 1;   // the user rule lives on [-6/DEN, 6/DEN]: its nodes and weights are integers over DEN
template <bool Incl> struct UserRule;
namespace IntegratorXX {
template <bool Incl> struct quadrature_traits<UserRule<Incl>> {
  using point_type = T; using weight_type = T; using point_container = std::vector<T>; using weight_container = std::vector<T>;
  static constexpr bool bound_inclusive = Incl;
  static std::tuple<point_container, weight_container> generate(size_t n) {
    asked.push_back((long)n); point_container p; weight_container w; long m = (long)n;
    for(long i = 1; i <= m; i++) { p.push_back((T)((7 * i * i + 3 * i * m) % 13 - 6) / DEN); w.push_back((T)((5 * i + m) % 11 + 1) / DEN); }
    return { p, w }; }
};
}
template <bool Incl> struct UserRule : Quadrature<UserRule<Incl>> {
  using base_type = Quadrature<UserRule<Incl>>; using point_type = T; using weight_type = T; using point_container = std::vector<T>; using weight_container = std::vector<T>;
  UserRule(size_t n) : base_type(n) {}
};
struct UserMap : RadialTraits {
  size_t n; long a, b, c;
  UserMap(size_t n, long a, long b, long c) : n(n), a(a), b(b), c(c) {}
  size_t npts() const override { return n; }
  std::unique_ptr<RadialTraits> clone() const override { return std::make_unique<UserMap>(*this); }
  bool compare(const RadialTraits& o) const noexcept override { auto p = dynamic_cast<const UserMap*>(&o); return p && p->n == n && p->a == a && p->b == b && p->c == c; }
  template <class X> X radial_transform(X x) const { x *= DEN; return a * x * x + b * x + c; }
  template <class X> X radial_jacobian(X x) const { return DEN * (2 * a * (DEN * x) + b); }
};
struct DefMap : UserMap { static inline UserMap now{ 0, 0, 0, 0 }; DefMap() : UserMap(now) {} };   // parameters built without arguments
struct Alien : RadialTraits { size_t npts() const override { return 3; } std::unique_ptr<RadialTraits> clone() const override { return std::make_unique<Alien>(*this); } bool compare(const RadialTraits& o) const noexcept override { return dynamic_cast<const Alien*>(&o); } };
// a combination with types of its own
struct Pt { long r, x, s; };
struct Comb {
  // the points of both rules and the weights of both rules have the same type T here, so the op
  // is told apart by a distinct weight type of the second rule
  Pt operator()(const T& r, const P3& x) const { return { (long)r, (long)x[0], (long)r + (long)x[0] }; }
  int operator()(const T& wr, const long& wx) const { return 3 * (int)wr - (int)wx; }
};
struct TagRule;
namespace IntegratorXX {
template <> struct quadrature_traits<TagRule> {
  using point_type = P3; using weight_type = long; using point_container = std::vector<P3>; using weight_container = std::vector<long>;
  static std::tuple<point_container, weight_container> generate(size_t n) { point_container p; weight_container w; long m = (long)n;
    for(long i = 1; i <= m; i++) { p.push_back(P3{ (T)((7 * i * i + 3 * i * m) % 13 - 6), 0, 0 }); w.push_back((5 * i + m) % 11 + 1); } return { p, w }; }
};
}
struct TagRule : Quadrature<TagRule> { using point_type = P3; using weight_type = long; using point_container = std::vector<P3>; using weight_container = std::vector<long>; TagRule(size_t n) : Quadrature<TagRule>(n) {} };

static long in(T x) { return std::isfinite(x) && x == std::floor(x) && std::fabs(x) < 2e9 ? (long)x : 1999999999l; }
static std::string arr(std::initializer_list<long> v) { std::string s = "["; for(auto x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "]"; }
template <class Q> std::string l1(const Q& q) { std::string s = "["; for(size_t i = 0; i < std::max(q.points().size(), q.weights().size()); i++) { if(i) s += ","; s += i < q.points().size() && i < q.weights().size() ? arr({ in(q.points()[i]), in(q.weights()[i]) }) : "[]"; } return s + "]"; }
template <class P, class W> std::string l3(const P& p, const W& w) { std::string s = "["; for(size_t i = 0; i < std::max(p.size(), w.size()); i++) { if(i) s += ","; s += i < p.size() && i < w.size() ? arr({ in(p[i][0]), in(p[i][1]), in(p[i][2]), in(w[i]) }) : "[]"; } return s + "]"; }
template <class Q> std::string l3(const Q& q) { return l3(q.points(), q.weights()); }
static SynAng ang(long k) { std::vector<P3> p; std::vector<T> w; for(long j = 1; j <= k; j++) { p.push_back(P3{ (T)j, (T)(2 - j), (T)((j * j) % 3 - 1) }); w.push_back((T)(j + 3)); } return SynAng(p, w); }

template <bool Incl> std::string one(size_t n, long k, long a, long b, long c, P3 cen) {
  using R = RadialTransformQuadrature<UserRule<Incl>, UserMap>;
  std::string o = "{"; asked.clear();
  std::string q = "{"; vf::kv(q, "incl", Incl); vf::kv(q, "n", n); vf::kv(q, "k", k); vf::kv(q, "a", a); vf::kv(q, "b", b); vf::kv(q, "c", c); vf::kv(q, "d", (long)DEN); vf::kr(q, "cen", arr({ in(cen[0]), in(cen[1]), in(cen[2]) })); vf::kr(o, "q", q + "}");
  UserMap t(n, a, b, c); const RadialTraits& base = t; auto cl = base.clone();
  R r1(t), r2(base), r3(*cl), r4(n, a, b, c), r5(r1), r6(std::move(r4)); R r7(n, a, b, c);
  DefMap::now = t; RadialTransformQuadrature<UserRule<Incl>, DefMap> r8;
  vf::kr(o, "radial", "[" + l1(r8) + "," + l1(r1) + "," + l1(r2) + "," + l1(r3) + "," + l1(r5) + "," + l1(r6) + "," + l1(r7) + "]");
  std::string as = "["; for(auto x : asked) as += (as.size() > 1 ? "," : "") + std::to_string(x); vf::kr(o, "asked", as + "]");
  SynAng A = ang(k); SphericalQuadrature<R, SynAng> s(r1, A, cen); vf::kr(o, "sphere", l3(s));
  auto sc = s.clone(); vf::kr(o, "clone", l3(sc->points(), sc->weights()));
  size_t cut = n / 2; RadialGridPartition<SynAng> p; if(cut) p.add_quad(r1, 0, ang(k == 1 ? 1 : k - 1)); p.add_quad(r1, cut, A); p.finalize(r1);
  PrunedSphericalQuadrature<R, SynAng> ps(r1, p, cen); vf::kr(o, "pruned", l3(ps));
  { using PQ = ProductQuadrature<Comb, R, TagRule>; TagRule tr(k); auto [pp, ww] = quadrature_traits<PQ>::generate(r1, tr); PQ pq(r1, tr); PQ pq2(pq); PQ pq3(std::move(pq2));
    static_assert(std::is_same_v<std::decay_t<decltype(pp[0])>, Pt> && std::is_same_v<std::decay_t<decltype(ww[0])>, int>);
    std::string x = "["; for(size_t i = 0; i < pp.size(); i++) { if(i) x += ","; x += arr({ pp[i].r, pp[i].x, pp[i].s, i < ww.size() ? ww[i] : 1999999999l }); } vf::kr(o, "comb", x + "]"); }
  { SphericalQuadrature<R, SynAng> g(r1, A, cen); SphericalMicroBatcher<std::vector<P3>, std::vector<T>> bt(2, g); std::vector<P3> bp; std::vector<T> bw;
    for(auto&& [lo, up, pp, ww] : bt) { bp.insert(bp.end(), pp.begin(), pp.end()); bw.insert(bw.end(), ww.begin(), ww.end()); } vf::kr(o, "batch", l3(bp, bw)); }
  std::string f = "none"; try { Alien al; const RadialTraits& ab = al; R x(ab); } catch(std::bad_cast&) { f = "bad_cast"; } catch(...) { f = "other"; } vf::kv(o, "foreign", f);
  UserMap u(n, a, b, c + 1); Alien al; vf::kv(o, "same", base.compare(*cl)); vf::kv(o, "other", base.compare(u)); vf::kv(o, "cross", base.compare(al));
  return o + "}";
}
int main(int argc, char** argv) {
  if(argc < 3) return 3;
  std::ifstream is(argv[1]); std::string all = "["; long incl, n, k, a, b, c; T x, y, z, d;
  while(is >> incl >> n >> k >> a >> b >> c >> x >> y >> z >> d) DEN = d, all += (all.size() > 1 ? ",\n" : "") + (incl ? one<true>(n, k, a, b, c, P3{ x, y, z }) : one<false>(n, k, a, b, c, P3{ x, y, z }));
  vf::save(argv[2], all + "]");
}
