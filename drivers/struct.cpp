// Composite grids over synthetic integer rules and over real rules; sub-ranges; access.
//   struct cases PLAN OUT     constructions of the specification, through every API route
//   struct real PLAN OUT      real radial x angular rules, exact numbers
//   struct access PLAN OUT    bulk containers, element access, pointers, sub-ranges
#include "common.hpp"
#include <integratorxx/composite_quadratures/spherical_quadrature.hpp>
#include <integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp>
#include <integratorxx/composite_quadratures/product_quadrature.hpp>
#include <integratorxx/composite_quadratures/sub_quadrature.hpp>
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/quadratures/radial.hpp>
#include <integratorxx/quadratures/s2.hpp>
#ifndef WITH_FLOAT
#include <integratorxx/generators/spherical_factory.hpp>
#endif
#include <map>
using namespace IntegratorXX;
#include "syn.hpp"
// asymmetric generic combination
struct MixOp { T operator()(const T& a, const T& b) const { return 10 * a + b; } };

// ---- integers ---------------------------------------------------------------------
static long integer(T x) { return std::isfinite(x) && x == std::floor(x) && std::fabs(x) < 2e9 ? (long)x : 1999999999l; }
static std::string ints(std::initializer_list<T> v) { std::string s = "["; for(auto x : v) { if(s.size() > 1) s += ","; s += std::to_string(integer(x)); } return s + "]"; }
static std::string ints(const P3& p) { return ints({ p[0], p[1], p[2] }); }
template <class P, class W> std::string list3(const P& p, const W& w) {
  std::string s = "["; size_t n = std::max(p.size(), w.size());
  for(size_t i = 0; i < n; i++) {
    if(s.size() > 1) s += ",";
    if(i < p.size() && i < w.size()) s += ints({ p[i][0], p[i][1], p[i][2], w[i] }); else s += "[]";
  }
  return s + "]";
}
template <class P, class W> std::string list1(const P& p, const W& w) {
  std::string s = "["; size_t n = std::max(p.size(), w.size());
  for(size_t i = 0; i < n; i++) { if(s.size() > 1) s += ","; if(i < p.size() && i < w.size()) s += ints({ p[i], w[i] }); else s += "[]"; }
  return s + "]";
}
struct Region { long b, e; std::vector<P3> p; std::vector<T> w; };
static std::string show(size_t b, size_t e, const std::vector<P3>& p, const std::vector<T>& w) {
  return "[" + std::to_string(vf::clip((long)b)) + "," + std::to_string(vf::clip((long)e)) + "," + list3(p, w) + "]";
}
using AQ = Quadrature<SynAng>; using RQ = Quadrature<SynRad>; using RGP = RadialGridPartition<SynAng>;
using PSQ = PrunedSphericalQuadrature<SynRad, SynAng>; using SQ = SphericalQuadrature<SynRad, SynAng>;

struct Outs { // distinct outputs, each with the routes that gave it
  std::map<std::string, std::vector<std::string>> m; std::vector<std::string> order;
  void add(const std::string& kind, const std::string& route, const std::string& body) {
    std::string k = "\"kind\":\"" + kind + "\"," + body; if(!m.count(k)) order.push_back(k); m[k].push_back(route);
  }
  std::string str() const {
    std::string s = "[";
    for(auto& k : order) { if(s.size() > 1) s += ","; s += "{" + k + ",\"routes\":["; bool f = true; for(auto& r : m.at(k)) { if(!f) s += ","; f = false; s += "\"" + r + "\""; } s += "]}"; }
    return s + "]";
  }
};
static std::string body(const P3& c, size_t npts, size_t np, size_t nw, const std::string& l) {
  return "\"c\":" + ints(c) + ",\"npts\":" + std::to_string(vf::clip((long)npts)) + ",\"np\":" + std::to_string(np) + ",\"nw\":" + std::to_string(nw) + ",\"grid\":" + l;
}
template <class G> std::string gridbody(const G& g) { return body(g.center(), g.npts(), g.points().size(), g.weights().size(), list3(g.points(), g.weights())); }
using BASE = SphericalQuadratureBase<std::vector<P3>, std::vector<T>>;
template <class G> void record(Outs& o, const std::string& route, const G& g) {
  o.add("sphere", route, gridbody(g));
  const BASE& b = g; o.add("sphere", route + ":base", gridbody(b));
  const typename G::quad_base_type& q = g;
  o.add("sphere", route + ":quad", body(g.center(), q.npts(), q.points().size(), q.weights().size(), list3(q.points(), q.weights())));
  G cp(g); o.add("sphere", route + ":copy", gridbody(cp));
  G mv(std::move(cp)); o.add("sphere", route + ":move", gridbody(mv));
  auto cl = b.clone(); o.add("sphere", route + ":clone", gridbody(*cl));
}
// iteration over a partition
template <class It> std::string walk(It b, It e) { std::string s = "["; size_t k = 0; for(; b != e && k < 5000; ++b, ++k) { auto v = *b; if(s.size() > 1) s += ","; s += show(v.first.first, v.first.second, v.second.points(), v.second.weights()); } return s + "]"; }
static void iterate(Outs& o, const std::string& route, RGP& r) {
  o.add("partition", route + ":it", "\"list\":" + walk(r.begin(), r.end()));
  const RGP& c = r;
  o.add("partition", route + ":cit", "\"list\":" + walk(c.begin(), c.end()));
  o.add("partition", route + ":cbegin", "\"list\":" + walk(c.cbegin(), c.cend()));
  { std::string s = "["; size_t k = 0; for(auto it = r.begin(); it != r.end() && k < 5000; k++) { auto old = it++; auto v = *old; if(s.size() > 1) s += ","; s += show(v.first.first, v.first.second, v.second.points(), v.second.weights()); } o.add("partition", route + ":post", "\"list\":" + s + "]"); }
  { std::string s = "["; for(size_t k = 0; k < r.partition_idx().size() - 1 && k < 5000; k++) { auto it = r.begin(); it + (int)k; auto v = *it; if(s.size() > 1) s += ","; s += show(v.first.first, v.first.second, v.second.points(), v.second.weights()); } o.add("partition", route + ":plus", "\"list\":" + s + "]"); }
}
static std::string onecase(const P3& c, const std::vector<T>& rp, const std::vector<T>& rw, const std::vector<Region>& rg) {
  Outs o; SynRad rad(rp, rw); std::vector<SynAng> ang; for(auto& r : rg) ang.emplace_back(r.p, r.w);
  const P3 zero{ 0, 0, 0 };
  // partitions by every route
  RGP a; for(size_t k = 0; k < rg.size(); k++) a.add_quad(rad, rg[k].b, ang[k]); a.finalize(rad);
  iterate(o, "add", a); record(o, "add", PSQ(rad, a, c));
  { RGP b(a); iterate(o, "copied", b); record(o, "copied", PSQ(rad, b, c)); }
  { RGP b; b.add_quad(rad, 0, ang.back()); b.finalize(rad); b = a; iterate(o, "assigned", b); record(o, "assigned", PSQ(rad, b, c));
    RGP d(std::move(b)); iterate(o, "moved", d); record(o, "moved", PSQ(rad, d, c));
    RGP e; e.add_quad(rad, 0, ang.back()); e.finalize(rad); e = std::move(d); iterate(o, "moveassigned", e); record(o, "moveassigned", PSQ(rad, e, c)); }
  { RGP b; b.add_quad(rad, 0, ang[0]); b.finalize(rad); b.finalize(rad); if(rg.size() == 1) record(o, "finalised twice", PSQ(rad, b, c)); }
  auto& A = ang; auto& R = rg;
  auto var = [&](RGP v) { iterate(o, "variadic", v); record(o, "variadic", PSQ(rad, v, c)); };
  // as documented: the caller passes Quadrature<Angular> values
  std::vector<AQ> aq(ang.begin(), ang.end());
  if(rg.size() == 1) var(RGP(rad, (size_t)0, aq[0]));
  if(rg.size() == 2) var(RGP(rad, (size_t)0, aq[0], (size_t)R[1].b, aq[1]));
  if(rg.size() == 3) var(RGP(rad, (size_t)0, aq[0], (size_t)R[1].b, aq[1], (size_t)R[2].b, aq[2]));
  if(rg.size() == 4) var(RGP(rad, (size_t)0, aq[0], (size_t)R[1].b, aq[1], (size_t)R[2].b, aq[2], (size_t)R[3].b, aq[3]));
  if(rg.size() == 5) var(RGP(rad, (size_t)0, aq[0], (size_t)R[1].b, aq[1], (size_t)R[2].b, aq[2], (size_t)R[3].b, aq[3], (size_t)R[4].b, aq[4]));
  record(o, "default centre", PSQ(rad, a));
  if(c != zero) record(o, "at origin", PSQ(rad, a, zero));
#ifndef WITH_FLOAT
  { auto g = SphericalGridFactory::generate_pruned_grid(rad, a); o.add("sphere", "default centre:factory", gridbody(*g)); }
#endif
  if(rg.size() == 1) {
    const SynAng& q = ang[0];
    record(o, "product", SQ(rad, q, c)); record(o, "default centre:product", SQ(rad, q));
    { const RQ& rb = rad; const AQ& ab = q; record(o, "product of bases", SQ(rb, ab, c)); }
#ifndef WITH_FLOAT
    { auto g = SphericalGridFactory::generate_unpruned_grid(rad, q); o.add("sphere", "default centre:factory product", gridbody(*g)); }
#endif
    { using PT = ProductQuadrature<detail::spherical_combine_op<T>, SynRad, SynAng>; auto [p, w] = quadrature_traits<PT>::generate(rad, q);
      o.add("plain", "generic product", "\"np\":" + std::to_string(p.size()) + ",\"nw\":" + std::to_string(w.size()) + ",\"grid\":" + list3(p, w)); }
    { // product of two one-dimensional rules: the radial rule and one made of the angular weights
      std::vector<T> p2, w2; for(size_t i = 0; i < rg[0].w.size(); i++) { p2.push_back(rg[0].p[i][0]); w2.push_back(rg[0].w[i]); }
      SynRad r2(p2, w2); using PT = ProductQuadrature<MixOp, SynRad, SynRad>;
      auto [p, w] = quadrature_traits<PT>::generate(rad, r2);
      o.add("mixed", "generic product", "\"np\":" + std::to_string(p.size()) + ",\"nw\":" + std::to_string(w.size()) + ",\"grid\":" + list1(p, w));
      auto [p3, w3] = quadrature_traits<PT>::generate(r2, rad);
      o.add("mixed21", "generic product", "\"np\":" + std::to_string(p3.size()) + ",\"nw\":" + std::to_string(w3.size()) + ",\"grid\":" + list1(p3, w3)); }
  }
  std::string s = "{\"c\":" + ints(c) + ",\"rad\":" + list1(rp, rw) + ",\"regions\":[";
  for(size_t k = 0; k < rg.size(); k++) { if(k) s += ","; s += show(rg[k].b, rg[k].e, rg[k].p, rg[k].w); }
  return s + "],\"outs\":" + o.str() + "}";
}
static int cases(const char* plan, const char* out) {
  std::ifstream is(plan); std::string s = "["; long cx, cy, cz; size_t nr;
  while(is >> cx >> cy >> cz >> nr) {
    std::vector<T> rp(nr), rw(nr); for(size_t i = 0; i < nr; i++) is >> rp[i] >> rw[i];
    size_t ng; is >> ng; std::vector<Region> rg(ng);
    for(auto& r : rg) { size_t na; is >> r.b >> r.e >> na; r.p.resize(na); r.w.resize(na); for(size_t i = 0; i < na; i++) is >> r.p[i][0] >> r.p[i][1] >> r.p[i][2] >> r.w[i]; }
    if(s.size() > 1) s += ",\n";
    s += onecase({ (T)cx, (T)cy, (T)cz }, rp, rw, rg);
  }
  vf::save(out, s + "]"); return 0;
}
// ---- real rules ---------------------------------------------------------------------
using bk = Becke<T, T>; using mk = MuraKnowles<T, T>; using mhl = MurrayHandyLaming<T, T>; using ta = TreutlerAhlrichs<T, T>;
template <class F> void withrad(const std::string& s, size_t n, double R, F f) {
  if(s == "becke") f(bk(n, R)); else if(s == "mk") f(mk(n, R)); else if(s == "mhl") f(mhl(n, R)); else if(s == "ta") f(ta(n, R)); else exit(3);
}
template <class F> void withang(const std::string& s, size_t n, F f) {
  if(s == "AhrensBeylkin") f(AhrensBeylkin<T>(n)); else if(s == "Delley") f(Delley<T>(n)); else if(s == "LebedevLaikov") f(LebedevLaikov<T>(n)); else if(s == "Womersley") f(Womersley<T>(n)); else exit(3);
}
template <class P, class W> void grid4(std::string& o, const P& p, const W& w) { o += "["; size_t n = std::max(p.size(), w.size()); for(size_t i = 0; i < n; i++) { if(i) o += ","; if(i < p.size() && i < w.size()) { o += "["; for(int k = 0; k < 3; k++) { vf::num(o, p[i][k]); o += ","; } vf::num(o, w[i]); o += "]"; } else o += "[]"; } o += "]"; }
// lines: sphere SCHEME N R FAM NANG cx cy cz | pruned SCHEME N R FAM cx cy cz NREG {b e nang}
static int real(const char* plan, const char* out) {
  std::ifstream is(plan); std::string s = "[", kind, rs, as; size_t n; std::string Rt, x, y, z; bool first = true;
  while(is >> kind >> rs >> n >> Rt >> as) {
    std::vector<std::array<size_t, 3>> rg; size_t na, ng;
    if(kind == "sphere") { is >> na >> x >> y >> z; rg.push_back({ 0, n, na }); }
    else { is >> x >> y >> z >> ng; rg.resize(ng); for(auto& r : rg) is >> r[0] >> r[1] >> r[2]; }
    P3 c{ (T)strtod(x.c_str(), 0), (T)strtod(y.c_str(), 0), (T)strtod(z.c_str(), 0) };
    if(!first) s += ",\n"; first = false;
    withrad(rs, n, strtod(Rt.c_str(), 0), [&](const auto& r) {
      using RT = std::decay_t<decltype(r)>;
      withang(as, rg[0][2], [&](const auto& a0) {
        using AT = std::decay_t<decltype(a0)>;
        std::string rad, ang = "[";
        { rad = "["; for(size_t i = 0; i < r.npts(); i++) { if(i) rad += ","; rad += "["; vf::num(rad, r.points()[i]); rad += ","; vf::num(rad, r.weights()[i]); rad += "]"; } rad += "]"; }
        s += "{\"kind\":\"" + kind + "\",\"rad\":" + rad + ",\"c\":"; vf::nums(s, c); s += ",\"regions\":[";
        RadialGridPartition<AT> p;
        for(size_t k = 0; k < rg.size(); k++) { AT a(rg[k][2]); p.add_quad(r, rg[k][0], a); if(k) s += ","; s += "[" + std::to_string(rg[k][0]) + "," + std::to_string(rg[k][1]) + ","; grid4(s, a.points(), a.weights()); s += "]"; }
        p.finalize(r); s += "]";
        auto put = [&](const auto& g) { s += ",\"npts\":" + std::to_string(g.npts()) + ",\"np\":" + std::to_string(g.points().size()) + ",\"nw\":" + std::to_string(g.weights().size()) + ",\"gc\":"; vf::nums(s, g.center()); s += ",\"grid\":"; grid4(s, g.points(), g.weights()); s += "}"; };
        if(kind == "sphere") put(SphericalQuadrature<RT, AT>(r, a0, c)); else put(PrunedSphericalQuadrature<RT, AT>(r, p, c));
      });
    });
  }
  vf::save(out, s + "]"); return 0;
}
// ---- element access and sub-ranges ------------------------------------------------------
// values are interned: equal numbers <=> bit-identical values
struct Bits { std::map<std::vector<uint64_t>, long> m;
  static uint64_t b(double x) { uint64_t u; memcpy(&u, &x, 8); return u; }
  long id(double x) { return m.emplace(std::vector<uint64_t>{ b(x) }, (long)m.size() + 1).first->second; }
  template <class U, size_t N> long id(const std::array<U, N>& a) { std::vector<uint64_t> k; for(auto v : a) k.push_back(b((double)v)); k.push_back(0); return m.emplace(k, (long)m.size() + 1).first->second; } };
template <class F> std::string lst(size_t n, F f) { std::string s = "["; for(size_t i = 0; i < n; i++) { if(i) s += ","; s += std::to_string(f(i)); } return s + "]"; }
template <class F> long probe(F f) { try { return f(); } catch(std::exception&) { return -1; } catch(...) { return -2; } }
static bool firstacc = true;
template <class Q> void access(std::string& o, const std::string& name, Q q) {
  using PC = typename quadrature_traits<Q>::point_container; using WC = typename quadrature_traits<Q>::weight_container;
  Bits B; Quadrature<Q>& m = q; const Quadrature<Q>& c = q; const QuadratureBase<PC, WC>& qb = q; 
  const size_t np = c.points().size(), nw = c.weights().size(); const size_t far[] = { 0, 1, 2, 100, 1000000 };
  if(!firstacc) o += ",\n"; firstacc = false;
  o += "{"; vf::kv(o, "name", name); vf::kv(o, "npts", c.npts()); vf::kv(o, "npts2", qb.npts());
  vf::kr(o, "p", lst(np, [&](size_t i) { return B.id(c.points()[i]); })); vf::kr(o, "w", lst(nw, [&](size_t i) { return B.id(c.weights()[i]); }));
  vf::kr(o, "pm", lst(m.points().size(), [&](size_t i) { return B.id(m.points()[i]); })); vf::kr(o, "wm", lst(m.weights().size(), [&](size_t i) { return B.id(m.weights()[i]); }));
  vf::kr(o, "pd", lst(np, [&](size_t i) { return B.id(c.points_data()[i]); })); vf::kr(o, "wd", lst(nw, [&](size_t i) { return B.id(c.weights_data()[i]); }));
  vf::kr(o, "pdm", lst(np, [&](size_t i) { return B.id(m.points_data()[i]); })); vf::kr(o, "wdm", lst(nw, [&](size_t i) { return B.id(m.weights_data()[i]); }));
  vf::kr(o, "pe", lst(np, [&](size_t i) { return probe([&] { return B.id(c.points(i)); }); })); vf::kr(o, "we", lst(nw, [&](size_t i) { return probe([&] { return B.id(c.weights(i)); }); }));
  vf::kr(o, "pem", lst(np, [&](size_t i) { return probe([&] { return B.id(m.points(i)); }); })); vf::kr(o, "wem", lst(nw, [&](size_t i) { return probe([&] { return B.id(m.weights(i)); }); }));
  std::string x = "["; for(size_t k = 0; k < 9; k++) { size_t i = k < 5 ? c.npts() + far[k] : k == 5 ? SIZE_MAX : k == 6 ? (size_t)1 << 32 : k == 7 ? ((size_t)1 << 32) + c.npts() - 1 : (size_t)1 << 63;
    if(k) x += ","; x += "[" + std::to_string(probe([&] { return B.id(c.points(i)); })) + "," + std::to_string(probe([&] { return B.id(c.weights(i)); })) + "]"; }
  vf::kr(o, "beyond", x + "]");
  vf::kr(o, "subs", "[");
  o += "]}";
}
// all or some sub-ranges of a rule
template <class Q> void subs(std::string& o, const std::string& name, const Q& q, size_t stride) {
  Bits B; const Quadrature<Q>& c = q; const size_t n = c.npts();
  if(!firstacc) o += ",\n"; firstacc = false;
  o += "{"; vf::kv(o, "name", name); vf::kv(o, "npts", n);
  vf::kr(o, "p", lst(n, [&](size_t i) { return B.id(c.points()[i]); })); vf::kr(o, "w", lst(n, [&](size_t i) { return B.id(c.weights()[i]); }));
  vf::kr(o, "subs", "["); bool f = true; size_t k = 0;
  for(size_t b = 0; b < n; b++) for(size_t e = b + 1; e <= n; e++) {
    if(k++ % stride && !(b == 0 && e == n) && !(e == n && b + 1 == n)) continue;
    SubQuadrature<Q> s(std::make_pair(b, e), q);
    if(!f) o += ","; f = false;
    o += "[" + std::to_string(b) + "," + std::to_string(e) + "," + std::to_string(s.npts()) + "," + lst(s.points().size(), [&](size_t i) { return B.id(s.points()[i]); }) + "," + lst(s.weights().size(), [&](size_t i) { return B.id(s.weights()[i]); }) + "]";
    // a sub-range of the sub-range
    if(e - b >= 3) { SubQuadrature<SubQuadrature<Q>> t(std::make_pair((size_t)1, e - b - 1), s);
      o += ",[" + std::to_string(b + 1) + "," + std::to_string(e - 1) + "," + std::to_string(t.npts()) + "," + lst(t.points().size(), [&](size_t i) { return B.id(t.points()[i]); }) + "," + lst(t.weights().size(), [&](size_t i) { return B.id(t.weights()[i]); }) + "]"; }
  }
  o += "]}";
}
static int access(const char* plan, const char* out) {
  std::ifstream is(plan); std::string o = "[", k, a; size_t n, m;
  while(is >> k >> n >> m) {
    std::string nm = k + " " + std::to_string(n);
    auto both = [&](const auto& q) { access(o, nm, q); if(m) subs(o, nm + " sub", q, m); };
    if(k == "gl") both(GaussLegendre<T, T>(n)); else if(k == "lobatto") both(GaussLobatto<T, T>(n));
    else if(k == "gc1") both(GaussChebyshev1<T, T>(n)); else if(k == "gc2") both(GaussChebyshev2<T, T>(n)); else if(k == "gc3") both(GaussChebyshev3<T, T>(n)); else if(k == "gc2m") both(GaussChebyshev2Modified<T, T>(n));
    else if(k == "trap") both(UniformTrapezoid<T, T>(n, (T)0, (T)1));
    else if(k == "becke") both(bk(n, 1.)); else if(k == "mk") both(mk(n, 1.)); else if(k == "mhl") both(mhl(n, 1.)); else if(k == "ta") both(ta(n, 1.));
    else if(k == "AhrensBeylkin") both(AhrensBeylkin<T>(n)); else if(k == "Delley") both(Delley<T>(n)); else if(k == "LebedevLaikov") both(LebedevLaikov<T>(n)); else if(k == "Womersley") both(Womersley<T>(n));
    else if(k == "sphere") { SphericalQuadrature<bk, LebedevLaikov<T>> q(bk(n, 1.), LebedevLaikov<T>(6), P3{ 1, 2, 3 }); both(q); }
    else if(k == "pruned") { bk r(n, 1.); RadialGridPartition<LebedevLaikov<T>> p; p.add_quad(r, 0, LebedevLaikov<T>(6)); p.add_quad(r, n / 2, LebedevLaikov<T>(14)); p.finalize(r);
      PrunedSphericalQuadrature<bk, LebedevLaikov<T>> q(r, p, P3{ 1, 2, 3 }); both(q); }
    else return 3;
  }
  vf::save(out, o + "]"); return 0;
}
int main(int argc, char** argv) {
  if(argc < 4) return 3;
  std::string mode = argv[1];
  if(mode == "cases") return cases(argv[2], argv[3]);
  if(mode == "real") return real(argv[2], argv[3]);
  if(mode == "access") return access(argv[2], argv[3]);
  return 3;
}
