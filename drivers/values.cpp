// Programs over radial grid partitions and over rules as values.
//   values parts PLAN OUT     one program per line:  name a b c d;...
//   values rules PLAN OUT     one program per line:  KIND|name a b c;...
#include "common.hpp"
#include <optional>
#include <map>
#include <integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp>
#include <integratorxx/composite_quadratures/spherical_quadrature.hpp>
#include <integratorxx/composite_quadratures/sub_quadrature.hpp>
#ifdef RULES
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/quadratures/radial.hpp>
#include <integratorxx/quadratures/s2.hpp>
#endif
#include "syn.hpp"

static std::string arr(const std::vector<long>& v) { std::string s = "["; for(size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
template <class P, class W> std::string pts(const P& p, const W& w) {
  std::string s = "["; for(size_t i = 0; i < std::max(p.size(), w.size()); i++) { if(i) s += ",";
    if(i < p.size() && i < w.size()) s += arr({ (long)p[i][0], (long)p[i][1], (long)p[i][2], (long)w[i] }); else s += "[]"; } return s + "]"; }
struct Op { std::string name; long a = 0, b = 0, c = 0, d = 0; std::string json(int n) const {
  long x[] = { a, b, c, d }; std::string s = "[\"" + name + "\""; for(int i = 0; i < n; i++) s += "," + std::to_string(x[i]); return s + "]"; } };
static std::vector<Op> parse(const std::string& line) {
  std::vector<Op> v; std::istringstream s(line); std::string t;
  while(std::getline(s, t, ';')) { std::istringstream q(t); Op o; q >> o.name >> o.a >> o.b >> o.c >> o.d; v.push_back(o); } return v; }

// ---- partitions -------------------------------------------------------------------
using Part = RadialGridPartition<SynAng>;
static SynRad radial(long n) { std::vector<T> p, w(n, (T)1); for(long i = 1; i <= n; i++) p.push_back((T)i); return SynRad(p, w); }
static SynAng rule(long r) {
  static const std::vector<std::vector<std::array<int, 4>>> R = { { { 1, 0, 0, 7 } }, { { 0, 2, 0, 5 }, { 0, 0, -3, 4 } }, { { 1, 1, 1, 1 }, { 1, 1, 1, 1 }, { -1, 4, 2, 3 } },
    { { 9, 8, 7, 6 }, { -2, -2, 0, 11 }, { 3, 3, 3, 2 }, { 0, 0, 5, 1 } } };
  std::vector<P3> p; std::vector<T> w; for(auto& x : R.at(r - 1)) { p.push_back(P3{ (T)x[0], (T)x[1], (T)x[2] }); w.push_back((T)x[3]); }
  return SynAng(p, w); }
template <class V> std::string region(const V& v) { return "[" + std::to_string(v.first.first) + "," + std::to_string(v.first.second) + "," + pts(v.second.points(), v.second.weights()) + "]"; }
template <class F> std::string walk(F f) { std::string s = "["; int guard = 0; f([&](const auto& v) { if(++guard > 64) throw std::runtime_error("endless"); s += (s.size() > 1 ? "," : "") + region(v); }); return s + "]"; }
struct PSlot { std::optional<Part> p; int kind = 0; long n = 0; };   // 0 none 1 open 2 done 3 hollow
static std::string show(PSlot& s) {
  if(s.kind != 1 && s.kind != 2) return "{}";
  Part& p = *s.p; const Part& c = p; std::string o = "{";
  std::vector<long> ix; for(auto i : p.partition_idx()) ix.push_back(i);
  vf::kr(o, "idx", arr(ix));
  if(s.kind == 2) {
    const size_t K = ix.empty() ? 0 : ix.size() - 1; std::string w = "[";
    auto add = [&](auto f) { if(w.size() > 1) w += ","; w += walk(f); };
    add([&](auto e) { for(auto&& v : p) e(v); });
    add([&](auto e) { for(auto&& v : c) e(v); });
    add([&](auto e) { for(auto i = p.begin(); i != p.end(); ++i) e(*i); });
    add([&](auto e) { for(auto i = c.begin(); i != c.end(); ++i) e(*i); });
    add([&](auto e) { for(auto i = c.cbegin(); !(i == c.cend()); ++i) e(*i); });
    add([&](auto e) { for(auto i = p.begin(); !(i == p.end());) e(*i++); });
    add([&](auto e) { for(auto i = c.begin(); i != c.end();) { auto j = i++; if(j == i) throw std::runtime_error("same"); e(*j); } });
    add([&](auto e) { for(auto i = p.cbegin(); i != p.cend();) e(*i++); });
    add([&](auto e) { for(size_t k = 0; k < K; k++) e(*(p.begin() + (int)k)); });
    add([&](auto e) { for(size_t k = 0; k < K; k++) e(*(c.begin() + (int)k)); });
    add([&](auto e) { size_t k = 0; for(auto [r, q] : c) { // what is delivered is a copy
        e(std::make_pair(r, q)); if(q.points().size()) q.points()[0][0] += 5; r.first += 9; k++; } });
    add([&](auto e) { auto i = p.begin(); auto last = p.end(); while(i != last) { auto v = *i; auto j = i; ++j; e(v); i = j; } });
    vf::kr(o, "walks", w + "]");
    PrunedSphericalQuadrature<SynRad, SynAng> g(radial(s.n), c); vf::kr(o, "grid", pts(g.points(), g.weights()));
  }
  return o + "}";
}
static int parts(const char* plan, const char* out) {
  std::ifstream is(plan); std::string line, all = "[";
  while(std::getline(is, line)) {
    PSlot s[3]; std::string o = "[";
    for(auto& op : parse(line)) {
      PSlot& a = s[op.a]; PSlot* b = op.b >= 0 && op.b < 3 ? &s[op.b] : nullptr;
      if(op.name == "new") { a.p.reset(); a.p.emplace(); a.kind = 1; a.n = op.b; }
      else if(op.name == "ctor") {
        std::vector<size_t> st{ 0 }; for(long i = 1; i < op.b; i++) if((op.c >> (i - 1)) & 1) st.push_back(i);
        auto R = radial(op.b); auto q = [&](int i) { return rule((op.d + i) % 4 + 1); }; a.p.reset();
        if(st.size() == 1) a.p.emplace(R, st[0], q(0)); else if(st.size() == 2) a.p.emplace(R, st[0], q(0), st[1], q(1));
        else if(st.size() == 3) a.p.emplace(R, st[0], q(0), st[1], q(1), st[2], q(2)); else a.p.emplace(R, st[0], q(0), st[1], q(1), st[2], q(2), st[3], q(3));
        a.kind = 2; a.n = op.b;
      }
      else if(op.name == "add") { auto& ix = a.p->partition_idx(); a.p->add_quad(radial(a.n), ix.empty() ? 0 : ix.back() + 1 + op.b, rule(op.c)); }
      else if(op.name == "fin") { a.p->finalize(radial(a.n)); a.kind = 2; }
      else if(op.name == "copy") { a.p.reset(); a.p.emplace(std::as_const(*b->p)); a.kind = b->kind; a.n = b->n; }
      else if(op.name == "move") { a.p.reset(); a.p.emplace(std::move(*b->p)); a.kind = b->kind; a.n = b->n; b->kind = 3; }
      else if(op.name == "assign") { auto& r = (*a.p = std::as_const(*b->p)); if(&r != &*a.p) return 3; a.kind = b->kind; a.n = b->n; }
      else if(op.name == "massign") { *a.p = std::move(*b->p); a.kind = b->kind; a.n = b->n; b->kind = 3; }
      else if(op.name == "cut") a.p->partition_idx()[op.b] = op.c;
      else if(op.name == "del") { a.p.reset(); a.kind = 0; }
      else return 3;
      o += (o.size() > 1 ? ",{" : "{"); vf::kr(o, "o", op.json(4)); vf::kr(o, "s", "[" + show(s[0]) + "," + show(s[1]) + "," + show(s[2]) + "]"); o += "}";
    }
    all += (all.size() > 1 ? ",\n" : "") + o + "]";
  }
  vf::save(out, all + "]"); return 0;
}

#ifdef RULES
// ---- rules ------------------------------------------------------------------------
struct Ids { std::map<std::vector<uint64_t>, long> m;
  static uint64_t b(double x) { uint64_t u; memcpy(&u, &x, 8); return u; }
  long at(std::vector<uint64_t> k) { return m.emplace(std::move(k), (long)m.size() + 1).first->second; }
  long id(T x) { return at({ b(x) }); } long id(const P3& a) { return at({ b(a[0]), b(a[1]), b(a[2]) }); } };
static Ids ids;
static void value(long v, T& x) { x = (T)(1000 + v) / 7; }
static void value(long v, P3& x) { x = P3{ (T)(1000 + v) / 3, (T)v, (T)-v }; }
template <class B> std::string content(const B* q) {
  if(!q) return "[]";
  std::vector<long> p, w; for(auto& x : q->points()) p.push_back(ids.id(x)); for(auto& x : q->weights()) w.push_back(ids.id(x));
  return "[" + arr(p) + "," + arr(w) + "," + std::to_string(q->npts()) + "]"; }
template <class Q, class Make> std::string program(const std::string& kind, const std::vector<Op>& ops, Make make) {
  using B = Quadrature<Q>; using S = SubQuadrature<Q>; using SBase = Quadrature<S>; std::optional<Q> d[2]; std::optional<B> b[2]; std::optional<S> s[2]; std::vector<Q> v; std::string o = "{"; vf::kv(o, "kind", kind);
  using P = typename B::point_type; using W = typename B::weight_type;
  { const Q f = make(); std::string c = content((const B*)&f); c = c.substr(0, c.rfind(",")) + "]"; vf::kr(o, "fresh", c);
    std::vector<long> vp, vw; for(int i = 1; i <= 6; i++) { P x; value(i, x); vp.push_back(ids.id(x)); W y; value(i, y); vw.push_back(ids.id(y)); } vf::kr(o, "valp", arr(vp)); vf::kr(o, "valw", arr(vw)); }
  vf::kr(o, "steps", "[");
  bool first = true;
  auto gp = [&](auto& q, const Op& op) { size_t n = q.points().size(); if(n) value(op.c, q.points()[op.b % n]); };
  auto gw = [&](auto& q, const Op& op) { size_t n = q.weights().size(); if(n) value(op.c, q.weights()[op.b % n]); };
  auto gpd = [&](auto& q, const Op& op) { size_t n = q.npts(); if(n) value(op.c, q.points_data()[op.b % n]); };
  auto gwd = [&](auto& q, const Op& op) { size_t n = q.npts(); if(n) value(op.c, q.weights_data()[op.b % n]); };
  for(auto& op : ops) { const auto& n = op.name; long a = op.a, c = op.b;
    if(n == "mk") { d[a].reset(); d[a].emplace(make()); } else if(n == "bmk") { b[a].reset(); const Q f = make(); b[a].emplace(f); }
    else if(n == "copy") { d[a].reset(); d[a].emplace(std::as_const(*d[c])); } else if(n == "move") { d[a].reset(); d[a].emplace(std::move(*d[c])); d[c].reset(); }
    else if(n == "slice") { b[a].reset(); b[a].emplace(std::as_const(*d[c])); } else if(n == "mslice") { b[a].reset(); b[a].emplace(std::move(*d[c])); d[c].reset(); }
    else if(n == "bcopy") { b[a].reset(); b[a].emplace(std::as_const(*b[c])); } else if(n == "bmove") { b[a].reset(); b[a].emplace(std::move(*b[c])); b[c].reset(); }
    else if(n == "push") v.push_back(std::as_const(*d[a])); else if(n == "mpush") { v.push_back(std::move(*d[a])); d[a].reset(); }
    else if(n == "pop") v.pop_back(); else if(n == "grow") { v.reserve(v.capacity() + 1); } else if(n == "vcopy") { std::vector<Q> w(v); v.swap(w); }
    else if(n == "get") { d[a].reset(); d[a].emplace(v[c]); }
    else if(n == "dwp") gp(*d[a], op); else if(n == "dww") gw(*d[a], op); else if(n == "dwpd") gpd(*d[a], op); else if(n == "dwwd") gwd(*d[a], op);
    else if(n == "bwp") gp(*b[a], op); else if(n == "bww") gw(*b[a], op); else if(n == "bwpd") gpd(*b[a], op); else if(n == "bwwd") gwd(*b[a], op);
    else if(n == "vwp") gp(v[a], op); else if(n == "vww") gw(v[a], op);
    else if(n == "sd" || n == "sb") { const B& q = n == "sd" ? (const B&)std::as_const(*d[c]) : std::as_const(*b[c]); size_t L = q.npts(), lo = op.c % L, hi = lo + 1 + op.c / L % (L - lo); s[a].reset(); s[a].emplace(std::make_pair(lo, hi), q); }
    else if(n == "scopy") { s[a].reset(); s[a].emplace(std::as_const(*s[c])); } else if(n == "sdel") s[a].reset();
    else if(n == "swp") gp(*s[a], op); else if(n == "sww") gw(*s[a], op);
    else if(n == "ddel") d[a].reset(); else if(n == "bdel") b[a].reset(); else { fprintf(stderr, "op %s\n", n.c_str()); exit(3); }
    if(!first) o += ","; first = false; o += "{"; vf::kr(o, "o", op.json(3));
    auto D = [&](int i) { return content(d[i] ? (const B*)&*d[i] : nullptr); }; auto C = [&](int i) { return content(b[i] ? &*b[i] : nullptr); };
    vf::kr(o, "d", "[" + D(0) + "," + D(1) + "]"); vf::kr(o, "b", "[" + C(0) + "," + C(1) + "]");
    auto U = [&](int i) { return content(s[i] ? (const SBase*)&*s[i] : nullptr); }; vf::kr(o, "s", "[" + U(0) + "," + U(1) + "]");
    std::string z = "["; for(auto& q : v) z += (z.size() > 1 ? "," : "") + content((const B*)&q); vf::kr(o, "v", z + "]"); o += "}";
  }
  return o + "]}";
}
static int rules(const char* plan, const char* out) {
  std::ifstream is(plan); std::string line, all = "[";
  using gl = GaussLegendre<T, T>; using ll = LebedevLaikov<T>; using bk = Becke<T, T>;
  while(std::getline(is, line)) {
    auto bar = line.find('|'); std::string k = line.substr(0, bar); auto ops = parse(line.substr(bar + 1)); std::string r;
    if(k == "gl") r = program<gl>(k, ops, [] { return gl(5); });
    else if(k == "lobatto") r = program<GaussLobatto<T, T>>(k, ops, [] { return GaussLobatto<T, T>(4); });
    else if(k == "gc1") r = program<GaussChebyshev1<T, T>>(k, ops, [] { return GaussChebyshev1<T, T>(3); });
    else if(k == "gc2") r = program<GaussChebyshev2<T, T>>(k, ops, [] { return GaussChebyshev2<T, T>(3); });
    else if(k == "gc3") r = program<GaussChebyshev3<T, T>>(k, ops, [] { return GaussChebyshev3<T, T>(3); });
    else if(k == "gc2m") r = program<GaussChebyshev2Modified<T, T>>(k, ops, [] { return GaussChebyshev2Modified<T, T>(2); });
    else if(k == "trap") r = program<UniformTrapezoid<T, T>>(k, ops, [] { return UniformTrapezoid<T, T>(4, 0., 1.); });
    else if(k == "becke") r = program<bk>(k, ops, [] { return bk(4, 1.5); });
    else if(k == "mk") r = program<MuraKnowles<T, T>>(k, ops, [] { return MuraKnowles<T, T>(4, 1.5); });
    else if(k == "mhl") r = program<MurrayHandyLaming<T, T>>(k, ops, [] { return MurrayHandyLaming<T, T>(4, 1.5); });
    else if(k == "ta") r = program<TreutlerAhlrichs<T, T>>(k, ops, [] { return TreutlerAhlrichs<T, T>(4, 1.5); });
    else if(k == "AhrensBeylkin") r = program<AhrensBeylkin<T>>(k, ops, [] { return AhrensBeylkin<T>(72); });
    else if(k == "Delley") r = program<Delley<T>>(k, ops, [] { return Delley<T>(14); });
    else if(k == "LebedevLaikov") r = program<ll>(k, ops, [] { return ll(6); });
    else if(k == "Womersley") r = program<Womersley<T>>(k, ops, [] { return Womersley<T>(6); });
    else if(k == "subgl") r = program<SubQuadrature<gl>>(k, ops, [] { return SubQuadrature<gl>(std::make_pair((size_t)1, (size_t)4), gl(6)); });
    else if(k == "subll") r = program<SubQuadrature<ll>>(k, ops, [] { return SubQuadrature<ll>(std::make_pair((size_t)2, (size_t)5), ll(14)); });
    else if(k == "synrad") r = program<SynRad>(k, ops, [] { return radial(3); });
    else if(k == "synang") r = program<SynAng>(k, ops, [] { return rule(3); });
    else if(k == "sphere") { using S = SphericalQuadrature<bk, ll>; r = program<S>(k, ops, [] { return S(bk(2, 1.), ll(6), P3{ 1, 2, 3 }); }); }
    else if(k == "pruned") { using S = PrunedSphericalQuadrature<SynRad, SynAng>; r = program<S>(k, ops, [] { auto R = radial(3); RadialGridPartition<SynAng> p(R, 0, rule(1), 2, rule(2)); return S(R, p, P3{ 1, 2, 3 }); }); }
    else return 3;
    all += (all.size() > 1 ? ",\n" : "") + r;
  }
  vf::save(out, all + "]"); return 0;
}
#endif
int main(int argc, char** argv) {
  if(argc < 4) return 3;
  std::string m = argv[1];
  if(m == "parts") return parts(argv[2], argv[3]);
#ifdef RULES
  if(m == "rules") return rules(argv[2], argv[3]);
#endif
  return 3;
}
