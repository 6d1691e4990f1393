// Micro-batching, recentring and object life cycles (public API only).
//   batch cases PLAN OUT      batchings; numbers of a case are ranked per axis (order and
//                             equality are all the specification needs), except oversize batches
//   batch life PLAN OUT       programs over grids, shared handles and batchers, integer content
//   batch recentre PLAN OUT   recentring histories of real grids
#include "syn.hpp"
#include <integratorxx/composite_quadratures/spherical_quadrature.hpp>
#include <integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp>
#include <integratorxx/batch/spherical_micro_batcher.hpp>
#ifndef SYN_ONLY   // the tables take long to compile
#include <integratorxx/quadratures/radial.hpp>
#include <integratorxx/quadratures/s2.hpp>
#endif
#include <map>
using BASE = SphericalQuadratureBase<std::vector<P3>, std::vector<T>>;
using SB = SphericalMicroBatcher<std::vector<P3>, std::vector<T>>;
using SQ = SphericalQuadrature<SynRad, SynAng>; using PSQ = PrunedSphericalQuadrature<SynRad, SynAng>; using RGP = RadialGridPartition<SynAng>;
static T rd(const std::string& s) { return (T)strtod(s.c_str(), 0); }

// ---- ranks ---------------------------------------------------------------------------
struct Ranks {
  std::vector<T> v[4];
  template <class P, class W> Ranks(const P& p, const W& w) {
    for(auto& x : p) for(int k = 0; k < 3; k++) v[k].push_back(x[k]); for(auto x : w) v[3].push_back(x);
    for(auto& a : v) { std::sort(a.begin(), a.end()); a.erase(std::unique(a.begin(), a.end()), a.end()); }
  }
  long r(int k, T x) const { auto i = std::lower_bound(v[k].begin(), v[k].end(), x); return i != v[k].end() && *i == x ? (long)(i - v[k].begin()) : -1; }
  std::string pt(const P3& p) const { return "[" + std::to_string(r(0, p[0])) + "," + std::to_string(r(1, p[1])) + "," + std::to_string(r(2, p[2])) + "]"; }
  std::string pw(const P3& p, T w) const { return "[" + std::to_string(r(0, p[0])) + "," + std::to_string(r(1, p[1])) + "," + std::to_string(r(2, p[2])) + "," + std::to_string(r(3, w)) + "]"; }
  template <class P, class W> std::string list(const P& p, const W& w) const {
    std::string s = "["; size_t n = std::max(p.size(), w.size());
    for(size_t i = 0; i < n; i++) { if(i) s += ","; if(i < p.size() && i < w.size()) s += pw(p[i], w[i]); else s += "[]"; }
    return s + "]"; }
};
using Batch = std::tuple<P3, P3, std::vector<P3>, std::vector<T>>;
static std::string bhash(const Batch& b) {
  vf::Hash h; for(auto x : std::get<0>(b)) h.add((double)x); for(auto x : std::get<1>(b)) h.add((double)x);
  for(auto& p : std::get<2>(b)) for(auto x : p) h.add((double)x); for(auto x : std::get<3>(b)) h.add((double)x);
  return std::to_string(std::get<2>(b).size()) + ":" + std::to_string(std::get<3>(b).size()) + ":" + h.str();
}
static std::string strs(const std::vector<std::string>& v) { std::string s = "["; for(auto& x : v) { if(s.size() > 1) s += ","; s += "\"" + x + "\""; } return s + "]"; }
// the batches by every way of reaching them
static void styles(std::string& o, SB& b, std::vector<Batch>& first) {
  const SB& c = b; const size_t cap = c.nbatches() + 4; std::string s = "["; std::vector<std::string> v;
  auto put = [&](const char* n) { if(s.size() > 1) s += ",\n"; s += std::string("[\"") + n + "\"," + strs(v) + "]"; v.clear(); };
  { auto e = b.end(); for(auto it = b.begin(); it != e && v.size() < cap; ++it) { first.push_back(*it); v.push_back(bhash(first.back())); } } put("iterate");
  { auto it = b.begin(); while(!(it == b.end()) && v.size() < cap) { auto old = it++; v.push_back(bhash(*old)); } } put("post-increment");
  { auto e = c.cend(); for(auto it = c.cbegin(); it != e && v.size() < cap; ++it) v.push_back(bhash(*it)); } put("const iterate");
  { auto it = c.cbegin(); while(!(it == c.cend()) && v.size() < cap) { auto old = it++; v.push_back(bhash(*old)); } } put("const post-increment");
  { for(auto&& x : b) { if(v.size() >= cap) break; v.push_back(bhash(x)); } } put("range for");
  for(size_t i = 0; i < c.nbatches(); i++) v.push_back(bhash(b.at(i))); put("at");
  for(size_t i = 0; i < c.nbatches(); i++) v.push_back(bhash(c.at(i))); put("const at");
  for(size_t i = c.nbatches(); i-- > 0;) v.insert(v.begin(), bhash(c.at(i))); put("at backwards");
  for(size_t i = 0; i < c.nbatches(); i++) { auto it = b.begin(); v.push_back(bhash(*(it + (int)i))); } put("begin plus");
  for(size_t i = 0; i < c.nbatches(); i++) { auto it = c.cbegin(); v.push_back(bhash(*(it + (int)i))); } put("cbegin plus");
  { auto e = b.end(); size_t k = 0; for(auto it = b.begin(); it != e && v.size() < cap; ++it, ++k) { auto [n, pb, pe, wb, we] = it.range(); Batch x{ k < first.size() ? std::get<0>(first[k]) : P3{}, k < first.size() ? std::get<1>(first[k]) : P3{}, { pb, pe }, { wb, we } }; v.push_back(n == (size_t)(pe - pb) ? bhash(x) : "range"); } } put("range");
  { auto e = c.cend(); size_t k = 0; for(auto it = c.cbegin(); it != e && v.size() < cap; ++it, ++k) { auto [n, pb, pe, wb, we] = it.range(); Batch x{ k < first.size() ? std::get<0>(first[k]) : P3{}, k < first.size() ? std::get<1>(first[k]) : P3{}, { pb, pe }, { wb, we } }; v.push_back(n == (size_t)(pe - pb) ? bhash(x) : "range"); } } put("const range");
  vf::kr(o, "styles", s + "]");
  long in = 0; const size_t nb = c.nbatches();
  for(size_t i : { nb, nb + 1, nb + 2, 2 * nb + 7, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + (nb ? nb - 1 : 0), SIZE_MAX - 1, SIZE_MAX }) {
    try { b.at(i); in++; } catch(std::exception&) {} try { c.at(i); in++; } catch(std::exception&) {} }
  vf::kv(o, "beyond", in);
}
static void record(std::string& o, const std::string& kind, const std::string& label, const std::string& max, const std::vector<P3>& p0, const std::vector<T>& w0, SB& b, const std::string& idx, const std::string& dups = "[]") {
  Ranks R(p0, w0); const SB& c = b;
  if(o.size() > 1) o += ",\n"; o += "{"; vf::kv(o, "kind", kind); vf::kv(o, "label", label);
  vf::kv(o, "max", (size_t)strtoull(max.c_str(), 0, 0)); vf::kv(o, "repmax", c.max_batch_size()); vf::kv(o, "exact", c.max_batch_size() == (size_t)strtoull(max.c_str(), 0, 0));
  vf::kv(o, "nb", c.nbatches()); vf::kv(o, "npts", c.npts()); vf::kr(o, "idx", idx); vf::kr(o, "dups", dups);
  vf::kr(o, "in", R.list(p0, w0)); vf::kr(o, "grid", R.list(c.points(), c.weights()));
  vf::kr(o, "quad", R.list(c.quadrature().points(), c.quadrature().weights()));
  // a witness: which input point is at each place of the grid
  std::map<std::array<T, 4>, std::vector<long>> where; for(size_t i = p0.size(); i-- > 0;) where[{ p0[i][0], p0[i][1], p0[i][2], w0[i] }].push_back((long)i + 1);
  std::string pm = "["; for(size_t i = 0; i < c.points().size(); i++) { auto& l = where[{ c.points()[i][0], c.points()[i][1], c.points()[i][2], i < c.weights().size() ? c.weights()[i] : 0 }]; if(i) pm += ","; if(l.empty()) pm += "0"; else { pm += std::to_string(l.back()); l.pop_back(); } }
  vf::kr(o, "from", pm + "]");
  std::vector<Batch> bs; styles(o, b, bs);
  std::string s = "["; for(auto& x : bs) { if(s.size() > 1) s += ",\n"; auto& [lo, up, p, w] = x; s += "{\"lo\":" + R.pt(lo) + ",\"up\":" + R.pt(up) + ",\"pts\":" + R.list(p, w) + ",\"big\":[";
    if(p.size() > (size_t)strtoull(max.c_str(), 0, 0) && kind == "auto") { for(int k = 0; k < 3; k++) { T a = p[0][k], z = a; for(auto& q : p) { a = std::min(a, q[k]); z = std::max(z, q[k]); } if(k) s += ","; s += "["; vf::num(s, a); s += ","; vf::num(s, z); s += "]"; } }
    s += "]}"; }
  vf::kr(o, "batches", s + "]"); o += "}";
}
// a batcher by one of the routes
template <class G> void batch(std::string& o, const std::string& label, const std::string& max, int route, const G& g0) {
  size_t m = strtoull(max.c_str(), 0, 0); const std::vector<P3> p(g0.points()); const std::vector<T> w(g0.weights());
  G g(g0);
  switch(route % 7) {
    case 0: { const G& cg = g; SB b = make_batcher(m, cg); record(o, "auto", label + " make const", max, p, w, b, "[]"); break; }
    case 1: { SB b = make_batcher(m, std::move(g)); record(o, "auto", label + " make moved", max, p, w, b, "[]"); break; }
    case 2: { std::shared_ptr<BASE> s = std::make_shared<G>(g); SB b(m, s); record(o, "auto", label + " shared", max, p, w, b, "[]"); break; }
    case 3: { SB b(m, (const G&)g); SB d(b); record(o, "auto", label + " copied", max, p, w, d, "[]"); break; }
    case 4: { SB b(m, (const G&)g); SB d(b.clone()); record(o, "auto", label + " cloned", max, p, w, d, "[]"); break; }
    case 5: { SB b(m, G(g)); SB d(std::move(b)); record(o, "auto", label + " moved", max, p, w, d, "[]"); break; }
    case 6: { std::shared_ptr<BASE> s = g.clone(); { SB a(m / 2 + 1, s); } SB b(m, s); record(o, "auto", label + " batched twice", max, p, w, b, "[]"); break; }
  }
}
// boundaries some of which are repeated (batches without points), and boundaries that leave out the
// first or the last points: how many batches, and the extent of each
template <class G> std::string repeated(const std::vector<size_t>& ix, int route, const G& g0) {
  std::vector<std::vector<size_t>> all(1); for(size_t i = 0; i < ix.size(); i++) for(size_t k = 0; k <= (i * 5 + (size_t)route) % 3; k++) all[0].push_back(ix[i]);
  if(ix.size() > 2) { all.push_back({ ix.begin() + 1, ix.end() }); all.push_back({ ix.begin(), ix.end() - 1 }); }
  if(ix.size() > 3) all.push_back({ ix.begin() + 1, ix.end() - 1 });
  std::string o = "[";
  for(auto& d : all) {
    std::shared_ptr<BASE> s = std::make_shared<G>(g0); SB b0(7, s, d); SB b(b0.clone()); const SB& c = b;
    std::string a = "[", r = "["; for(auto i : d) a += (a.size() > 1 ? "," : "") + std::to_string(i);
    if(c.nbatches() + 1 == d.size()) { size_t i = 0; for(auto it = c.cbegin(); it != c.cend() && i < d.size(); ++it, ++i) { auto [n, pb, pe, wb, we] = it.range(); r += (r.size() > 1 ? ",[" : "[") + std::to_string(n) + "," + std::to_string(pe - pb) + "," + std::to_string(we - wb) + "," + std::to_string(pb - c.points().begin()) + "," + std::to_string(wb - c.weights().begin()) + "]"; } }
    o += (o.size() > 1 ? ",{\"idx\":" : "{\"idx\":") + a + "],\"nb\":" + std::to_string(c.nbatches()) + ",\"ranges\":" + r + "]}"; }
  return o + "]";
}
template <class G> void explicitly(std::string& o, const std::string& label, int route, const std::vector<size_t>& ix, const G& g0) {
  const std::vector<P3> p(g0.points()); const std::vector<T> w(g0.weights()); G g(g0); const std::string du = repeated(ix, route, g0);
  std::string is = "["; for(auto i : ix) { if(is.size() > 1) is += ","; is += std::to_string(i); } is += "]";
  switch(route % 3) {
    case 0: { SB b(7, (const G&)g, ix); record(o, "explicit", label + " const", "7", p, w, b, is, du); break; }
    case 1: { SB b(7, std::move(g), ix); SB d = b.clone(); record(o, "explicit", label + " moved", "7", p, w, d, is, du); break; }
    case 2: { std::shared_ptr<BASE> s = std::make_shared<G>(g); SB b(7, s, ix); record(o, "explicit", label + " shared", "7", p, w, b, is, du); break; }
  }
}
#ifndef SYN_ONLY
template <class F> void withrad(const std::string& s, size_t n, double R, F f) {
  if(s == "becke") f(Becke<T, T>(n, R)); else if(s == "mk") f(MuraKnowles<T, T>(n, R)); else if(s == "mhl") f(MurrayHandyLaming<T, T>(n, R)); else if(s == "ta") f(TreutlerAhlrichs<T, T>(n, R)); else exit(3);
}
template <class F> void withang(const std::string& s, size_t n, F f) {
  if(s == "AhrensBeylkin") f(AhrensBeylkin<T>(n)); else if(s == "Delley") f(Delley<T>(n)); else if(s == "LebedevLaikov") f(LebedevLaikov<T>(n)); else if(s == "Womersley") f(Womersley<T>(n)); else exit(3);
}
#endif
// lines: syn ROUTE MAX N {x y z w} | exp ROUTE K {idx} N {x y z w} | grid ROUTE MAX SCHEME N R FAM NANG cx cy cz
//        | pruned ROUTE MAX SCHEME N R FAM cx cy cz NREG {b nang}
// in a syn grid the points are an angular rule with a single radial point 1, or the other
// way round for route >= 100 (points written into the grid)
static int cases(const char* plan, const char* out) {
  std::ifstream is(plan); std::string line, o = "[";
  while(std::getline(is, line)) {
    std::istringstream in(line); std::string k, max, R, x, y, z, w, sc, fam; int route; if(!(in >> k >> route)) continue;
    if(k == "syn" || k == "exp") {
      std::vector<size_t> ix; if(k == "exp") { size_t m; in >> m; ix.resize(m); for(auto& i : ix) in >> i; } else in >> max;
      size_t n; in >> n; std::vector<P3> p(n); std::vector<T> ws(n); for(size_t i = 0; i < n; i++) { in >> x >> y >> z >> w; p[i] = { rd(x), rd(y), rd(z) }; ws[i] = rd(w); }
      SynRad one({ 1 }, { 1 }); 
      if(route < 100) { SQ g(one, SynAng(p, ws)); if(k == "exp") explicitly(o, k, route, ix, g); else batch(o, k, max, route, g); }
      else { std::vector<P3> q(n, P3{ 1, 2, 3 }); std::vector<T> v(n, 1); RGP r; r.add_quad(one, 0, SynAng(q, v)); r.finalize(one); PSQ g(one, r); for(size_t i = 0; i < n; i++) { g.points()[i] = p[i]; g.weights()[i] = ws[i]; } if(k == "exp") explicitly(o, k, route, ix, g); else batch(o, k, max, route, g); }
    } else {
#ifdef SYN_ONLY
      return 3;
#else
      size_t n, na, ng; in >> max >> sc >> n >> R >> fam; std::vector<std::array<size_t, 2>> rg;
      if(k == "grid") in >> na >> x >> y >> z; else { in >> x >> y >> z >> ng; rg.resize(ng); for(auto& r : rg) in >> r[0] >> r[1]; na = rg[0][1]; }
      P3 c{ rd(x), rd(y), rd(z) };
      withrad(sc, n, strtod(R.c_str(), 0), [&](const auto& r) { using RT = std::decay_t<decltype(r)>; withang(fam, na, [&](const auto& a) { using AT = std::decay_t<decltype(a)>;
        if(k == "grid") batch(o, line, max, route, SphericalQuadrature<RT, AT>(r, a, c));
        else { RadialGridPartition<AT> p; for(auto& q : rg) p.add_quad(r, q[0], AT(q[1])); p.finalize(r); batch(o, line, max, route, PrunedSphericalQuadrature<RT, AT>(r, p, c)); } }); });
#endif
    }
  }
  vf::save(out, o + "]"); return 0;
}
// ---- life cycles -----------------------------------------------------------------------
static long integer(T x) { return std::isfinite(x) && x == std::floor(x) && std::fabs(x) < 1e9 ? (long)x : 1999999999l; }
static std::string p3(const P3& p) { return "[" + std::to_string(integer(p[0])) + "," + std::to_string(integer(p[1])) + "," + std::to_string(integer(p[2])) + "]"; }
template <class P, class W> std::string list(const P& p, const W& w) {
  std::string s = "["; size_t n = std::max(p.size(), w.size());
  for(size_t i = 0; i < n; i++) { if(i) s += ","; if(i < p.size() && i < w.size()) s += "[" + std::to_string(integer(p[i][0])) + "," + std::to_string(integer(p[i][1])) + "," + std::to_string(integer(p[i][2])) + "," + std::to_string(integer(w[i])) + "]"; else s += "[]"; }
  return s + "]"; }
struct Grid { std::unique_ptr<SQ> s; std::unique_ptr<PSQ> p; bool live() const { return s || p; } void reset() { s.reset(); p.reset(); }
  template <class F> auto with(F f) { return s ? f(*s) : f(*p); } };
struct Rule { std::vector<T> r, w; std::vector<P3> p; std::vector<T> v; };
static std::vector<std::vector<Rule>> TEMPL; // each a list of regions (radial slice, angular rule); one region = product
static const P3 CEN[] = { { 0, 0, 0 }, { 3, 0, 0 }, { 3, -5, 0 }, { 3, -5, 7 }, { -100, 2, 7 }, { 0, 0, 7 } };
static void construct(Grid& g, int t, int c) {
  g.reset(); auto& R = TEMPL.at(t); std::vector<T> r, w; for(auto& x : R) { r.insert(r.end(), x.r.begin(), x.r.end()); w.insert(w.end(), x.w.begin(), x.w.end()); }
  SynRad rad(r, w);
  if(R.size() == 1) { if(c == 0) g.s = std::make_unique<SQ>(rad, SynAng(R[0].p, R[0].v)); else g.s = std::make_unique<SQ>(rad, SynAng(R[0].p, R[0].v), CEN[c]); }
  else { RGP q; size_t b = 0; for(auto& x : R) { q.add_quad(rad, b, SynAng(x.p, x.v)); b += x.r.size(); } q.finalize(rad); if(c == 0) g.p = std::make_unique<PSQ>(rad, q); else g.p = std::make_unique<PSQ>(rad, q, CEN[c]); }
}
template <class Q> void write(Q& q, long i, long v) { auto& p = q.points(); i %= (long)p.size(); p[i] = { (T)v, (T)(v + 1), (T)-v }; q.weights()[i] = (T)(10 * v); }
static std::vector<size_t> bounds(int k, size_t n) { if(k == 0) return { 0, n }; if(k == 1 && n > 1) return { 0, 1, n }; if(k == 2 && n > 2) return { 0, n - 1, n }; std::vector<size_t> v; for(size_t i = 0; i <= n; i++) v.push_back(i); return v; }
template <class Q> std::string showg(const Q& q) { return "{\"c\":" + p3(q.center()) + ",\"npts\":" + std::to_string(q.npts()) + ",\"pts\":" + list(q.points(), q.weights()) + "}"; }
static std::string showb(SB& b) {
  const SB& c = b; std::string s = "{\"max\":" + std::to_string(vf::clip((long)c.max_batch_size())) + ",\"nb\":" + std::to_string(c.nbatches()) + ",\"npts\":" + std::to_string(c.npts()) + ",\"c\":" + p3(c.quadrature().center()) + ",\"pts\":" + list(c.points(), c.weights()) + ",\"qpts\":" + list(b.quadrature().points(), b.quadrature().weights()) + ",\"bs\":[";
  static unsigned turn = 0; turn++;   // every way of reaching the batches takes its turn
  size_t k = 0; auto put = [&](const Batch& x) { auto& [lo, up, p, w] = x; if(k++) s += ","; s += "[" + p3(lo) + "," + p3(up) + "," + list(p, w) + "]"; };
  switch(turn % 4) {
    case 0: for(auto it = c.cbegin(); it != c.cend() && k < 100; ++it) put(*it); break;
    case 1: for(auto it = b.begin(); it != b.end() && k < 100; ++it) put(*it); break;
    case 2: { auto it = c.cbegin(); while(!(it == c.cend()) && k < 100) { auto old = it++; put(*old); } break; }
    case 3: for(auto&& x : b) { if(k >= 100) break; put(x); } break;
  }
  s += "],\"at\":["; k = 0;
  for(size_t i = 0; i < c.nbatches() && i < 100; i++) switch(turn / 4 % 3) {
    case 0: put(b.at(i)); break;
    case 1: put(c.at(i)); break;
    case 2: { auto it = c.cbegin(); put(*(it + (int)i)); break; }
  }
  return s + "]}"; }
// over a grid of the same type, content is also assigned
template <class Q> bool assign1(std::unique_ptr<Q>& a, std::unique_ptr<Q>& b, bool move) {
  if(!a || !b) return false;
  if(move) { if constexpr(std::is_move_assignable_v<Q>) { *a = std::move(*b); b.reset(); return true; } return false; }
  if constexpr(std::is_copy_assignable_v<Q>) { *a = (const Q&)*b; return true; } return false; }
static bool assign(Grid& a, Grid& b, bool move) { return assign1(a.s, b.s, move) || assign1(a.p, b.p, move); }
static int life(const char* plan, const char* out) {
  std::ifstream is(plan); std::string line, o = "["; long np = 0;
  { // first line: the templates: T {nreg {nr {r w} na {x y z w}}}
    std::getline(is, line); std::istringstream in(line); size_t t; in >> t; TEMPL.resize(t);
    for(auto& R : TEMPL) { size_t k; in >> k; R.resize(k); for(auto& r : R) { size_t m; in >> m; r.r.resize(m); r.w.resize(m); for(size_t i = 0; i < m; i++) in >> r.r[i] >> r.w[i]; in >> m; r.p.resize(m); r.v.resize(m); for(size_t i = 0; i < m; i++) in >> r.p[i][0] >> r.p[i][1] >> r.p[i][2] >> r.v[i]; } }
    if(!in) return 3; }
  using SP = std::shared_ptr<BASE>;
  while(std::getline(is, line)) {
    if(line.empty()) continue;
    unsigned turns = (unsigned)np; Grid G[2]; SP S[2]; std::unique_ptr<SB> B[3];
    if(np++) o += ",\n"; o += "["; bool fs = true; std::istringstream cmds(line); std::string cmd;
    while(std::getline(cmds, cmd, ';')) {
      std::istringstream cs(cmd); std::string op; long a = 0, b = 0, c = 0, d = 0; if(!(cs >> op)) continue; cs >> a >> b >> c >> d;
      if(op == "grid") construct(G[a], b, c);
      else if((op == "gcopy" || op == "gmove") && ++turns % 2 && assign(G[a], G[b], op == "gmove")) {}
      else if(op == "gcopy") { Grid t; if(G[b].s) t.s = std::make_unique<SQ>((const SQ&)*G[b].s); else t.p = std::make_unique<PSQ>((const PSQ&)*G[b].p); G[a] = std::move(t); }
      else if(op == "gmove") { Grid t; if(G[b].s) t.s = std::make_unique<SQ>(std::move(*G[b].s)); else t.p = std::make_unique<PSQ>(std::move(*G[b].p)); G[b].reset(); G[a] = std::move(t); }
      else if(op == "gclone") S[a] = G[b].with([](auto& g) -> SP { return g.clone(); });
      else if(op == "share") S[a] = G[b].with([](auto& g) -> SP { return std::make_shared<std::decay_t<decltype(g)>>(g); });
      else if(op == "sclone") S[a] = ((const BASE&)*S[b]).clone();
      else if(op == "scopy") S[a] = S[b];
      else if(op == "bsclone") S[a] = ((const SB&)*B[b]).quadrature().clone();
      else if(op == "batchg") B[a] = G[b].with([&](auto& g) { const auto& cg = g; return c & 1 ? std::make_unique<SB>(make_batcher((size_t)c, cg)) : std::make_unique<SB>((size_t)c, cg); });
      else if(op == "batchgm") { B[a] = G[b].with([&](auto& g) { return c & 1 ? std::make_unique<SB>(make_batcher((size_t)c, std::move(g))) : std::make_unique<SB>((size_t)c, std::move(g)); }); G[b].reset(); }
      else if(op == "batchgl") B[a] = G[b].with([&](auto& g) { return c & 1 ? std::make_unique<SB>(make_batcher((size_t)c, g)) : std::make_unique<SB>((size_t)c, g); });   // from a modifiable grid
      else if(op == "batchs") B[a] = std::make_unique<SB>((size_t)c, S[b]);
      else if(op == "explg") B[a] = G[b].with([&](auto& g) { const auto& cg = g; return std::make_unique<SB>(5, cg, bounds(c, g.npts())); });
      else if(op == "explgm") { B[a] = G[b].with([&](auto& g) { auto ix = bounds(c, g.npts()); return std::make_unique<SB>(5, std::move(g), ix); }); G[b].reset(); }
      else if(op == "expls") B[a] = std::make_unique<SB>(5, S[b], bounds(c, S[b]->npts()));
      else if(op == "bcopy") B[a] = std::make_unique<SB>((const SB&)*B[b]);
      else if(op == "bmove") { auto t = std::make_unique<SB>(std::move(*B[b])); B[b].reset(); B[a] = std::move(t); }
      else if(op == "bclone") B[a] = std::make_unique<SB>(((const SB&)*B[b]).clone());
      else if(op == "grec") G[a].with([&](auto& g) { g.recenter(CEN[b]); return 0; });
      else if(op == "srec") S[a]->recenter(CEN[b]);
      else if(op == "brec") B[a]->recenter(CEN[b]);
      else if(op == "bqrec") B[a]->quadrature().recenter(CEN[b]);
      else if(op == "gwrite") G[a].with([&](auto& g) { write(g, b, c); return 0; });
      else if(op == "swrite") write(*S[a], b, c);
      else if(op == "bwrite") write(*B[a], b, c);
      else if(op == "bqwrite") write(B[a]->quadrature(), b, c);
      else if(op == "gdel") G[a].reset();
      else if(op == "sdel") S[a].reset();
      else if(op == "bdel") B[a].reset();
      else { fprintf(stderr, "op %s\n", op.c_str()); return 3; }
      if(!fs) o += ",\n"; fs = false; o += "{"; vf::kr(o, "o", "[\"" + op + "\"," + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + "]");
      std::string g = "[", s = "[", bb = "[";
      for(int i = 0; i < 2; i++) { if(i) g += ","; g += G[i].live() ? G[i].with([](auto& q) { const auto& c = q; return showg(c); }) : "{}"; }
      for(int i = 0; i < 2; i++) { if(i) s += ","; s += S[i] ? showg((const BASE&)*S[i]) : "{}"; }
      for(int i = 0; i < 3; i++) { if(i) bb += ","; bb += B[i] ? showb(*B[i]) : "{}"; }
      vf::kr(o, "g", g + "]"); vf::kr(o, "s", s + "]"); vf::kr(o, "b", bb + "]"); o += "}";
    }
    o += "]";
  }
  vf::save(out, o + "]"); return 0;
}
// ---- recentring real grids -----------------------------------------------------------------
// lines: KIND SCHEME N R FAM NANG cx cy cz K {HOW x y z}   KIND sphere|pruned|batch|clone; HOW g (grid) | b (batcher) | q (batcher's grid)
#ifndef SYN_ONLY
static int recentre(const char* plan, const char* out) {
  std::ifstream is(plan); std::string line, o = "[";
  while(std::getline(is, line)) {
    std::istringstream in(line); std::string kind, sc, R, fam, x, y, z, how; size_t n, na, K; if(!(in >> kind >> sc >> n >> R >> fam >> na >> x >> y >> z >> K)) continue;
    P3 c{ rd(x), rd(y), rd(z) };
    if(o.size() > 1) o += ",\n"; o += "{"; vf::kv(o, "kind", kind); vf::kv(o, "line", line);
    withrad(sc, n, strtod(R.c_str(), 0), [&](const auto& r) { using RT = std::decay_t<decltype(r)>; withang(fam, na, [&](const auto& a) { using AT = std::decay_t<decltype(a)>;
      std::shared_ptr<BASE> g;
      if(kind == "pruned") { RadialGridPartition<AT> p; p.add_quad(r, 0, a); if(n > 1) p.add_quad(r, n / 2 ? n / 2 : 1, a); p.finalize(r); g = std::make_shared<PrunedSphericalQuadrature<RT, AT>>(r, p, c); }
      else g = std::make_shared<SphericalQuadrature<RT, AT>>(r, a, c);
      if(kind == "clone") g = g->clone();
      SB b = kind == "batch" ? SB(17, g) : SB(17, g, { 0, g->npts() });
      std::vector<size_t> pick; for(size_t i = 0; i < g->npts(); i += 1 + g->npts() / 7) pick.push_back(i); pick.push_back(g->npts() - 1);
      std::string st = "["; size_t k = 0;
      auto snap = [&](const std::string& h, const P3& want) {
        if(k++) st += ",\n"; st += "{\"how\":\"" + h + "\",\"want\":"; vf::nums(st, want); st += ",\"c\":"; vf::nums(st, g->center()); st += ",\"bc\":"; vf::nums(st, b.quadrature().center());
        std::vector<P3> p; for(auto i : pick) p.push_back(g->points().at(i)); st += ",\"p\":"; vf::pts3(st, p);
        vf::Hash hw; for(auto v : g->weights()) hw.add((double)v); vf::Hash hp; for(auto& q : g->points()) for(auto v : q) hp.add((double)v == 0 ? 0. : (double)v);
        st += ",\"np\":" + std::to_string(g->points().size()) + ",\"nw\":" + std::to_string(g->weights().size()) + ",\"hw\":\"" + hw.str() + "\",\"hp\":\"" + hp.str() + "\",\"nb\":" + std::to_string(b.nbatches()) + "}"; };
      snap("start", c);
      for(size_t i = 0; i < K; i++) { in >> how >> x >> y >> z; P3 w{ rd(x), rd(y), rd(z) }; if(how == "g") g->recenter(w); else if(how == "b") b.recenter(w); else b.quadrature().recenter(w); snap(how, w); }
      vf::kr(o, "steps", st + "]"); }); });
    o += "}";
  }
  vf::save(out, o + "]"); return 0;
}
#endif
int main(int argc, char** argv) {
  if(argc < 4) return 3;
  std::string m = argv[1];
  if(m == "cases") return cases(argv[2], argv[3]);
  if(m == "life") return life(argv[2], argv[3]);
#ifndef SYN_ONLY
  if(m == "recentre") return recentre(argv[2], argv[3]);
#endif
  return 3;
}
