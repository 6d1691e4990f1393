// Runtime factories, pruning schemes, names, parameter objects, specifications.
//   factory requests PLAN OUT    outcome of every request (see the plan format below)
//   factory reject OUT           which sizes every construction route accepts
//   factory regions PLAN OUT     pruning schemes
//   factory names PLAN OUT       strings (hex) resolved to schemes
//   factory traits PLAN OUT      parameter objects: equality, clones, casts, construction
//   factory values PLAN OUT      programs over grid specifications
// With -DCOMPILED the generators come from the compiled library instead of the headers.
#include "common.hpp"
#include <integratorxx/generators/spherical_factory.hpp>
#ifndef COMPILED
#include <integratorxx/generators/impl/impl.hpp>
#endif
#include <map>
using namespace IntegratorXX;
namespace my {
using bk = Becke<double, double>; using mk = MuraKnowles<double, double>; using mhl = MurrayHandyLaming<double, double>; using ta = TreutlerAhlrichs<double, double>;
using ah = AhrensBeylkin<double>; using de = Delley<double>; using ll = LebedevLaikov<double>; using wo = Womersley<double>;
using TB = BeckeRadialTraits; using TM = MuraKnowlesRadialTraits; using TH = MurrayHandyLamingRadialTraits<2>; using TT = TreutlerAhlrichsRadialTraits;
}
// scheme and family names of the plans; numbers are raw (unknown) enumeration values
static RadialQuad rq(const std::string& s) {
  if(s == "becke") return RadialQuad::Becke; if(s == "mk") return RadialQuad::MuraKnowles;
  if(s == "mhl") return RadialQuad::MurrayHandyLaming; if(s == "ta") return RadialQuad::TreutlerAhlrichs;
  return (RadialQuad)strtoul(s.c_str(), 0, 0);
}
static AngularQuad aq(const std::string& s) {
  if(s == "AhrensBeylkin") return AngularQuad::AhrensBeylkin; if(s == "Delley") return AngularQuad::Delley;
  if(s == "LebedevLaikov") return AngularQuad::LebedevLaikov; if(s == "Womersley") return AngularQuad::Womersley;
  return (AngularQuad)strtoul(s.c_str(), 0, 0);
}
static std::string rname(RadialQuad r) { switch(r) { case RadialQuad::Becke: return "becke"; case RadialQuad::MuraKnowles: return "mk"; case RadialQuad::MurrayHandyLaming: return "mhl"; case RadialQuad::TreutlerAhlrichs: return "ta"; } return "unknown"; }
static std::string aname(AngularQuad r) { switch(r) { case AngularQuad::AhrensBeylkin: return "AhrensBeylkin"; case AngularQuad::Delley: return "Delley"; case AngularQuad::LebedevLaikov: return "LebedevLaikov"; case AngularQuad::Womersley: return "Womersley"; } return "unknown"; }
using TP = std::unique_ptr<RadialTraits>;
// parameters of the scheme s built directly
static TP direct_traits(const std::string& s, size_t n, double R, double al) {
  if(s == "becke") return std::make_unique<my::TB>(n, R); if(s == "mk") return std::make_unique<my::TM>(n, R);
  if(s == "mhl") return std::make_unique<my::TH>(n, R); if(s == "ta") return std::make_unique<my::TT>(n, R, al);
  if(s == "none") return nullptr;
  return std::make_unique<my::TB>(n, R);
}
static TP made_traits(const std::string& s, size_t n, double R, double al) { return s == "ta" ? make_radial_traits(rq(s), n, R, al) : make_radial_traits(rq(s), n, R); }
template <class F> void withrad(const std::string& s, const RadialTraits& t, F f) {
  // the types built from their own concrete parameters
  if(s == "becke") f(my::bk(dynamic_cast<const my::TB&>(t))); else if(s == "mk") f(my::mk(dynamic_cast<const my::TM&>(t)));
  else if(s == "mhl") f(my::mhl(dynamic_cast<const my::TH&>(t))); else if(s == "ta") f(my::ta(dynamic_cast<const my::TT&>(t)));
  else throw std::runtime_error("scheme");
}
template <class F> void withfam(const std::string& s, F f) {
  if(s == "AhrensBeylkin") f((my::ah*)0); else if(s == "Delley") f((my::de*)0); else if(s == "LebedevLaikov") f((my::ll*)0); else if(s == "Womersley") f((my::wo*)0);
  else throw std::runtime_error("family");
}
// ---- outcomes ------------------------------------------------------------------
template <class P, class W> std::string okay(const P& p, const W& w) { std::string o = "{"; vf::kv(o, "ok", true); vf::kv(o, "np", p.size()); vf::kv(o, "nw", w.size()); vf::kv(o, "h", vf::hash(p, w)); return o + "}"; }
// the caller may do what it likes with a grid it received
template <class G> void spoil(G& g) { for(auto& p : g.points()) { if constexpr(std::is_floating_point_v<std::decay_t<decltype(p)>>) p = -7; else p = { 5, -7, 9 }; } for(auto& w : g.weights()) w = 77; }
template <class F> std::string guard(F f) {
  try { return f(); }
  catch(std::exception& e) { std::string w; for(const char* p = e.what(); *p; p++) if(*p >= 32 && *p < 127 && *p != '"' && *p != '\\') w += *p; return "{\"ok\":false,\"np\":0,\"nw\":0,\"h\":\"" + w + "\"}"; }
}
struct Reg { size_t b, e; std::string fam; size_t n; };
struct Req { std::string kind, s; size_t n = 0; double R, al; std::string ts; std::string fam; size_t na = 0; std::vector<Reg> rg; std::string how; std::string line; };
static bool readreq(const std::string& line, Req& q) {
  std::istringstream is(line); std::string R, al; q.line = line;
  if(!(is >> q.kind)) return false;
  if(q.kind == "s2") { is >> q.fam >> q.na; return true; }
  if(q.kind == "name") { is >> q.s; return true; }
  is >> q.s >> q.n >> R >> al >> q.ts >> q.how; q.R = strtod(R.c_str(), 0); q.al = strtod(al.c_str(), 0);
  if(q.kind == "radial") return true;
  if(q.kind == "unpruned" || q.kind == "robust" || q.kind == "treutler" || q.kind == "plain") { is >> q.fam >> q.na; return (bool)is; }
  if(q.kind == "pruned") { size_t k; is >> k; q.rg.resize(k); for(auto& r : q.rg) is >> r.b >> r.e >> r.fam >> r.n; return (bool)is; }
  exit(3);
}
static std::vector<PruningRegion> regions(const std::vector<Reg>& v) { std::vector<PruningRegion> r; for(auto& x : v) r.push_back({ x.b, x.e, aq(x.fam), x.n }); return r; }
static PruningScheme scheme(const std::string& h) { return h == "robust" ? PruningScheme::Robust : h == "treutler" ? PruningScheme::Treutler : PruningScheme::Unpruned; }
static std::string showregions(const std::vector<PruningRegion>& v) { std::string s = "["; for(auto& r : v) { if(s.size() > 1) s += ","; s += "[" + std::to_string(vf::clip((long)r.idx_st)) + "," + std::to_string(vf::clip((long)r.idx_en)) + ",\"" + aname(r.angular_quad) + "\"," + std::to_string(vf::clip((long)r.angular_size)) + "]"; } return s + "]"; }
// parameters: made by the factory ("made"), directly ("direct"), or absent ("none"); ts names their scheme
static TP params(const Req& q) { if(q.how == "none") return nullptr; return q.how == "made" ? made_traits(q.ts, q.n, q.R, q.al) : direct_traits(q.ts, q.n, q.R, q.al); }
static UnprunedSphericalGridSpecification unspec(const Req& q) {
  auto p = params(q); my::TB dummy(q.n, q.R);
  UnprunedSphericalGridSpecification u(rq(q.s), p ? *p : dummy, aq(q.fam), q.na); if(!p) u.radial_traits.reset(); return u;
}
static std::string run_factory(const Req& q) {
  return guard([&]() -> std::string {
    if(q.kind == "s2") { auto g = S2Factory::generate(aq(q.fam), q.na); auto r = okay(g->points(), g->weights()); spoil(*g); return r; }
    if(q.kind == "name") { std::string a = "rejected", b = a; try { a = rname(radial_from_string(q.s)); } catch(std::exception&) {} try { b = aname(angular_from_string(q.s)); } catch(std::exception&) {} return "{\"ok\":true,\"np\":0,\"nw\":0,\"h\":\"" + a + " " + b + "\"}"; }
    auto p = params(q);
    if(q.kind == "radial") { auto g = RadialFactory::generate(rq(q.s), *p); auto r = okay(g->points(), g->weights()); spoil(*g); return r; }
    SphericalGridFactory::spherical_grid_ptr g;
    if(q.kind == "unpruned") {
      if(p) { g = SphericalGridFactory::generate_unpruned_grid(rq(q.s), *p, aq(q.fam), q.na);
        auto g2 = SphericalGridFactory::generate_grid(unspec(q));
        if(vf::hash(g->points(), g->weights()) != vf::hash(g2->points(), g2->weights())) return "{\"ok\":true,\"np\":-1,\"nw\":-1,\"h\":\"routes differ\"}"; }
      else g = SphericalGridFactory::generate_grid(unspec(q)); }
    else if(q.kind == "robust" || q.kind == "treutler" || q.kind == "plain") { // a pruning scheme and the grid it leads to
      auto ps = create_pruned_spec(scheme(q.kind), unspec(q)); g = SphericalGridFactory::generate_grid(ps);
      std::string o = "{"; vf::kv(o, "ok", true); vf::kv(o, "np", g->points().size()); vf::kv(o, "nw", g->weights().size()); std::string rs = "regions"; for(auto& r : ps.pruning_regions) rs += " " + std::to_string(r.idx_st) + ":" + std::to_string(r.idx_en) + ":" + aname(r.angular_quad) + ":" + std::to_string(r.angular_size);
      vf::kv(o, "h", vf::hash(g->points(), g->weights()) + rs); g->recenter({ 1, 2, 3 }); spoil(*g); ps.pruning_regions.clear(); return o + "}"; }
    else {
      PrunedSphericalGridSpecification s(rq(q.s), p ? p->clone() : nullptr, regions(q.rg));
      if(p) { g = SphericalGridFactory::generate_pruned_grid(rq(q.s), *p, regions(q.rg));
        auto g2 = SphericalGridFactory::generate_grid(s);
        if(vf::hash(g->points(), g->weights()) != vf::hash(g2->points(), g2->weights())) return "{\"ok\":true,\"np\":-1,\"nw\":-1,\"h\":\"routes differ\"}"; }
      else g = SphericalGridFactory::generate_grid(s); }
    for(auto x : g->center()) if(x != 0) return "{\"ok\":true,\"np\":-1,\"nw\":-1,\"h\":\"centre\"}";
    auto r = okay(g->points(), g->weights()); g->recenter({ 1, 2, 3 }); spoil(*g); return r;
  });
}
template <class RQ, class AQ> std::string pruned_direct(const RQ& r, const std::vector<Reg>& v) {
  RadialGridPartition<AQ> p; for(auto& x : v) if(x.b != x.e) p.add_quad(r, x.b, AQ(x.n)); p.finalize(r);
  PrunedSphericalQuadrature<RQ, AQ> g(r, p); return okay(g.points(), g.weights());
}
static std::string run_direct(const Req& q) {
  return guard([&]() -> std::string {
    std::string o;
    if(q.kind == "s2") { withfam(q.fam, [&](auto* t) { using AQ = std::decay_t<decltype(*t)>; AQ a(q.na); o = okay(a.points(), a.weights()); }); return o; }
    if(q.how == "none") throw std::runtime_error("absent");
    auto p = direct_traits(q.ts, q.n, q.R, q.al);
    withrad(q.s, *p, [&](const auto& r) {
      using RQ = std::decay_t<decltype(r)>;
      if(q.kind == "radial") o = okay(r.points(), r.weights());
      else if(q.kind == "unpruned") withfam(q.fam, [&](auto* t) { using AQ = std::decay_t<decltype(*t)>; SphericalQuadrature<RQ, AQ> g(r, AQ(q.na)); o = okay(g.points(), g.weights()); });
      else withfam(q.rg.at(0).fam, [&](auto* t) { using AQ = std::decay_t<decltype(*t)>; o = pruned_direct<RQ, AQ>(r, q.rg); });
    });
    return o;
  });
}
static int requests(const char* plan, const char* out, bool direct) {
  std::ifstream is(plan); std::string line, o = "["; long k = 0;
  while(std::getline(is, line)) {
    Req q; if(!readreq(line, q)) continue;
    if(k++) o += ",\n"; o += "{"; vf::kv(o, "line", line); vf::kr(o, "f", run_factory(q));
    if(direct) { std::string x = "{"; vf::kv(x, "kind", q.kind); vf::kv(x, "s", q.s); vf::kv(x, "n", q.n); vf::kv(x, "ts", q.ts); vf::kv(x, "how", q.how); vf::kv(x, "fam", q.fam); vf::kv(x, "na", q.na);
      std::string g = "["; for(auto& r : q.rg) { if(g.size() > 1) g += ","; g += "[" + std::to_string(r.b) + "," + std::to_string(r.e) + ",\"" + r.fam + "\"," + std::to_string(vf::clip((long)r.n)) + "]"; } vf::kr(x, "rg", g + "]"); vf::kr(o, "q", x + "}"); } if(direct) vf::kr(o, "d", run_direct(q)); o += "}";
  }
  vf::save(out, o + "]"); return 0;
}
// ---- which sizes are accepted ------------------------------------------------------
static const size_t HUGE_[] = { 16501, 20000, 65536 + 14, 65536 + 302, (size_t)INT32_MAX, 4294967296ull, 4294967296ull + 6, 4294967296ull + 14, 4294967296ull + 72, 4294967296ull + 302, 4294967296ull + 3, 4294967296ull + 7939, (1ull << 63) + 14, SIZE_MAX };
template <class F> void route(std::string& o, const char* name, const std::string& fam, long hi, long base, long mult, F f) {
  if(o.back() != '[') o += ",\n"; o += "{"; vf::kv(o, "route", name); vf::kv(o, "fam", fam); vf::kv(o, "hi", hi); vf::kv(o, "base", base); vf::kv(o, "mult", mult);
  std::string a = "[", odd = "["; long rej = 0; bool other = false;
  for(long n = 0; n <= hi; n++) {
    try { auto [np, nw] = f((size_t)n); if(a.size() > 1) a += ","; a += "[" + std::to_string(n) + "," + std::to_string(np) + "," + std::to_string(nw) + "]"; }
    catch(std::exception&) { rej++; } catch(...) { other = true; }
  }
  long hk = 0; for(auto n : HUGE_) { try { f(n); hk++; } catch(std::exception&) {} catch(...) { other = true; } }
  vf::kr(o, "accepted", a + "]"); vf::kv(o, "rejected", rej); vf::kv(o, "huge", hk); vf::kv(o, "other", other); o += "}";
}
static int reject(const char* out, long hi) {
  std::string o = "["; using PR = std::pair<long, long>;
  const char* F[] = { "AhrensBeylkin", "Delley", "LebedevLaikov", "Womersley" }; const size_t S[] = { 72, 14, 6, 3 }; const size_t S2[] = { 132, 26, 14, 6 };
  for(int i = 0; i < 4; i++) {
    std::string fam = F[i];
    auto pr = [](const auto& g) { return PR((long)g.points().size(), (long)g.weights().size()); };
    withfam(fam, [&](auto* t) { using AQ = std::decay_t<decltype(*t)>;
      route(o, "construct", fam, hi, 0, 1, [&](size_t n) { AQ q(n); return pr(q); });
      route(o, "traits", fam, hi, 0, 1, [&](size_t n) { auto [p, w] = quadrature_traits<AQ>::generate(n); return PR((long)p.size(), (long)w.size()); });
      route(o, "base", fam, hi, 0, 1, [&](size_t n) { Quadrature<AQ> q(n); return pr(q); });
      route(o, "sphere", fam, hi, 0, 2, [&](size_t n) { my::bk r(my::TB(2)); SphericalQuadrature<my::bk, AQ> q(r, AQ(n)); return pr(q); });
      route(o, "partition", fam, hi, 2 * (long)S[i], 1, [&](size_t n) { my::mk r(my::TM(3)); RadialGridPartition<AQ> p; p.add_quad(r, 0, AQ(S[i])); p.add_quad(r, 2, AQ(n)); p.finalize(r); PrunedSphericalQuadrature<my::mk, AQ> q(r, p); return pr(q); });
    });
    route(o, "s2factory", fam, hi, 0, 1, [&](size_t n) { return pr(*S2Factory::generate(aq(fam), n)); });
    const char* SC[] = { "becke", "mk", "mhl", "ta" };
    const long full = hi;
    for(auto sc : SC) {
      const long hi = sc == SC[i] ? full / 2 : full / 10;   // one scheme per family in depth
      auto tr = made_traits(sc, 2, 1.0, 0.6);
      route(o, "unpruned", fam, hi, 0, 2, [&](size_t n) { return pr(*SphericalGridFactory::generate_unpruned_grid(rq(sc), *tr, aq(fam), n)); });
      route(o, "unpruned spec", fam, hi, 0, 2, [&](size_t n) { return pr(*SphericalGridFactory::generate_grid(UnprunedSphericalGridSpecification(rq(sc), *tr, aq(fam), n))); });
      auto t3 = made_traits(sc, 3, 1.0, 0.6);
      for(int k = 0; k < 3; k++) route(o, k == 0 ? "pruned first" : k == 1 ? "pruned second" : "pruned last", fam, hi, (long)(S[i] + S2[i]), 1, [&](size_t n) {
        std::vector<PruningRegion> v; size_t s[3] = { S[i], S2[i], 0 }; size_t j = 0; for(int m = 0; m < 3; m++) v.push_back({ (size_t)m, (size_t)m + 1, aq(fam), m == k ? n : s[j++] });
        if(n & 1) return pr(*SphericalGridFactory::generate_pruned_grid(rq(sc), *t3, v));
        return pr(*SphericalGridFactory::generate_grid(PrunedSphericalGridSpecification(rq(sc), *t3, v))); });
      auto t1 = made_traits(sc, 1, 1.0, 0.6);
      route(o, "scheme unpruned", fam, hi, 0, 1, [&](size_t n) { return pr(*SphericalGridFactory::generate_grid(create_pruned_spec(PruningScheme::Unpruned, UnprunedSphericalGridSpecification(rq(sc), *t1, aq(fam), n)))); });
    }
  }
  vf::save(out, o + "]"); return 0;
}
// ---- pruning schemes ---------------------------------------------------------------
static int prune(const char* plan, const char* out) { // lines: SCHEME RADIAL N R FAM NA GEN
  std::ifstream is(plan); std::string o = "[", h, s, fam, R; size_t n, na; int gen; long k = 0;
  while(is >> h >> s >> n >> R >> fam >> na >> gen) {
    if(k++) o += ",\n"; o += "{"; vf::kv(o, "scheme", h); vf::kv(o, "rad", s); vf::kv(o, "n", n); vf::kv(o, "fam", fam); vf::kv(o, "base", na); vf::kv(o, "gen", (bool)gen);
    auto t = made_traits(s, n, strtod(R.c_str(), 0), 0.6); UnprunedSphericalGridSpecification u(rq(s), *t, aq(fam), na);
    auto put = [&](const char* key, auto f) {
      std::string x = "{";
      try { PrunedSphericalGridSpecification p = f();
        vf::kv(x, "ok", true); vf::kr(x, "regions", showregions(p.pruning_regions)); vf::kv(x, "rad", rname(p.radial_quad)); vf::kv(x, "params", p.radial_traits && p.radial_traits->compare(*t) && t->compare(*p.radial_traits));
        std::string g = "{\"ok\":false,\"np\":0,\"nw\":0,\"h\":\"\"}", d = g;
        if(gen) {
          g = guard([&] { auto q = SphericalGridFactory::generate_grid(p); return okay(q->points(), q->weights()); });
          std::vector<Reg> v; for(auto& r : p.pruning_regions) v.push_back({ r.idx_st, r.idx_en, aname(r.angular_quad), r.angular_size });
          d = guard([&] { std::string res; withrad(s, *t, [&](const auto& r) { withfam(fam, [&](auto* tt) { using AQ = std::decay_t<decltype(*tt)>; res = pruned_direct<std::decay_t<decltype(r)>, AQ>(r, v); }); }); return res; });
        }
        vf::kr(x, "g", g); vf::kr(x, "d", d);
      } catch(std::exception&) { vf::kv(x, "ok", false); }
      vf::kr(o, key, x + "}");
    };
    put("c", [&] { return create_pruned_spec(scheme(h), u); });
    if(h == "robust") put("s", [&] { return robust_psi4_pruning_scheme(u); });
    else if(h == "treutler") put("s", [&] { return treutler_pruning_scheme(u); });
    else put("s", [&] { return create_pruned_spec(PruningScheme::Unpruned, u); });
    o += "}";
  }
  vf::save(out, o + "]"); return 0;
}
// ---- names ----------------------------------------------------------------------------
static int names(const char* plan, const char* out) {
  std::ifstream is(plan); std::string line, o = "["; long k = 0;
  while(std::getline(is, line)) {
    if(line.empty()) continue; line.erase(0, 1);
    std::string s; for(size_t i = 0; i + 1 < line.size(); i += 2) s += (char)strtol(line.substr(i, 2).c_str(), 0, 16);
    if(k++) o += ",\n"; o += "{"; std::string cs = "["; for(unsigned char c : s) { if(cs.size() > 1) cs += ","; cs += std::to_string((int)c); }
    vf::kr(o, "s", cs + "]");
    auto tryit = [&](auto f) -> std::string { try { return f(); } catch(std::exception&) { return "rejected"; } catch(...) { return "other"; } };
    vf::kv(o, "r", tryit([&] { return rname(radial_from_string(s)); })); vf::kv(o, "a", tryit([&] { return aname(angular_from_string(s)); })); o += "}";
  }
  o += ",\n{"; std::string t = "[";
  auto R = [&](const char* n, RadialQuad q) { if(t.size() > 1) t += ","; t += std::string("[\"") + n + "\",\"" + rname(q) + "\"]"; };
  auto A = [&](const char* n, AngularQuad q) { t += std::string(",[\"") + n + "\",\"" + aname(q) + "\"]"; };
  R("becke", radial_from_type<my::bk>()); R("mk", radial_from_type<my::mk>()); R("mhl", radial_from_type<my::mhl>()); R("ta", radial_from_type<my::ta>());
  A("AhrensBeylkin", angular_from_type<my::ah>()); A("Delley", angular_from_type<my::de>()); A("LebedevLaikov", angular_from_type<my::ll>()); A("Womersley", angular_from_type<my::wo>());
  R("becke", radial_from_type<Becke<float, float>>()); R("mk", radial_from_type<MuraKnowles<float, float>>()); R("mhl", radial_from_type<MurrayHandyLaming<float, float>>()); R("ta", radial_from_type<TreutlerAhlrichs<float, float>>());
  A("AhrensBeylkin", angular_from_type<AhrensBeylkin<float>>()); A("Delley", angular_from_type<Delley<float>>()); A("LebedevLaikov", angular_from_type<LebedevLaikov<float>>()); A("Womersley", angular_from_type<Womersley<float>>());
  auto rej = [&](const char* n, auto f) { std::string r = "rejected"; try { f(); r = "accepted"; } catch(std::exception&) {} t += std::string(",[\"") + n + "\",\"" + r + "\"]"; };
  rej("rejected", [] { radial_from_type<GaussChebyshev2<double, double>>(); }); rej("rejected", [] { radial_from_type<UniformTrapezoid<double, double>>(); });
  rej("rejected", [] { angular_from_type<my::bk>(); }); rej("rejected", [] { radial_from_type<my::ll>(); });
  vf::kr(o, "types", t + "]"); o += "}";
  vf::save(out, o + "]"); return 0;
}
// ---- parameter objects -------------------------------------------------------------------
// lines: obj SCHEME N R ALPHA HOW   HOW: direct | made | clone | default
struct Obj { std::string s; size_t n; double R, al; TP p; std::string Rs, as, how; };
template <class T> bool eqop(const RadialTraits& a, const RadialTraits& b, int& r) { auto x = dynamic_cast<const T*>(&a); auto y = dynamic_cast<const T*>(&b); if(!x || !y) return false; r = *x == *y; return true; }
static int traits(const char* plan, const char* out) {
  std::ifstream is(plan); std::string k; std::vector<Obj> v; Obj x;
  while(is >> k >> x.s >> x.n >> x.Rs >> x.as >> x.how) {
    Obj y; y.s = x.s; y.n = x.n; y.Rs = x.Rs; y.as = x.as; y.how = x.how; y.R = strtod(x.Rs.c_str(), 0); y.al = strtod(x.as.c_str(), 0);
    auto mk = [&]() -> TP {
      if(y.s == "mhl1") return std::make_unique<MurrayHandyLamingRadialTraits<1>>(y.n, y.R);
      if(y.s == "mhl3") return std::make_unique<MurrayHandyLamingRadialTraits<3>>(y.n, y.R);
      if(y.how == "made") return made_traits(y.s, y.n, y.R, y.al);
      if(y.how == "default") { if(y.s == "becke") return std::make_unique<my::TB>(y.n); if(y.s == "mk") return std::make_unique<my::TM>(y.n); if(y.s == "mhl") return std::make_unique<my::TH>(y.n); return std::make_unique<my::TT>(y.n); }
      if(y.how == "madedefault") return make_radial_traits(rq(y.s), y.n);
      return direct_traits(y.s, y.n, y.R, y.al); };
    y.p = mk();
    if(y.how == "clone") { auto c = y.p->clone(); auto d = c->clone(); y.p.reset(); c.reset(); y.p = std::move(d); } // the clone outlives its source
    v.push_back(std::move(y));
  }
  std::string o = "{\"objs\":[";
  for(size_t i = 0; i < v.size(); i++) {
    auto& a = v[i]; if(i) o += ",\n"; o += "{"; vf::kv(o, "s", a.s); vf::kv(o, "n", a.n); vf::kv(o, "R", a.R == 0 ? std::string("0") : a.Rs); vf::kv(o, "al", a.s != "ta" ? std::string("-") : a.al == 0 ? std::string("0") : a.as); vf::kv(o, "how", a.how); vf::kv(o, "npts", a.p->npts());
    auto c = a.p->clone(); vf::kv(o, "clone", c && c.get() != a.p.get() && c->compare(*a.p) && a.p->compare(*c) && c->npts() == a.p->npts() && typeid(*c) == typeid(*a.p));
    std::string row = "["; for(size_t j = 0; j < v.size(); j++) {
      int e = a.p->compare(*v[j].p), f = e; (eqop<my::TB>(*a.p, *v[j].p, f) || eqop<my::TM>(*a.p, *v[j].p, f) || eqop<my::TH>(*a.p, *v[j].p, f) || eqop<my::TT>(*a.p, *v[j].p, f));
      if(j) row += ","; row += std::to_string(e * 2 + f); }
    vf::kr(o, "eq", row + "]"); vf::kv(o, "sn", std::to_string(a.n)); vf::kv(o, "snpts", std::to_string(a.p->npts()));
    if(a.n > 1000) { o += ",\"build\":[]}"; continue; }   // only compared
    // every scheme's grid from these parameters, by every route that takes parameters of unknown type
    std::string b = "["; auto att = [&](const char* s, const char* how, auto f) { std::string r; try { r = std::to_string((long)f()); } catch(std::exception&) { r = "-1"; } catch(...) { r = "-2"; } if(b.size() > 1) b += ","; b += std::string("[\"") + s + "\",\"" + how + "\"," + r + "]"; };
    const RadialTraits& t = *a.p;
    att("becke", "type", [&] { return my::bk(t).npts(); }); att("mk", "type", [&] { return my::mk(t).npts(); }); att("mhl", "type", [&] { return my::mhl(t).npts(); }); att("ta", "type", [&] { return my::ta(t).npts(); });
    att("becke", "cast", [&] { return radial_traits_cast<my::TB>(t).npts(); }); att("mk", "cast", [&] { return radial_traits_cast<my::TM>(t).npts(); }); att("mhl", "cast", [&] { return radial_traits_cast<my::TH>(t).npts(); }); att("ta", "cast", [&] { return radial_traits_cast<my::TT>(t).npts(); });
    for(const char* s : { "becke", "mk", "mhl", "ta" }) {
      att(s, "factory", [&] { return RadialFactory::generate(rq(s), t)->npts(); });
      att(s, "unpruned", [&] { return SphericalGridFactory::generate_unpruned_grid(rq(s), t, AngularQuad::LebedevLaikov, 6)->npts() / 6; });
      att(s, "pruned", [&] { return SphericalGridFactory::generate_pruned_grid(rq(s), t, { { 0, a.n, AngularQuad::LebedevLaikov, 6 } })->npts() / 6; });
      att(s, "spec", [&] { return SphericalGridFactory::generate_grid(UnprunedSphericalGridSpecification(rq(s), t, AngularQuad::Womersley, 3))->npts() / 3; });
      att(s, "robust", [&] { return SphericalGridFactory::generate_grid(create_pruned_spec(PruningScheme::Robust, UnprunedSphericalGridSpecification(rq(s), t, AngularQuad::Delley, 26)))->npts() / 26; });
    }
    vf::kr(o, "build", b + "]"); o += "}";
  }
  // construction from argument lists
  o += "],\"make\":["; bool first = true;
  auto mk = [&](const char* s, const char* args, auto f) { std::string r; try { auto p = f(); r = p ? std::to_string(p->npts()) : "-3"; } catch(std::exception&) { r = "-1"; } catch(...) { r = "-2"; } if(!first) o += ","; first = false; o += std::string("[\"") + s + "\",\"" + args + "\"," + r + "]"; };
  for(const char* s : { "becke", "mk", "mhl", "ta", "0", "0x11", "0x100", "0xffffffff" }) {
    auto q = rq(s); size_t n = 7; int ni = 7; double R = 1.5, al = .3; std::string str = "x"; const char* cs = "7"; std::vector<double> vec{ 1. };
    mk(s, "", [&] { return make_radial_traits(q); }); mk(s, "n", [&] { return make_radial_traits(q, n); }); mk(s, "i", [&] { return make_radial_traits(q, ni); });
    mk(s, "nR", [&] { return make_radial_traits(q, n, R); }); mk(s, "iR", [&] { return make_radial_traits(q, 7, 1.5); }); mk(s, "nRa", [&] { return make_radial_traits(q, n, R, al); });
    mk(s, "nRaa", [&] { return make_radial_traits(q, n, R, al, al); }); mk(s, "s", [&] { return make_radial_traits(q, str); }); mk(s, "c", [&] { return make_radial_traits(q, cs); });
    mk(s, "ns", [&] { return make_radial_traits(q, n, str); }); mk(s, "nRs", [&] { return make_radial_traits(q, n, R, str); }); mk(s, "v", [&] { return make_radial_traits(q, vec); }); mk(s, "nc", [&] { return make_radial_traits(q, n, cs); });
    mk(s, "sR", [&] { return make_radial_traits(q, str, R); });
  }
  vf::save(out, o + "]}"); return 0;
}
// ---- programs over specifications ------------------------------------------------------------
// Values: radial scheme index 0..3, parameters "-" or "SCHEME:N:R:ALPHA" (index into PV), regions list.
// A program is a line of commands "op a b c;..." over pruned slots 0..2 and unpruned slots 0..1.
static const char* SN[] = { "becke", "mk", "mhl", "ta" };
struct PVal { int s; size_t n; double R, al; };
static const PVal PV[] = { { 0, 4, 1.0, 0.6 }, { 0, 4, 2.0, 0.6 }, { 0, 5, 1.0, 0.6 }, { 1, 4, 1.0, 0.6 }, { 2, 4, 1.0, 0.6 }, { 3, 4, 1.0, 0.6 }, { 3, 4, 1.0, 0.5 } };
static TP pval(int i) { return direct_traits(SN[PV[i].s], PV[i].n, PV[i].R, PV[i].al); }
static int pident(const RadialTraits* t) { if(!t) return -1; for(int i = 0; i < 7; i++) if(pval(i)->compare(*t)) return i; return -2; }
static PruningRegion rval(int i) { static const PruningRegion R[] = { { 0, 4, AngularQuad::LebedevLaikov, 6 }, { 0, 4, AngularQuad::LebedevLaikov, 14 }, { 0, 2, AngularQuad::LebedevLaikov, 6 }, { 2, 4, AngularQuad::Delley, 14 }, { 1, 4, AngularQuad::LebedevLaikov, 6 }, { 0, 4, AngularQuad::Delley, 14 },
    { 0, 4, AngularQuad::LebedevLaikov, ((size_t)1 << 32) + 6 }, { 0, ((size_t)1 << 32) + 4, AngularQuad::LebedevLaikov, 6 } }; return R[i]; } // the last two differ from others beyond 32 bits
// overwrite the parameter object in place (same concrete type)
static bool poke(RadialTraits* t, int i) {
  auto v = pval(i);
  if(auto p = dynamic_cast<my::TB*>(t)) { if(auto q = dynamic_cast<my::TB*>(v.get())) { *p = *q; return true; } }
  if(auto p = dynamic_cast<my::TM*>(t)) { if(auto q = dynamic_cast<my::TM*>(v.get())) { *p = *q; return true; } }
  if(auto p = dynamic_cast<my::TH*>(t)) { if(auto q = dynamic_cast<my::TH*>(v.get())) { *p = *q; return true; } }
  if(auto p = dynamic_cast<my::TT*>(t)) { if(auto q = dynamic_cast<my::TT*>(v.get())) { *p = *q; return true; } }
  return false;
}
static int values(const char* plan, const char* out) {
  std::ifstream is(plan); std::string line, o = "["; long np = 0;
  using PS = PrunedSphericalGridSpecification; using US = UnprunedSphericalGridSpecification;
  while(std::getline(is, line)) {
    if(line.empty()) continue;
    std::unique_ptr<PS> P[3]; std::unique_ptr<US> U[2];
    if(np++) o += ",\n"; o += "["; bool fs = true;
    std::istringstream cmds(line); std::string cmd;
    while(std::getline(cmds, cmd, ';')) {
      std::istringstream cs(cmd); std::string op; long a = 0, b = 0, c = 0, d = 0; if(!(cs >> op)) continue; cs >> a >> b >> c >> d;
      long res = 0;
      try {
        if(op == "new") { std::vector<PruningRegion> v{ rval(d) }; if(c < 0) P[a] = std::make_unique<PS>(rq(SN[b]), TP(nullptr), v); else if(c & 1) P[a] = std::make_unique<PS>(rq(SN[b]), pval(c), v); else { auto t = pval(c); P[a] = std::make_unique<PS>(rq(SN[b]), *t, v); } }
        else if(op == "copy") P[a] = std::make_unique<PS>(*P[b]);
        else if(op == "assign") *P[a] = *P[b];
        else if(op == "byval") { auto f = [](PS s) { return s; }; P[a] = std::make_unique<PS>(f(*P[b])); }
        else if(op == "massign") { PS t(*P[b]); *P[a] = std::move(t); }
        else if(op == "setscheme") P[a]->radial_quad = rq(SN[b]);
        else if(op == "setparams") { if(b < 0) P[a]->radial_traits.reset(); else P[a]->radial_traits = pval(b); }
        else if(op == "poke") res = poke(P[a]->radial_traits.get(), b) ? 0 : 2;
        else if(op == "addregion") P[a]->pruning_regions.insert(P[a]->pruning_regions.end(), 1 + 2 * c, rval(b));
        else if(op == "setregion") P[a]->pruning_regions.at(c % P[a]->pruning_regions.size()) = rval(b);
        else if(op == "delregion") P[a]->pruning_regions.erase(P[a]->pruning_regions.begin() + b % P[a]->pruning_regions.size());
        else if(op == "clear") P[a]->pruning_regions.clear();
        else if(op == "destroy") P[a].reset();
        else if(op == "generate") { res = (long)SphericalGridFactory::generate_grid(*P[a])->npts(); }
        else if(op == "unew") { auto t = pval(c); U[a] = std::make_unique<US>(rq(SN[b]), *t, d ? AngularQuad::Delley : AngularQuad::LebedevLaikov, 14); }
        else if(op == "ucopy") U[a] = std::make_unique<US>(*U[b]);
        else if(op == "usetparams") { if(b < 0) U[a]->radial_traits.reset(); else U[a]->radial_traits = pval(b); }
        else if(op == "upoke") res = poke(U[a]->radial_traits.get(), b) ? 0 : 2;
        else if(op == "usetscheme") U[a]->radial_quad = rq(SN[b]);
        else if(op == "usetsize") U[a]->angular_size = (size_t)b;
        else if(op == "ugenerate") { res = (long)SphericalGridFactory::generate_grid(*U[a])->npts(); }
        else if(op == "udestroy") U[a].reset();
        else if(op == "prune") { P[a] = std::make_unique<PS>(create_pruned_spec(c == 0 ? PruningScheme::Unpruned : c == 1 ? PruningScheme::Robust : PruningScheme::Treutler, *U[b])); }
        else { fprintf(stderr, "op %s\n", op.c_str()); return 3; }
      } catch(std::exception&) { res = -1; }
      // observe everything
      if(!fs) o += ","; fs = false; o += "{"; vf::kr(o, "o", "[\"" + op + "\"," + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + "," + std::to_string(d) + "]"); vf::kv(o, "res", res);
      std::string p = "[", e = "[", u = "[";
      for(int i = 0; i < 3; i++) {
        if(i) p += ","; if(!P[i]) p += "[]"; else { std::string rl = showregions(P[i]->pruning_regions); p += "[\"" + rname(P[i]->radial_quad) + "\"," + std::to_string(pident(P[i]->radial_traits.get())) + "," + rl + "]"; }
        for(int j = 0; j < 3; j++) { if(i || j) e += ","; e += !P[i] || !P[j] ? "-1" : *P[i] == *P[j] ? "1" : "0"; }
      }
      for(int i = 0; i < 2; i++) { if(i) u += ","; if(!U[i]) u += "[]"; else u += "[\"" + rname(U[i]->radial_quad) + "\"," + std::to_string(pident(U[i]->radial_traits.get())) + ",\"" + aname(U[i]->angular_quad) + "\"," + std::to_string(U[i]->angular_size) + "]"; }
      vf::kr(o, "p", p + "]"); vf::kr(o, "eq", e + "]"); vf::kr(o, "u", u + "]"); o += "}";
    }
    o += "]";
  }
  vf::save(out, o + "]"); return 0;
}
int main(int argc, char** argv) {
  if(argc < 3) return 3;
  std::string m = argv[1];
  if(m == "requests") return requests(argv[2], argv[3], false);
  if(m == "both") return requests(argv[2], argv[3], true);
  if(m == "reject") return reject(argv[2], argc > 3 ? atol(argv[3]) : 16500);
  if(m == "regions") return prune(argv[2], argv[3]);
  if(m == "names") return names(argv[2], argv[3]);
  if(m == "traits") return traits(argv[2], argv[3]);
  if(m == "values") return values(argv[2], argv[3]);
  return 3;
}
