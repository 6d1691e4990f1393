// One-dimensional rules, radial grids and interval transforms: logs what the public API
// returns for the requests of a plan file.
//   radial PLAN OUT
//   plan lines:  rule KIND N full | rule KIND N pick I J ...   (1-based node numbers)
//                construct KIND LO HI                            (which sizes construct)
//                moments KIND LO HI       extended-precision sums over the rule, one record per size
//                trap N LO UP
//                pgrid SCHEME N R ALPHA HOW I J ...    a radial grid at a few nodes, with the base rule's nodes I+d, J+d, ...
//                                                      (d: half the number of extra points of the base rule)
//                grid SCHEME N R ALPHA HOW                       HOW: args|traits|base|short|shorter
//                scale SCHEME N R C ALPHA                        grids for R and R*C
//                big SCHEME N R ALPHA
//                bt LO UP PT W      (LO/UP may be -inf / inf)
#include "common.hpp"
#include <atomic>
#include <thread>
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/quadratures/radial.hpp>
#include <integratorxx/util/bound_transform.hpp>
using namespace IntegratorXX;
using vd = std::vector<double>;

// points and weights in single or double precision
#ifdef WITH_FLOAT
using FT = float; using FW = float;
#elif defined(FLOAT_WEIGHTS)
using FT = double; using FW = float;
#elif defined(FLOAT_POINTS)
using FT = float; using FW = double;
#else
using FT = double; using FW = double;
#endif

struct PW { bool ok = false; vd p, w; };
template <class Q> PW take(const Q& q) { PW r; r.ok = true; r.p.assign(q.points().begin(), q.points().end()); r.w.assign(q.weights().begin(), q.weights().end()); return r; }
template <class F> PW guard(F f) { try { return take(f()); } catch(std::exception&) { return PW{}; } }

static PW rule(const std::string& k, size_t n) {
  if(k == "gl") return guard([&] { return GaussLegendre<FT, FW>(n); });
  if(k == "lobatto") return guard([&] { return GaussLobatto<FT, FW>(n); });
  if(k == "gc1") return guard([&] { return GaussChebyshev1<FT, FW>(n); });
  if(k == "gc2") return guard([&] { return GaussChebyshev2<FT, FW>(n); });
  if(k == "gc3") return guard([&] { return GaussChebyshev3<FT, FW>(n); });
  if(k == "gc2m") return guard([&] { return GaussChebyshev2Modified<FT, FW>(n); });
  fprintf(stderr, "kind %s\n", k.c_str()); exit(3);
}
static PW trap(size_t n, double lo, double up) { return guard([&] { return UniformTrapezoid<FT, FW>(n, (FT)lo, (FT)up); }); }
using bk = Becke<FT, FW>; using mk = MuraKnowles<FT, FW>; using mhl = MurrayHandyLaming<FT, FW>; using ta = TreutlerAhlrichs<FT, FW>;

// library maps over other rules of the right interval, and MHL maps of other orders
template <size_t M> using mhlM = RadialTransformQuadrature<UniformTrapezoid<FT, FW>, MurrayHandyLamingRadialTraits<M>>;
using beckeT = RadialTransformQuadrature<UniformTrapezoid<FT, FW>, BeckeRadialTraits>; using taT = RadialTransformQuadrature<UniformTrapezoid<FT, FW>, TreutlerAhlrichsRadialTraits>;
template <class Q, class T> PW grid1(size_t n, double R, const std::string& how) {
  if(how == "args") return guard([&] { return Q(n, R); });
  if(how == "traits") return guard([&] { T t(n, R); return Q(t); });
  if(how == "base") return guard([&] { auto t = T(n, R).clone(); const RadialTraits& b = *t; return Q(b); });
  if(how == "short") return guard([&] { return Q(T(n)); });
  exit(3);
}
static PW grid(const std::string& s, size_t n, double R, double al, const std::string& how) {
  if(s == "becke") return grid1<bk, BeckeRadialTraits>(n, R, how);
  if(s == "mk") return grid1<mk, MuraKnowlesRadialTraits>(n, R, how);
  if(s == "mhl") return grid1<mhl, MurrayHandyLamingRadialTraits<2>>(n, R, how);
  if(s == "mhl1") return grid1<mhlM<1>, MurrayHandyLamingRadialTraits<1>>(n, R, how);
  if(s == "mhl3") return grid1<mhlM<3>, MurrayHandyLamingRadialTraits<3>>(n, R, how);
  if(s == "mhl4") return grid1<mhlM<4>, MurrayHandyLamingRadialTraits<4>>(n, R, how);
  if(s == "mhl5") return grid1<mhlM<5>, MurrayHandyLamingRadialTraits<5>>(n, R, how);
  if(s == "beckeT") return grid1<beckeT, BeckeRadialTraits>(n, R, how);
  if(s == "taT") { if(how == "traits") return guard([&] { TreutlerAhlrichsRadialTraits t(n, R, al); return taT(t); }); return guard([&] { return taT(n, R, al); }); }
  if(s == "ta") {
    using T = TreutlerAhlrichsRadialTraits;
    if(how == "args") return guard([&] { return ta(n, R, al); });
    if(how == "traits") return guard([&] { T t(n, R, al); return ta(t); });
    if(how == "base") return guard([&] { auto t = T(n, R, al).clone(); const RadialTraits& b = *t; return ta(b); });
    if(how == "short") return guard([&] { return ta(T(n)); });
    if(how == "shorter") return guard([&] { return ta(n, R); });
  }
  exit(3);
}
static PW base(const std::string& s, size_t n) { return s == "becke" || s == "ta" ? rule("gc2", n) : trap(n + 2, 0., 1.); }

static void body(std::string& o, const PW& r, const char* p, const char* w) { vf::kns(o, p, r.p); vf::kns(o, w, r.w); }
static bool fin(const vd& v) { for(auto x : v) if(!std::isfinite(x)) return false; return true; }
static void shape(std::string& o, const PW& r) {
  bool asc = true, pos = true, pp = true; const bool sym = r.p.size() == r.w.size();
  for(size_t i = 1; i < r.p.size(); i++) asc &= r.p[i - 1] < r.p[i];
  for(auto x : r.w) pos &= x > 0;
  for(auto x : r.p) pp &= x > 0;
  double sp = 0, sw = 0, sa = 0; // largest deviation from symmetry, of the nodes and of the weights (relative and absolute)
  for(size_t i = 0; sym && i < r.p.size(); i++) { size_t j = r.p.size() - 1 - i; sp = std::max(sp, std::fabs(r.p[i] + r.p[j])); sw = std::max(sw, std::fabs(r.w[i] - r.w[j]) / std::fabs(r.w[j])); sa = std::max(sa, std::fabs(r.w[i] - r.w[j])); }
  vf::kn(o, "symp", sp); vf::kn(o, "symw", sw); vf::kn(o, "symwa", sa);
  vf::kv(o, "asc", asc); vf::kv(o, "pos", pos); vf::kv(o, "fin", fin(r.p) && fin(r.w)); vf::kv(o, "ppos", pp);
  vf::kv(o, "np", r.p.size()); vf::kv(o, "nw", r.w.size());
}

int main(int argc, char** argv) {
  if(argc < 3) return 3;
  std::ifstream is(argv[1]); std::string line, out = "[";
  while(std::getline(is, line)) {
    std::istringstream s(line); std::string what; s >> what;
    std::string o = "{"; vf::kv(o, "what", what);
    auto dbl = [&] { std::string t; s >> t; return std::strtod(t.c_str(), nullptr); };
    if(what == "rule") {
      std::string k, m; size_t n; s >> k >> n >> m;
      PW r = rule(k, n);
      vf::kv(o, "kind", k); vf::kv(o, "n", n); vf::kv(o, "mode", m); vf::kv(o, "ok", r.ok); shape(o, r);
      std::string ix = "[";
      if(m == "pick") { PW q; q.ok = r.ok; size_t i; while(s >> i) if(i >= 1 && i <= r.p.size() && i <= r.w.size()) { q.p.push_back(r.p[i - 1]); q.w.push_back(r.w[i - 1]); ix += (ix.back() == '[' ? "" : ",") + std::to_string(i); } r = q; }
      else for(size_t i = 1; i <= r.p.size(); i++) ix += (ix.back() == '[' ? "" : ",") + std::to_string(i);
      vf::kr(o, "idx", ix + "]"); body(o, r, "x", "w");
    } else if(what == "construct") {
      std::string k; size_t lo, hi; s >> k >> lo >> hi; std::string bad = "[";
      size_t cnt = 0;
      for(size_t n = lo; n <= hi; n++) {
        PW r = rule(k, n); bool good = r.ok && r.p.size() == n && r.w.size() == n && fin(r.p) && fin(r.w);
        for(size_t i = 1; good && i < n; i++) good = r.p[i - 1] < r.p[i];
        for(size_t i = 0; good && i < n; i++) good = r.w[i] > 0;
        cnt++; if(!good) bad += (bad.back() == '[' ? "" : ",") + std::to_string(n);
      }
      vf::kv(o, "kind", k); vf::kv(o, "lo", lo); vf::kv(o, "hi", hi); vf::kv(o, "tried", cnt); vf::kr(o, "bad", bad + "]");
    } else if(what == "moments") {
      std::string k; size_t lo, hi; s >> k >> lo >> hi; bool any = false; using E = long double;
      std::vector<PW> rs; for(size_t n = lo; n <= hi; n++) rs.push_back(rule(k, n));
      std::vector<std::string> recs(rs.size()); std::atomic<size_t> nxt{ rs.size() };   // the rules are built here, only the sums run in parallel
      auto work = [&] { for(size_t z; (z = nxt.fetch_sub(1) - 1) < rs.size(); ) { const size_t n = lo + z;
        const PW& r = rs[z]; std::string q = "{"; vf::kv(q, "what", what); vf::kv(q, "kind", k); vf::kv(q, "n", n); vf::kv(q, "ok", r.ok && !r.p.empty() && r.p.size() == r.w.size()); shape(q, r);
        if(r.ok && !r.p.empty() && r.p.size() == r.w.size()) {
          const size_t N = r.p.size(); vf::kn(q, "first", r.p.front()); vf::kn(q, "last", r.p.back());
          auto put = [&](const char* key, E x) { double d = (double)x; vf::kn(q, key, d); };
          if(k == "gl" || k == "lobatto") { // sums of w P_l(x): degree 0, and the largest magnitude over the degrees 1..2n-1 (2n-3)
            E m0 = 0, worst = 0; std::vector<E> a(N, 1), b(N, 0); for(auto w : r.w) m0 += w;
            const size_t top = k == "gl" ? 2 * n - 1 : 2 * n - 3;
            for(size_t l = 1; l <= top; l++) { E f = (E)(2 * l - 1) / l, g = (E)(l - 1) / l, m = 0; for(size_t i = 0; i < N; i++) { E c = f * r.p[i] * a[i] - g * b[i]; b[i] = a[i]; a[i] = c; m += c * r.w[i]; } if(!(std::fabs(m) <= worst)) worst = std::fabs(m); }
            put("m0", m0); put("worst", worst);
          } else if(k != "gc2m") { // sums of T_l(t) for odd and even l in 1..2n-1 (smallest and largest), and of w^2 T_l(t): l = 0, 2, and the largest magnitude over the other l <= 2n-3
            std::vector<E> t(N), a(N), b(N, 1), v(N); E m0 = 0, m2 = 0, rest = 0, s[4] = { 9e9L, -9e9L, 9e9L, -9e9L };
            for(size_t i = 0; i < N; i++) { t[i] = a[i] = k == "gc3" ? 2 * (E)r.p[i] - 1 : (E)r.p[i]; v[i] = (E)r.w[i] * r.w[i]; m0 += v[i]; }
            for(size_t l = 1; l <= 2 * n - 1; l++) { E m = 0, u = 0; for(size_t i = 0; i < N; i++) { m += a[i]; u += v[i] * a[i]; E c = 2 * t[i] * a[i] - b[i]; b[i] = a[i]; a[i] = c; }
              size_t e = l % 2 ? 0 : 2; if(!(m >= s[e])) s[e] = m; if(!(m <= s[e + 1])) s[e + 1] = m;
              if(l == 2) m2 = u; else if(l + 3 <= 2 * n && !(std::fabs(u) <= rest)) rest = std::fabs(u); }
            put("m0", m0); put("m2", m2); put("rest", rest); put("oddlo", s[0]); put("oddhi", s[1]); if(n > 1) { put("evenlo", s[2]); put("evenhi", s[3]); }
          } else { E m0 = 0, m2 = 0; for(auto w : r.w) { m0 += w; m2 += (E)w * w; } put("m0", m0); put("m2", m2); }
        }
        recs[z] = q + "}";
      } };
      { std::vector<std::thread> th; for(int i = 0; i < 8; i++) th.emplace_back(work); for(auto& x : th) x.join(); }
      for(auto& q : recs) { if(any) out += ",\n"; else if(out.back() != '[') out += ","; any = true; out += q; }
      out += "\n"; continue;
    } else if(what == "pgrid") {
      std::string sc, how; size_t n, i; s >> sc >> n; double R = dbl(), al = dbl(); s >> how;
      PW g = grid(sc, n, R, al, how), b = base(sc, n), x, y; const size_t d = b.p.size() > n ? (b.p.size() - n) / 2 : 0;
      vf::kv(o, "scheme", sc); vf::kv(o, "n", n); vf::kn(o, "R", R); vf::kn(o, "alpha", al); vf::kv(o, "how", how); vf::kv(o, "ok", g.ok && b.ok); vf::kv(o, "bn", b.p.size()); shape(o, g);
      while(s >> i) if(i >= 1 && i <= g.p.size() && i <= g.w.size() && i + d <= b.p.size() && i + d <= b.w.size()) { x.p.push_back(g.p[i - 1]); x.w.push_back(g.w[i - 1]); y.p.push_back(b.p[i + d - 1]); y.w.push_back(b.w[i + d - 1]); }
      body(o, x, "r", "w"); body(o, y, "bx", "bw");
    } else if(what == "trap") {
      size_t n; s >> n; double lo = dbl(), up = dbl(); PW r = trap(n, lo, up);
      vf::kv(o, "n", n); vf::kn(o, "lo", lo); vf::kn(o, "up", up); vf::kv(o, "ok", r.ok); body(o, r, "x", "w");
    } else if(what == "grid") {
      std::string sc, how; size_t n; s >> sc >> n; double R = dbl(), al = dbl(); s >> how;
      PW g = grid(sc, n, R, al, how), b = base(sc, n);
      vf::kv(o, "scheme", sc); vf::kv(o, "n", n); vf::kn(o, "R", R); vf::kn(o, "alpha", al); vf::kv(o, "how", how); vf::kv(o, "ok", g.ok && b.ok); shape(o, g);
      body(o, g, "r", "w"); body(o, b, "bx", "bw");
    } else if(what == "scale") {
      std::string sc; size_t n; s >> sc >> n; double R = dbl(), c = dbl(), al = dbl();
      PW g = grid(sc, n, R, al, "args"), h = grid(sc, n, R * c, al, "args");
      vf::kv(o, "scheme", sc); vf::kv(o, "n", n); vf::kn(o, "R", R); vf::kn(o, "RC", R * c); vf::kv(o, "ok", g.ok && h.ok); shape(o, g);
      body(o, g, "r", "w"); body(o, h, "rc", "wc");
    } else if(what == "same") {
      // the same parameters through two constructors
      std::string sc, h1, h2; size_t n; s >> sc >> n; double R = dbl(), al = dbl(); s >> h1 >> h2;
      PW a = grid(sc, n, R, al, h1), b = grid(sc, n, R, al, h2);
      vf::kv(o, "scheme", sc); vf::kv(o, "n", n); vf::kv(o, "h1", h1); vf::kv(o, "h2", h2); vf::kv(o, "ok", a.ok && b.ok); vf::kn(o, "R", R); vf::kn(o, "alpha", al);
      body(o, a, "r", "w"); body(o, b, "rc", "wc");
    } else if(what == "big") {
      std::string sc; size_t n; s >> sc >> n; double R = dbl(), al = dbl(); PW g = grid(sc, n, R, al, "args");
      vf::kv(o, "scheme", sc); vf::kv(o, "n", n); vf::kn(o, "R", R); vf::kv(o, "ok", g.ok); shape(o, g);
    } else if(what == "bt") {
      double lo = dbl(), up = dbl(), pt = dbl(), w = dbl();
      auto [p2, w2] = transform_minus_one_to_one<FT, FW>((FT)lo, (FT)up, (FT)pt, (FW)w);
      vf::kv(o, "loinf", std::isinf(lo)); vf::kv(o, "upinf", std::isinf(up));
      vf::kn(o, "lo", std::isinf(lo) ? 0 : (FT)lo); vf::kn(o, "up", std::isinf(up) ? 0 : (FT)up); vf::kn(o, "pt", (FT)pt); vf::kn(o, "w", (FW)w); vf::kn(o, "pt2", p2); vf::kn(o, "w2", w2);
    } else return 3;
    out += out.back() == '[' ? "" : ","; out += o + "}\n";
  }
  vf::save(argv[2], out + "]");
}
