// Logs the angular families: which sizes construct, the look-up tables, the grids.
//   angular scan OUT            sizes 0..MAXN of all families (constructible or not)
//   angular grids OUTDIR PLAN   the planned grids, exact, one file each + index.json
//   angular float OUTDIR PLAN   double and float instantiations side by side
#include "common.hpp"
#include <integratorxx/quadratures/s2.hpp>
using namespace IntegratorXX;
static const long MAXN = 16500;
static const char* FAM[4] = { "AhrensBeylkin", "Delley", "LebedevLaikov", "Womersley" };

template <class Q> std::string attempt(size_t n, size_t& np, size_t& nw) {
  try { Q q(n); np = q.points().size(); nw = q.weights().size(); return "ok"; }
  catch(std::exception&) { return "throw"; }
}
template <class Q> void scan(std::string& o, const char* fam) {
  using T = quadrature_traits<Q>;
  o += o.back() == '[' ? "{" : ",{";
  vf::kv(o, "fam", fam);
  std::string acc = "["; long rejected = 0;
  for(long n = 0; n <= MAXN; n++) {
    size_t np = 0, nw = 0;
    if(attempt<Q>(n, np, nw) == "ok") { acc += acc.back() == '[' ? "" : ","; acc += "[" + std::to_string(n) + "," + std::to_string(np) + "," + std::to_string(nw) + "]"; }
    else rejected++;
  }
  vf::kr(o, "accepted", acc + "]"); vf::kv(o, "rejected", rejected); vf::kv(o, "maxn", MAXN);
  // look-ups: only answers that differ from the preceding one are logged for next(),
  // all answers that are not -1 for the two tables
  auto table = [&](const char* k, long lo, long hi, auto f) {
    std::string s = "[";
    for(long i = lo; i <= hi; i++) { long v = f(i); if(v != -1) { s += s.back() == '[' ? "" : ","; s += "[" + std::to_string(i) + "," + std::to_string(vf::clip(v)) + "]"; } }
    vf::kr(o, k, s + "]");
  };
  table("npts", -600, 3000, [](long i) { return (long)T::npts_by_algebraic_order(i); });
  table("order", -600, 40000, [](long i) { return (long)T::algebraic_order_by_npts(i); });
  std::string s = "["; 
  for(long i = -600; i <= 3000; i++) { s += s.back() == '[' ? "" : ","; s += std::to_string(vf::clip((long)T::next_algebraic_order(i))); }
  vf::kr(o, "next", s + "]");
  // beyond 32-bit: extreme arguments
  std::string x = "[";
  std::vector<int64_t> far{ INT64_MIN, INT64_MIN + 1, (int64_t)-4294967296ll + 14, (int64_t)INT32_MIN, (int64_t)INT32_MAX, (int64_t)4294967296ll + 14, (int64_t)4294967296ll + 302, INT64_MAX - 1, INT64_MAX };
  for(int64_t i = 1; i <= 40000; i++) // every order and size of the catalogue, shifted by powers of two and negated
    if((i <= 400 && T::npts_by_algebraic_order(i) >= 0) || T::algebraic_order_by_npts(i) >= 0) for(int64_t d : { (int64_t)1 << 16, (int64_t)1 << 31, (int64_t)1 << 32, (int64_t)1 << 40, (int64_t)1 << 62 }) { far.push_back(i + d); far.push_back(i - d); }
  for(int64_t a : far) {
    x += x.back() == '[' ? "" : ",";
    x += "[" + std::string(a < 0 ? "-1" : "1") + "," + std::to_string(vf::clip((long)T::npts_by_algebraic_order(a))) + "," + std::to_string(vf::clip((long)T::algebraic_order_by_npts(a))) + "," + std::to_string(vf::clip((long)T::next_algebraic_order(a))) + "]";
  }
  vf::kr(o, "extreme", x + "]");
  // sizes beyond the scanned range, some congruent to catalogued sizes modulo 2^32
  std::string h = "["; int hk = 0;
  for(size_t n : { (size_t)16501, (size_t)20000, (size_t)65536 + 14, (size_t)65536 + 302, (size_t)INT32_MAX, (size_t)4294967296ull, (size_t)4294967296ull + 6, (size_t)4294967296ull + 14, (size_t)4294967296ull + 72, (size_t)4294967296ull + 302, (size_t)4294967296ull + 50, (size_t)4294967296ull + 7939, (size_t)(1ull << 63) + 14, SIZE_MAX }) {
    size_t np = 0, nw = 0; bool ok = attempt<Q>(n, np, nw) == "ok";
    h += h.back() == '[' ? "" : ","; h += "[" + std::to_string(++hk) + (ok ? ",1]" : ",0]");
  }
  vf::kr(o, "huge", h + "]");
  o += "}";
}
static std::vector<std::pair<std::string, long>> PLAN; // the specification's catalogue
static void readplan(const char* f) { std::ifstream is(f); std::string a; long n; while(is >> a >> n) PLAN.push_back({ a, n }); }
template <class Q> void grids(std::string& idx, const char* fam, const std::string& dir) {
  using T = quadrature_traits<Q>;
  for(auto& [pf, n] : PLAN) {
    if(pf != fam) continue;
    std::unique_ptr<Q> q;
    try { q = std::make_unique<Q>(n); } catch(std::exception&) { continue; }
    std::string f = std::string(fam) + "_" + std::to_string(n) + ".json";
    std::string o = "{"; vf::kv(o, "fam", fam); vf::kv(o, "n", n); vf::kv(o, "order", (long)T::algebraic_order_by_npts(n));
    vf::kp3(o, "pts", q->points()); vf::kns(o, "wts", q->weights()); o += "}";
    vf::save(dir + "/" + f, o);
    idx += idx.back() == '[' ? "{" : ",{"; vf::kv(idx, "fam", fam); vf::kv(idx, "n", n); vf::kv(idx, "order", (long)T::algebraic_order_by_npts(n)); vf::kv(idx, "file", f); idx += "}";
  }
}
// ulp distance and exactness against float rounding are judged in TLA+: log both
template <template <class> class Q> void floats(std::string& idx, const char* fam, const std::string& dir) {
  for(auto& [pf, n] : PLAN) {
    if(pf != fam) continue;
    std::unique_ptr<Q<double>> d; std::unique_ptr<Q<float>> s;
    try { d = std::make_unique<Q<double>>(n); } catch(std::exception&) {}
    try { s = std::make_unique<Q<float>>(n); } catch(std::exception&) {}
    if(!d && !s) continue;
    std::string f = std::string(fam) + "_" + std::to_string(n) + ".json";
    std::string o = "{"; vf::kv(o, "fam", fam); vf::kv(o, "n", n); vf::kv(o, "d", (bool)d); vf::kv(o, "s", (bool)s);
    if(d) { vf::kp3(o, "dp", d->points()); vf::kns(o, "dw", d->weights()); }
    if(s) { vf::kp3(o, "sp", s->points()); vf::kns(o, "sw", s->weights()); }
    o += "}"; vf::save(dir + "/" + f, o);
    idx += idx.back() == '[' ? "{" : ",{"; vf::kv(idx, "fam", fam); vf::kv(idx, "n", n); vf::kv(idx, "file", f); idx += "}";
  }
}
int main(int argc, char** argv) {
  if(argc < 3) return 3;
  std::string mode = argv[1], out = argv[2], o = "[";
  if(argc > 3) readplan(argv[3]);
  if(mode == "scan") {
    scan<AhrensBeylkin<double>>(o, FAM[0]); scan<Delley<double>>(o, FAM[1]);
    scan<LebedevLaikov<double>>(o, FAM[2]); scan<Womersley<double>>(o, FAM[3]);
    vf::save(out, o + "]");
  } else if(mode == "grids") {
    grids<AhrensBeylkin<double>>(o, FAM[0], out); grids<Delley<double>>(o, FAM[1], out);
    grids<LebedevLaikov<double>>(o, FAM[2], out); grids<Womersley<double>>(o, FAM[3], out);
    vf::save(out + "/index.json", o + "]");
  }
#ifdef WITH_FLOAT
  else if(mode == "float") {
    floats<AhrensBeylkin>(o, FAM[0], out); floats<Delley>(o, FAM[1], out);
    floats<LebedevLaikov>(o, FAM[2], out); floats<Womersley>(o, FAM[3], out);
    vf::save(out + "/index.json", o + "]");
  }
#endif
  else return 3;
}
