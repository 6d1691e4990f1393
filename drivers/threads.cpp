// Several threads using the library at once: each its own requests, or the same constant objects.
//   threads kinds                 number of request kinds
//   threads alone OUT             every request answered by a fresh single thread, in order
//   threads waves PLAN OUT        lines of four requests KIND.VARIANT; each line is run by four
//                                 threads at once; begin and end of every request are ticketed
// Build with -fsanitize=thread: a data race ends the program with a report.
#include "common.hpp"
#include <integratorxx/generators/spherical_factory.hpp>
#include <integratorxx/generators/impl/impl.hpp>
#include <integratorxx/quadratures/primitive.hpp>
#include <integratorxx/quadratures/radial.hpp>
#include <integratorxx/quadratures/s2.hpp>
#include <integratorxx/composite_quadratures/sub_quadrature.hpp>
#include <integratorxx/batch/spherical_micro_batcher.hpp>
#include <integratorxx/util/bound_transform.hpp>
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <cxxabi.h>
#include <typeindex>
using namespace IntegratorXX;
using P3 = std::array<double, 3>;
using GL = GaussLegendre<double, double>; using BK = Becke<double, double>; using MK = MuraKnowles<double, double>; using MHL = MurrayHandyLaming<double, double>; using TA = TreutlerAhlrichs<double, double>;
using LL = LebedevLaikov<double>; using SQ = SphericalQuadrature<MK, LL>; using PSQ = PrunedSphericalQuadrature<MK, LL>; using RGP = RadialGridPartition<LL>;
using BASE = SphericalQuadratureBase<std::vector<P3>, std::vector<double>>; using SB = SphericalMicroBatcher<std::vector<P3>, std::vector<double>>;
// the objects all threads of a wave share, constant for them
struct Shared {
  MuraKnowlesRadialTraits mt; TreutlerAhlrichsRadialTraits tt; MK rad; LL ang; GL gl; SQ grid; RGP part; PSQ pruned; SB batcher; UnprunedSphericalGridSpecification us; PrunedSphericalGridSpecification ps; BeckeRadialTraits bt; MurrayHandyLamingRadialTraits<2> ht;
  Shared() : mt(9, 1.5), tt(6, 0.8, 0.3), rad(mt), ang(14), gl(12), grid(rad, ang, P3{ .5, -1, 2 }), part(mkpart(rad)), pruned(rad, part, P3{ -1, 0, 3 }), batcher(20, pruned),
    us(RadialQuad::MuraKnowles, mt, AngularQuad::LebedevLaikov, 50), ps(RadialQuad::TreutlerAhlrichs, tt, std::vector<PruningRegion>{ { 0, 2, AngularQuad::LebedevLaikov, 14 }, { 2, 6, AngularQuad::LebedevLaikov, 26 } }), bt(11, 0.7), ht(8, 2.5) {}
  static RGP mkpart(const MK& r) { RGP p; p.add_quad(r, 0, LL(6)); p.add_quad(r, 3, LL(26)); p.add_quad(r, 7, LL(14)); p.finalize(r); return p; }
};
using A = std::string;
template <class Q> A h(const Q& q) { return std::to_string(q.points().size()) + ":" + vf::hash(q.points(), q.weights()); }
static A batches(const SB& b) { vf::Hash x; size_t n = 0; for(size_t i = 0; i < b.nbatches(); i++) { auto [lo, up, p, w] = b.at(i); x.add(lo); x.add(up); for(auto& q : p) x.add(q); for(auto v : w) x.add(v); n += p.size(); } return std::to_string(n) + ":" + x.str(); }
template <class F> A thrown(F f) { try { return f(); } catch(std::exception& e) { return A("rejected ") + abi::__cxa_current_exception_type()->name() + " " + e.what(); } }
static const RadialQuad RQ[] = { RadialQuad::Becke, RadialQuad::MuraKnowles, RadialQuad::MurrayHandyLaming, RadialQuad::TreutlerAhlrichs };
static const AngularQuad AQ[] = { AngularQuad::AhrensBeylkin, AngularQuad::Delley, AngularQuad::LebedevLaikov, AngularQuad::Womersley };
static const size_t AN[4][2] = { { 72, 192 }, { 26, 50 }, { 14, 110 }, { 6, 32 } };
using Fn = std::function<A(const Shared&, int)>;
static std::vector<Fn> kinds() {
  std::vector<Fn> K;
#define REQ(...) K.push_back([](const Shared& s, int v) -> A { (void)s; (void)v; __VA_ARGS__ })
  REQ(GL q(v ? 17 : 40); return h(q);); REQ(GaussLobatto<double, double> q(v ? 21 : 34); return h(q););
  REQ(GaussChebyshev1<double, double> q(v ? 30 : 9); return h(q);); REQ(GaussChebyshev2<double, double> q(v ? 30 : 9); return h(q);); REQ(GaussChebyshev3<double, double> q(v ? 30 : 9); return h(q);); REQ(GaussChebyshev2Modified<double, double> q(v ? 30 : 9); return h(q););
  REQ(UniformTrapezoid<double, double> q(v ? 30 : 9, v ? -1. : 0., v ? 2. : 1.); return h(q););
  REQ(BK q(v ? 20 : 7, v ? 1.5 : 1.); return h(q);); REQ(MK q(v ? 20 : 7, v ? 1.5 : 1.); return h(q);); REQ(MHL q(v ? 20 : 7, v ? 1.5 : 1.); return h(q);); REQ(TA q(v ? 20 : 7, v ? 1.5 : 1., v ? .2 : .6); return h(q););
  REQ(AhrensBeylkin<double> q(AN[0][v]); return h(q);); REQ(Delley<double> q(AN[1][v]); return h(q);); REQ(LL q(AN[2][v]); return h(q);); REQ(Womersley<double> q(AN[3][v]); return h(q););
  REQ(return h(*S2Factory::generate(AQ[0], AN[0][v]));); REQ(return h(*S2Factory::generate(AQ[1], AN[1][v]));); REQ(return h(*S2Factory::generate(AQ[2], AN[2][v]));); REQ(return h(*S2Factory::generate(AQ[3], AN[3][v])););
  REQ(auto t = make_radial_traits(RQ[0], v ? 8 : 11, v ? 1. : 3.); return h(*RadialFactory::generate(RQ[0], *t));); REQ(auto t = make_radial_traits(RQ[1], v ? 8 : 11, v ? 1. : 3.); return h(*RadialFactory::generate(RQ[1], *t)););
  REQ(auto t = make_radial_traits(RQ[2], v ? 8 : 11, v ? 1. : 3.); return h(*RadialFactory::generate(RQ[2], *t));); REQ(auto t = make_radial_traits(RQ[3], v ? 8 : 11, v ? 1. : 3., v ? .6 : .1); return h(*RadialFactory::generate(RQ[3], *t)););
  REQ(BeckeRadialTraits t(v ? 5 : 8, 1.2); return h(*SphericalGridFactory::generate_unpruned_grid(RQ[0], t, AQ[v ? 0 : 3], v ? 72 : 6)););
  REQ(TreutlerAhlrichsRadialTraits t(v ? 5 : 8, 1.2); UnprunedSphericalGridSpecification u(RQ[3], t, AQ[v ? 1 : 2], 50); return h(*SphericalGridFactory::generate_grid(create_pruned_spec(PruningScheme::Robust, u))););
  REQ(MurrayHandyLamingRadialTraits<2> t(v ? 5 : 8, 1.2); UnprunedSphericalGridSpecification u(RQ[2], t, AQ[v ? 1 : 2], 50); return h(*SphericalGridFactory::generate_grid(create_pruned_spec(PruningScheme::Treutler, u))););
  REQ(MuraKnowlesRadialTraits t(6, v ? 2. : 1.); return h(*SphericalGridFactory::generate_pruned_grid(RQ[1], t, { { 0, 2, AQ[1], 14 }, { 2, (size_t)(v ? 4 : 3), AQ[1], 26 }, { (size_t)(v ? 4 : 3), 6, AQ[1], 50 } })););
  REQ(A o; for(auto n : { "Becke", "MK", "murrayhandylaming", "TA", "bogus", "Treutler", "" }) o += thrown([&] { return std::to_string((int)radial_from_string(n)); }) + ","; for(auto n : { "AB", "delley", "LebedevLaikov", "WOMERSLEY", "lebedev" }) o += thrown([&] { return std::to_string((int)angular_from_string(n)); }) + ","; return o;);
  REQ(using namespace IntegratorXX; vf::Hash x; for(int64_t i = v; i < 400; i++) { x.add((double)quadrature_traits<AhrensBeylkin<double>>::npts_by_algebraic_order(i)); x.add((double)quadrature_traits<Delley<double>>::next_algebraic_order(i)); x.add((double)quadrature_traits<LL>::algebraic_order_by_npts(i)); x.add((double)quadrature_traits<Womersley<double>>::next_algebraic_order(i)); } return x.str(););
  REQ(return thrown([&] { AhrensBeylkin<double> q(v ? 5 : 73); return h(q); }) + thrown([&] { Delley<double> q(v ? 5 : 73); return h(q); }) + thrown([&] { LL q(v ? 5 : 73); return h(q); }) + thrown([&] { Womersley<double> q(v ? 5 : 73); return h(q); }) + thrown([&] { return h(*S2Factory::generate((AngularQuad)77, 6)); }) + thrown([&] { return h(*RadialFactory::generate((RadialQuad)77, s.mt)); }););
  REQ(MK r(s.mt); SQ g(r, LL(26), P3{ 1, 2, 3 }); SB b(v ? 12 : 31, g); A o = batches(b); b.recenter(P3{ 0, 0, 1. + v }); return o + batches(b););
  REQ(const BASE& g = v ? static_cast<const BASE&>(s.grid) : s.pruned; vf::Hash x; x.add(g.center()); return h(g) + x.str() + std::to_string(g.npts()););
  REQ(return v ? batches(s.batcher) : [&] { const SB& b = s.batcher; vf::Hash x; auto e = b.cend(); for(auto it = b.cbegin(); it != e; ++it) { auto [lo, up, p, w] = *it; x.add(lo); x.add(up); for(auto& q : p) x.add(q); for(auto u : w) x.add(u); } return std::to_string(b.max_batch_size()) + " " + std::to_string(b.points().size()) + x.str(); }(););
  REQ(auto g = v ? s.grid.clone() : s.pruned.clone(); g->recenter(P3{ 1. + v, 0, -4 }); return h(*g););
  REQ(if(v) { auto c = s.ps; c.pruning_regions.pop_back(); c.pruning_regions.push_back({ 2, 6, AQ[2], 6 }); return h(*SphericalGridFactory::generate_grid(s.ps)) + h(*SphericalGridFactory::generate_grid(c)) + (c == s.ps ? "eq" : "ne"); }
      auto p = create_pruned_spec(PruningScheme::Treutler, s.us); auto q = robust_psi4_pruning_scheme(s.us); return h(*SphericalGridFactory::generate_grid(s.us)) + h(*SphericalGridFactory::generate_grid(p)) + (p == q ? "eq" : "ne"););
  REQ(auto c = s.mt.clone(); auto d = s.tt.clone(); const RadialTraits& b = s.tt; return A(c->compare(s.mt) ? "1" : "0") + (d->compare(s.mt) ? "1" : "0") + (b.compare(*d) ? "1" : "0") + std::to_string(b.npts()) + thrown([&] { MK x(b); return h(x); }) + (v ? h(MK(*c)) : h(TA(*d))););
  REQ(vf::Hash x; const double inf = std::numeric_limits<double>::infinity(); const double L[5][2] = { { 0, 1 }, { -3, 4 }, { 1, inf }, { -inf, 2 }, { -inf, inf } }; for(auto& l : L) for(double t = -.75; t < 1; t += v ? .125 : .25) { auto [a, b] = transform_minus_one_to_one(l[0], l[1], t, .5); x.add(a); x.add(b); } return x.str(););
  REQ(SubQuadrature<GL> q(std::make_pair((size_t)(v ? 2 : 0), (size_t)9), s.gl); SubQuadrature<LL> r(std::make_pair((size_t)1, (size_t)(v ? 8 : 14)), s.ang); return h(q) + h(r););
  REQ(if(v) { PSQ g(s.rad, s.part, P3{ 1, 1, 1 }); return h(g); } RGP p(s.part); A o; for(auto&& [rg, q] : p) o += std::to_string(rg.first) + "-" + std::to_string(rg.second) + h(q); const RGP& c = s.part; for(auto it = c.begin(); it != c.end(); ++it) { auto&& [rg, q] = *it; o += std::to_string(rg.second) + h(q); } return o;);
  REQ(if(v) { SB b(s.batcher); return batches(b); } SB b(15, s.grid); return batches(b) + batches(SB(9, s.pruned)););
  REQ(GaussLegendre<float, float> q(v ? 6 : 12); MuraKnowles<float, float> r(v ? 5 : 9, 2.f); LebedevLaikov<float> a(v ? 6 : 26); return h(q) + h(r) + h(a););
  REQ(Quadrature<GL> a(v ? 5 : 9); Quadrature<GL> b(a), c(std::move(a)); SQ g(s.grid), e(std::move(g)); PSQ p(s.pruned), r(std::move(p)); r.recenter(P3{ 0, 0, (double)v }); return h(b) + h(c) + h(e) + h(r););
  // the same constant parameters: the maps themselves, and rules built from them directly and through the generic interface
  REQ(vf::Hash x; for(double t = v ? .015625 : .984375; t > 0 && t < 1; t += v ? .0625 : -.03125) { x.add(s.bt.radial_transform(t)); x.add(s.bt.radial_jacobian(t)); x.add(s.mt.radial_transform(t)); x.add(s.mt.radial_jacobian(t)); x.add(s.ht.radial_transform(t)); x.add(s.ht.radial_jacobian(t)); x.add(s.tt.radial_transform(t)); x.add(s.tt.radial_jacobian(t)); } return x.str(););
  REQ(if(v) return h(BK(s.bt)) + h(MK(s.mt)) + h(MHL(s.ht)) + h(TA(s.tt)); A o; const RadialTraits* ts[] = { &s.bt, &s.mt, &s.ht, &s.tt }; for(int i = 0; i < 4; i++) o += h(*RadialFactory::generate(RQ[i], *ts[i])) + std::to_string(ts[i]->npts()) + (ts[i]->compare(*ts[(i + 1) % 4]) ? "eq" : "ne") + (ts[i]->clone()->compare(*ts[i]) ? "eq" : "ne"); return o;);
  REQ(if(v) return h(*SphericalGridFactory::generate_unpruned_grid(RQ[3], s.tt, AQ[3], 6)) + h(*SphericalGridFactory::generate_unpruned_grid(RQ[2], s.ht, AQ[1], 26)); return h(*SphericalGridFactory::generate_pruned_grid(RQ[0], s.bt, s.ps.pruning_regions)) + h(*SphericalGridFactory::generate_pruned_grid(RQ[2], s.ht, { { 0, 3, AQ[0], 72 }, { 3, 8, AQ[1], 14 } })););
  return K;
}
#ifndef SIMPLE_BARRIER
struct Barrier { std::mutex m; std::condition_variable cv; int n, left, gen = 0; Barrier(int n) : n(n), left(n) {} void wait() { std::unique_lock<std::mutex> l(m); int g = gen; if(--left == 0) { left = n; gen++; cv.notify_all(); } else cv.wait(l, [&] { return gen != g; }); } };
#endif
static std::atomic<long> clock_{ 0 };
static std::atomic<int> spin_{ 0 };
static A answer(const Fn& f, const Shared& s, int v) { try { return f(s, v); } catch(std::exception& e) { return A("error ") + e.what(); } catch(...) { return "error"; } }
static A quote(const A& a) { A o = "\""; for(unsigned char c : a) if(c >= 32 && c < 127 && c != '"' && c != '\\') o += c; return o + "\""; }
int main(int argc, char** argv) {
  auto K = kinds(); A mode = argc > 1 ? argv[1] : "";
  if(mode == "kinds") { printf("%zu\n", K.size()); return 0; }
  if(mode == "alone" && argc > 2) {
    A o = "["; for(size_t k = 0; k < K.size(); k++) for(int v = 0; v < 2; v++) { A a; { Shared s; a = answer(K[k], s, v); } o += (o.size() > 1 ? ",\n" : "") + A("[") + std::to_string(k) + "," + std::to_string(v) + "," + quote(a) + "]"; }
    vf::save(argv[2], o + "]"); return 0; }
  if(mode != "waves" || argc < 4) return 3;
  struct Job { int k, v; }; std::vector<std::array<Job, 4>> W; { std::ifstream is(argv[2]); std::array<Job, 4> w; while(is >> w[0].k >> w[0].v >> w[1].k >> w[1].v >> w[2].k >> w[2].v >> w[3].k >> w[3].v) W.push_back(w); }
  struct Done { long b, e; A a; }; std::vector<std::array<Done, 4>> D(W.size()); Barrier bar(5); std::vector<std::unique_ptr<Shared>> sh(W.size());
  std::vector<std::thread> th;
  for(int t = 0; t < 4; t++) th.emplace_back([&, t] { for(size_t i = 0; i < W.size(); i++) { bar.wait();
      // meet once more without synchronising, so that the requests start together
      spin_.fetch_add(1, std::memory_order_relaxed); for(int z = 0; z < 20000 && spin_.load(std::memory_order_relaxed) < 4 * (int)(i + 1); z++) std::this_thread::yield();
      Done& d = D[i][t]; const Job& j = W[i][t]; d.b = clock_.fetch_add(1, std::memory_order_relaxed); d.a = answer(K[j.k], *sh[i], j.v); d.e = clock_.fetch_add(1, std::memory_order_relaxed); bar.wait(); } });
  for(size_t i = 0; i < W.size(); i++) { sh[i] = std::make_unique<Shared>(); bar.wait(); bar.wait(); sh[i].reset(); }
  for(auto& t : th) t.join();
  A o = "["; for(size_t i = 0; i < W.size(); i++) {
    std::vector<std::pair<long, A>> ev; for(int t = 0; t < 4; t++) { A r = std::to_string(t + 1) + "," + std::to_string(W[i][t].k) + "," + std::to_string(W[i][t].v); ev.push_back({ D[i][t].b, "[\"begin\"," + r + ",\"\"]" }); ev.push_back({ D[i][t].e, "[\"end\"," + r + "," + quote(D[i][t].a) + "]" }); }
    std::sort(ev.begin(), ev.end()); o += (i ? ",\n[" : "["); for(size_t j = 0; j < 8; j++) o += (j ? "," : "") + ev[j].second; o += "]"; }
  vf::save(argv[3], o + "]");
}
