#include "mstref.hpp"
#include <graph/graph.hpp>
#include <graph/algorithms.hpp>
#include "containers.hpp"
using namespace rac;
template <class G, class Id>
void run(const G& g, const EL& el, size_t seed, bool greater, bool dflt, const char* kind, Id) {
  note(std::string("prim ") + kind + (dflt ? "" : greater ? " greater" : " less") + " seed=" + std::to_string(seed));
  auto wf = [](const auto& g, const auto& uv) -> double { return graph::edge_value(g, uv); };
  size_t              n = el.n;
  std::vector<Id>     pred(n, Id(77));
  std::vector<double> wt(n, -99);
  double total;
  if (dflt) total = graph::prim(g, pred, wt, Id(seed));
  else if (greater) total = graph::prim(g, pred, wt, std::greater<double>{}, std::numeric_limits<double>::lowest(), wf, Id(seed));
  else total = graph::prim(g, pred, wt, std::less<double>{}, std::numeric_limits<double>::max(), wf, Id(seed));
  MstRef ref = mst_ref(n, el.e, greater);
  std::vector<E> mine;
  for (auto& e : el.e) if (ref.comp[e.u] == ref.comp[seed]) mine.push_back(e);
  double want = mst_ref(n, mine, greater).w;
  require(total == want, "total weight " + std::to_string(total) + " instead of " + std::to_string(want));
  require(pred[seed] == Id(seed), "the seed is not its own predecessor");
  double sum = 0;
  for (size_t v = 0; v < n; ++v) {
    if (ref.comp[v] != ref.comp[seed]) {
      require(pred[v] == Id(77) && wt[v] == -99, "a vertex not connected to the seed got a predecessor or weight");
      continue;
    }
    if (v == seed) continue;
    bool ok = false;
    for (auto& e : el.e) ok = ok || (e.u == size_t(pred[v]) && e.v == v && e.w == wt[v]);
    require(ok, "no edge from the predecessor of " + std::to_string(v) + " with the recorded weight");
    sum += wt[v];
    size_t x = v, k = 0;
    while (x != seed) { x = size_t(pred[x]); require(++k <= n, "following predecessors does not end at the seed"); }
  }
  require(sum == want, "the recorded weights do not add up to the minimum");
}
template <class G, class Id>
void errors(const G& g, size_t n, Id) {
  std::vector<Id> p(n); std::vector<double> w(n);
  auto throws = [&](auto&& f, const char* what) { try { f(); } catch (const std::out_of_range&) { return; } fail(std::string("no std::out_of_range for ") + what); };
  throws([&] { graph::prim(g, p, w, Id(n)); }, "a seed out of range");
  throws([&] { graph::prim(g, p, w, Id(n + 3)); }, "a seed out of range");
  if (n) {
    p.pop_back(); throws([&] { graph::prim(g, p, w, Id(0)); }, "a too small predecessor range"); p.resize(n);
    w.pop_back(); throws([&] { graph::prim(g, p, w, Id(0)); }, "a too small weight range");
  }
}
int main(int argc, char** argv) {
  Args a = start(argc, argv);
  Rng  r(a.seed);
  Opt  o;
  o.symmetric = true;
  drive(r, o, a.budget, [](EL& el, Rng& r) {
    if (r.chance(30)) for (auto& e : el.e) e.w -= 2;   // keeps both directions equal
    size_t seed = r.below(el.n);
    auto   g1   = vov_w<size_t>(el);
    auto   g2   = vov_w<int>(el);
    errors(g1, el.n, size_t{});
    if (!el.n) return;
    for (int k = 0; k < 3; ++k) run(g1, el, seed, k == 2, k == 0, "vector<vector<pair<size_t,double>>>", size_t{});
    run(g2, el, seed, r.chance(50), false, "vector<vector<pair<int,double>>>", size_t{});
    if (!el.e.empty()) { auto g = make_dynamic(el); run(g, el, seed, r.chance(50), false, "dynamic_graph", uint32_t{}); run(g, el, seed, false, true, "dynamic_graph", uint32_t{}); }
  });
  return finish();
}
