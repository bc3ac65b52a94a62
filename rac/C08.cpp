#include "rac.hpp"
#include <graph/graph.hpp>
#include <graph/algorithms.hpp>
#include "containers.hpp"
using namespace rac;
template <class C>
void judge(const EL& el, const std::vector<size_t>& want, const std::vector<C>& comp) {
  for (size_t u = 0; u < el.n; ++u) {
    require(size_t(comp[u]) < el.n, "entry out of range");
    require(want[size_t(comp[u])] == want[u], "entry of " + std::to_string(u) + " names a vertex of another component");
    for (size_t v = 0; v < el.n; ++v)
      require((comp[u] == comp[v]) == (want[u] == want[v]), "vertices " + std::to_string(u) + " and " + std::to_string(v) + (comp[u] == comp[v] ? " share an entry but are not" : " have different entries but are") + " connected");
  }
}
std::vector<size_t> comps(const EL& el) {
  std::vector<size_t> c(el.n);
  for (size_t i = 0; i < el.n; ++i) c[i] = i;
  for (auto& e : el.e) {
    size_t a = c[e.u], b = c[e.v];
    if (a != b) for (auto& x : c) if (x == b) x = a;
  }
  return c;
}
int main(int argc, char** argv) {
  Args a = start(argc, argv);
  Rng  r(a.seed);
  Opt  o;
  o.symmetric = true;
  auto one = [](EL& el, Rng& r) {
    size_t rounds = r.below(4);
    if (r.chance(3)) rounds = 1000000;
    auto want = comps(el);
    {
      note("afforest, vector<vector<size_t>>, rounds " + std::to_string(rounds));
      auto g = vov(el);
      std::vector<size_t> c(el.n, 3);
      graph::afforest(g, c, rounds);
      judge(el, want, c);
      if (r.chance(20)) { graph::afforest(g, c); judge(el, want, c); }
    }
    if (r.chance(50)) {
      note("afforest, vector<vector<pair<unsigned,double>>>, rounds " + std::to_string(rounds));
      auto g = vov_w<unsigned>(el);
      std::vector<unsigned> c(el.n);
      graph::afforest(g, c, rounds);
      judge(el, want, c);
    }
    if (!el.e.empty() && r.chance(50)) {
      note("afforest, dynamic_graph, rounds " + std::to_string(rounds));
      auto g = make_dynamic(el);
      std::vector<uint32_t> c(el.n);
      graph::afforest(g, c, rounds);
      judge(el, want, c);
    }
    // a directed graph and its transpose
    EL d;
    d.n = el.n;
    for (auto& e : el.e) if (r.chance(50)) d.e.push_back(e);
    want = comps(d);
    EL tr = d;
    for (auto& e : tr.e) std::swap(e.u, e.v);
    std::stable_sort(tr.e.begin(), tr.e.end(), [](const E& a, const E& b) { return a.u < b.u; });
    note("afforest with transpose, rounds " + std::to_string(rounds) + " directed " + d.text());
    auto g = vov(d), t = vov(tr);
    std::vector<size_t> c(el.n, 3);
    graph::afforest(g, t, c, rounds);
    judge(d, want, c);
  };
  drive(r, o, a.budget, one);
  return finish();
}
