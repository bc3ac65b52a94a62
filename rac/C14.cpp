#include "rac.hpp"
#include <graph/graph.hpp>
#include <graph/algorithms.hpp>
#include "containers.hpp"
using namespace rac;
template <class G>
void run(G&& g, const EL& el, const char* kind) {
  note(std::string("graph type ") + kind);
  using GR = std::remove_reference_t<G>;
  std::vector<std::set<size_t>> nb(el.n);
  for (auto& e : el.e) if (e.u != e.v) nb[e.u].insert(e.v);
  std::vector<std::pair<size_t, size_t>> want;
  for (size_t u = 0; u < el.n; ++u)
    for (auto& e : el.e) if (e.u == u && e.v != u) want.push_back({u, e.v});
  size_t k = 0;
  auto   out = [&](auto u, auto v, auto& uv, auto val) {
    require(k < want.size(), "more callbacks than non-loop edges");
    require(size_t(u) == want[k].first && size_t(v) == want[k].second, "callback " + std::to_string(k) + " reports (" + std::to_string(u) + "," + std::to_string(v) + ") instead of (" + std::to_string(want[k].first) + "," + std::to_string(want[k].second) + ")");
    require(size_t(graph::target_id(g, uv)) == size_t(v) && size_t(graph::source_id(g, uv)) == size_t(u), "the edge descriptor does not belong to the pair reported");
    size_t inter = 0;
    std::set<size_t> un = nb[u];
    for (auto x : nb[v]) { inter += nb[u].count(x); un.insert(x); }
    double ex = un.empty() ? 0.0 : double(inter) / double(un.size());
    require(double(val) == ex, "value " + std::to_string(double(val)) + " instead of " + std::to_string(ex) + " for (" + std::to_string(u) + "," + std::to_string(v) + ")");
    ++k;
  };
  graph::jaccard_coefficient(g, out);
  require(k == want.size(), "fewer callbacks than non-loop edges");
}
int main(int argc, char** argv) {
  Args a = start(argc, argv);
  Rng  r(a.seed);
  auto one = [](EL& el, Rng&) {
    run(vov(el), el, "vector<vector<size_t>>");
    run(vov_w<int>(el), el, "vector<vector<pair<int,double>>>");
    if (!el.e.empty()) run(make_dynamic(el), el, "dynamic_graph");
  };
  Opt o;
  drive(r, o, a.budget / 2, one);
  o.symmetric = true;
  o.small = false;
  drive(r, o, a.budget / 2, one);
  return finish();
}
