#include "rac.hpp"
#include <graph/graph.hpp>
#include <graph/algorithms.hpp>
#include "containers.hpp"
using namespace rac;
template <class G> void run(G& g, const EL& el, const char* kind) {
  note(std::string("graph type ") + kind);
  std::vector<uint32_t> c(el.n, 77u);
  size_t                k  = graph::connected_components(g, c);
  auto                  cl = closure(el);
  std::set<uint32_t>    labels(c.begin(), c.end());
  for (size_t u = 0; u < el.n; ++u)
    for (size_t v = 0; v < el.n; ++v)
      require((c[u] == c[v]) == bool(cl[u][v]), "labels of " + std::to_string(u) + " and " + std::to_string(v) + (cl[u][v] ? " differ although connected" : " agree although not connected"));
  require(labels.size() == k, "the returned number " + std::to_string(k) + " is not the number of components " + std::to_string(labels.size()));
  require(labels.empty() || *labels.rbegin() == k - 1, "labels are not 0..k-1");
}
int main(int argc, char** argv) {
  Args a = start(argc, argv);
  Rng  r(a.seed);
  Opt  o;
  o.symmetric = true;
  drive(r, o, a.budget, [](EL& el, Rng& r) {
    auto g = vov(el);
    run(g, el, "vector<vector<size_t>>");
    auto g2 = vov_w<int>(el);
    run(g2, el, "vector<vector<pair<int,double>>>");
    if (!el.e.empty()) {
      auto dg = make_dynamic(el);
      run(dg, el, "dynamic_graph");
    }
  });
  return finish();
}
