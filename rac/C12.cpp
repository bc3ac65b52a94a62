#include "rac.hpp"
#include <graph/graph.hpp>
#include <graph/algorithms.hpp>
#include "containers.hpp"
#include <graph/container/traits/vos_graph_traits.hpp>
using namespace rac;
using VOS = graph::container::dynamic_graph<void, void, void, uint32_t, false, graph::container::vos_graph_traits<void, void, void, uint32_t, false>>;
template <class G>
void run(G&& g, size_t want, const char* kind) {
  note(std::string("graph type ") + kind);
  size_t c = graph::triangle_count(g);
  require(c == want, "triangle_count returned " + std::to_string(c) + " instead of " + std::to_string(want));
}
int main(int argc, char** argv) {
  Args a = start(argc, argv);
  Rng  r(a.seed);
  Opt  o;
  o.symmetric = true;
  o.parallel  = false;
  o.sorted    = true;
  drive(r, o, a.budget, [](EL& el, Rng&) {
    std::vector<std::set<size_t>> A(el.n);
    for (auto& e : el.e) A[e.u].insert(e.v);
    EL simple = el;
    simple.e.clear();
    size_t want = 0;
    for (size_t u = 0; u < el.n; ++u)
      for (size_t v : A[u]) {
        simple.e.push_back({u, v, 1});
        if (v > u)
          for (size_t w : A[v])
            if (w > v && A[u].count(w)) ++want;
      }
    run(vov(simple), want, "vector<vector<size_t>>");
    run(vov_w<unsigned>(simple), want, "vector<vector<pair<unsigned,double>>>");
    if (!simple.e.empty()) {
      VOS g;
      std::vector<graph::copyable_edge_t<uint32_t, void>> in;
      for (auto& e : simple.e) in.push_back({static_cast<uint32_t>(e.u), static_cast<uint32_t>(e.v)});
      g.load_edges(in, std::identity{}, simple.n);
      run(g, want, "dynamic_graph with set edges");
    }
  });
  return finish();
}
