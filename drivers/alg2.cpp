#include <graph/graph.hpp>
#include <graph/algorithms.hpp>
#include <vector>
namespace vcd {
struct Edge {
  using source_id_type = size_t; using target_id_type = size_t; using value_type = double;
  size_t source_id; size_t target_id; double value;
};
struct Cmp { bool operator()(const double&, const double&) const; };
using PEdge = std::pair<size_t, double>;
using G     = std::vector<std::vector<PEdge>>;
using edge_t = graph::adj_list::edge_t<G>;
struct Weight { double operator()(const G&, const edge_t&) const; };
void vc_root(graph::disjoint_vector<size_t>& s, std::vector<Edge>& e, std::vector<Edge>& t, Cmp cmp, G& g, std::vector<size_t>& pred, std::vector<double>& w, Weight wf) {
  graph::disjoint_find(s, size_t(0));
  graph::disjoint_union(s, size_t(0), size_t(1));
  graph::disjoint_union_find(s, size_t(0), size_t(1));
  graph::kruskal(e, t);
  graph::kruskal(e, t, cmp);
  graph::inplace_kruskal(e, t);
  graph::inplace_kruskal(e, t, cmp);
  graph::prim(g, pred, w, size_t(0));
  graph::prim(g, pred, w, cmp, 1e9, wf, size_t(0));
}
}
