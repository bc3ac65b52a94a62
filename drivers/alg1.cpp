#include <graph/graph.hpp>
#include <graph/algorithms.hpp>
#include <graph/views/incidence.hpp>
#include <vector>
namespace vcd {
using Edge = std::pair<size_t, double>;
using G    = std::vector<std::vector<Edge>>;
using edge_t = graph::adj_list::edge_t<G>;
using vertex_t = graph::adj_list::vertex_t<G>;
struct Weight { double operator()(const G&, const edge_t&) const; };
struct Visitor {
  void on_discover_vertex(const G&, const size_t&);
  void on_examine_vertex(const G&, const size_t&);
  void on_finish_vertex(const G&, const size_t&);
  void on_examine_edge(const G&, const edge_t&);
  void on_edge_relaxed(const G&, const edge_t&);
  void on_edge_not_relaxed(const G&, const edge_t&);
};
struct DfsVisitor {
  void on_start_vertex(const G&, const size_t&);
  void on_discover_vertex(const G&, const size_t&);
  void on_finish_vertex(const G&, const size_t&);
  void on_examine_edge(const G&, const edge_t&);
  void on_tree_edge(const G&, const edge_t&);
  void on_back_edge(const G&, const edge_t&);
  void on_forward_or_cross_edge(const G&, const edge_t&);
  void on_finish_edge(const G&, const edge_t&);
};
struct Out {
  using iterator_category = std::output_iterator_tag; using difference_type = std::ptrdiff_t; using value_type = void;
  Out& operator*(); Out& operator++(); Out operator++(int); Out& operator=(const size_t&);
};
void vc_root(G& g, std::vector<size_t>& srcs, std::vector<double>& dist, std::vector<size_t>& pred, Weight w, Visitor v, DfsVisitor dv, Out out, std::vector<size_t>& comp) {
  graph::dijkstra_shortest_paths(g, srcs, dist, pred, w, v);
  (void)graph::bellman_ford_shortest_paths(g, srcs, dist, pred, w, v);
  graph::dijkstra_shortest_paths(g, size_t(0), dist, pred, w, v);
  graph::dijkstra_shortest_distances(g, srcs, dist, w, v);
  graph::dijkstra_shortest_distances(g, size_t(0), dist, w, v);
  (void)graph::bellman_ford_shortest_paths(g, size_t(0), dist, pred, w, v);
  (void)graph::bellman_ford_shortest_distances(g, srcs, dist, w, v);
  (void)graph::bellman_ford_shortest_distances(g, size_t(0), dist, w, v);
  graph::find_negative_cycle(g, pred, std::optional<size_t>(), out);
  graph::breadth_first_search(g, size_t(0), v);
  graph::breadth_first_search(g, srcs, v);
  graph::depth_first_search(g, size_t(0), dv);
  graph::topological_sort(g, srcs, out);
  graph::topological_sort(g, size_t(0), out);
  graph::topological_sort(g, out);
  graph::connected_components(g, comp);
  graph::maximal_independent_set(g, out, size_t(0));
  graph::triangle_count(g);
}
}
