// C23: clients of the search views (abstract graph)
#include <graph/graph.hpp>
#include <graph/views/bfs.hpp>
#include <graph/views/dfs.hpp>
#include <graph/views/topological_sort.hpp>
#include <vector>
namespace vcd {
using Edge = std::pair<size_t, double>;
using G    = std::vector<std::vector<Edge>>;
using edge_t = graph::adj_list::edge_t<G>;
using vertex_t = graph::adj_list::vertex_t<G>;
/// an arbitrary client: decides at each element whether to go on
struct Client {
  int on_vertex(const vertex_t&, size_t depth, size_t visited);
  int on_edge(const edge_t&, size_t depth, size_t visited);
  void start(size_t depth, size_t visited);
};
struct VF { int operator()(const G&, const vertex_t&) const; };
struct EF { int operator()(const G&, const edge_t&) const; };
void value_of(const vertex_t&, int);
void value_of(const edge_t&, int);
template <class W> void steer(W& w, int k) {
  (void)w.cancel();
  if (k == 1) w.cancel(graph::views::cancel_search::cancel_branch);
  else if (k == 2) w.cancel(graph::views::cancel_search::cancel_all);
}
template <class W> void vertices_client(W w, Client c) {
  c.start(w.depth(), w.num_visited());
  auto it = w.begin();
  while (!(it == w.end())) {
    auto&& x = *it;
    if constexpr (requires { x.value; }) value_of(x.vertex, x.value);
    steer(w, c.on_vertex(x.vertex, w.depth(), w.num_visited()));
    ++it;
  }
}
template <class W> void edges_client(W w, Client c) {
  c.start(w.depth(), w.num_visited());
  auto it = w.begin();
  while (!(it == w.end())) {
    auto&& x = *it;
    if constexpr (requires { x.value; }) value_of(x.edge, x.value);
    steer(w, c.on_edge(x.edge, w.depth(), w.num_visited()));
    ++it;
  }
}
void bfs_vertices(G& g, size_t s, Client c) { vertices_client(graph::views::vertices_bfs(g, s), c); }
void bfs_vertices_value(G& g, size_t s, Client c, VF f) { vertices_client(graph::views::vertices_bfs(g, s, f), c); }
void dfs_vertices(G& g, size_t s, Client c) { vertices_client(graph::views::vertices_dfs(g, s), c); }
void dfs_vertices_value(G& g, size_t s, Client c, VF f) { vertices_client(graph::views::vertices_dfs(g, s, f), c); }
void bfs_edges(G& g, size_t s, Client c) { edges_client(graph::views::edges_bfs(g, s), c); }
void bfs_edges_value(G& g, size_t s, Client c, EF f) { edges_client(graph::views::edges_bfs(g, s, f), c); }
void dfs_edges(G& g, size_t s, Client c) { edges_client(graph::views::edges_dfs(g, s), c); }
void dfs_edges_value(G& g, size_t s, Client c, EF f) { edges_client(graph::views::edges_dfs(g, s, f), c); }
void vc_root(G& g, size_t s, Client c, VF vf, EF ef) {
  bfs_vertices(g, s, c);
  bfs_vertices_value(g, s, c, vf);
  dfs_vertices(g, s, c);
  dfs_vertices_value(g, s, c, vf);
  bfs_edges(g, s, c);
  bfs_edges_value(g, s, c, ef);
  dfs_edges(g, s, c);
  dfs_edges_value(g, s, c, ef);
}
} // namespace vcd
