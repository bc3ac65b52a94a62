// C18: loading and reading compressed graphs
#include "vcd.hpp"
#include <cstdint>
#include <graph/container/compressed_graph.hpp>
#include <graph/graph.hpp>
#include <iterator>
#include <vector>
namespace vcd {
template <class EV> using range = std::vector<graph::copyable_edge_t<uint32_t, EV>>;
template <class VV> using vrange = std::vector<graph::copyable_vertex_t<uint32_t, VV>>;
template <class R> size_t len(R&& r) { return static_cast<size_t>(std::ranges::distance(r)); }
template <class R> auto nth(R&& r, size_t k) { return *std::next(r.begin(), static_cast<std::ptrdiff_t>(k)); }
/// what the graph reports is what was loaded: vertex number u, its edge number k; loaded edge number j
template <class G, class R> void reports(G& g, R& r, size_t u, size_t k, size_t j) {
  using namespace graph;
  ensure(num_edges(g) == r.size(), "num_edges is the number of edges loaded");
  ensure(len(vertices(g)) == num_vertices(g), "vertices and num_vertices agree");
  if (u < num_vertices(g)) {
    auto ud = nth(vertices(g), u);
    ensure(vertex_id(g, ud) == u, "vertex number u has id u");
    ensure(*find_vertex(g, u) == ud, "find_vertex finds it");
    size_t m = len(edges(g, ud));
    ensure(degree(g, ud) == m && num_edges(g, ud) == m, "degree counts the edges of the vertex");
    if (k < m) {
      auto   e = nth(edges(g, ud), k);
      size_t i = static_cast<size_t>(e.value());
      ensure(i == static_cast<size_t>((*edges(g, ud).begin()).value()) + k, "the edges of a vertex are consecutive in loading order");
      ensure(i < r.size(), "an edge of a vertex was loaded");
      ensure(r[i].source_id == u, "an edge of a vertex was loaded with that source");
      ensure(source_id(g, e) == u, "source of an edge");
      ensure(target_id(g, e) == r[i].target_id, "target of an edge is the one loaded");
      if constexpr (requires { r[i].value; })
        ensure(edge_value(g, e) == r[i].value, "value of an edge is the one loaded");
    }
  }
  if (j < r.size()) {
    size_t s = r[j].source_id;
    ensure(s < num_vertices(g) && r[j].target_id < num_vertices(g), "the ends of a loaded edge are vertices");
    auto sd = *find_vertex(g, s);
    size_t m = len(edges(g, sd));
    ensure(m > 0, "the source of a loaded edge has edges");
    size_t b = static_cast<size_t>((*edges(g, sd).begin()).value());
    ensure(b <= j && j < b + m, "a loaded edge is among the edges of its source");
  }
}
template <class G, class R> void C18_load_edges(G& g, R& r, size_t u, size_t k, size_t j) {
  g.load_edges(r);
  reports(g, r, u, k, j);
}
template <class G, class R> void C18_load_edges_count(G& g, R& r, size_t n, size_t c, size_t u, size_t k, size_t j) {
  g.load_edges(r, std::identity{}, n, c);
  ensure(r.size() == 0 || graph::num_vertices(g) >= n, "the requested number of vertices is there");
  reports(g, r, u, k, j);
}
template <class G, class EV> void loads() {
  (void)&C18_load_edges<G, range<EV>>;
  (void)&C18_load_edges<G, const range<EV>>;
  (void)&C18_load_edges_count<G, range<EV>>;
}
template <class G, class R> void C18_load_vertices(G& g, R& r) { g.load_vertices(r); }
template <class G, class R> void C18_load_vertices_count(G& g, R& r, size_t n) { g.load_vertices(r, std::identity{}, n); }
template <class G, class VV> void vloads() {
  (void)&C18_load_vertices<G, vrange<VV>>;
  (void)&C18_load_vertices<G, const vrange<VV>>;
  (void)&C18_load_vertices_count<G, vrange<VV>>;
}
void vc_root() {
  loads<graph::container::compressed_graph<int, void, void>, int>();
  loads<graph::container::compressed_graph<void, int, void>, void>();
  loads<graph::container::compressed_graph<double, int, int>, double>();
  vloads<graph::container::compressed_graph<int, int, void>, int>();
  vloads<graph::container::compressed_graph<void, int, int>, int>();
  vloads<graph::container::compressed_graph<int, void, void>, void>();
}
} // namespace vcd
