// C19, C20: loading edges into dynamic graphs
#include "dyng.hpp"
namespace vcd {
template <class G, class R> void C19_load_edges(G& g, R& r) { g.load_edges(r); }
template <class G, class R> void C19_load_edges_count(G& g, R& r, size_t n) {
  require(n > 0);
  g.load_edges(r, std::identity{}, n);
}
template <class G, class R> void C19_load_vertices(G& g, R& r) { g.load_vertices(r); }
template <class G, class R> void C19_load_vertices_count(G& g, R& r, size_t n) { g.load_vertices(r, std::identity{}, n); }
template <class VV> using vrange = std::vector<graph::copyable_vertex_t<uint32_t, VV>>;
template <class G, class VV> void vloads() {
  (void)&C19_load_vertices<G, vrange<VV>>;
  (void)&C19_load_vertices<G, const vrange<VV>>;
  (void)&C19_load_vertices_count<G, vrange<VV>>;
}
template <class EV> using range = std::vector<graph::copyable_edge_t<uint32_t, EV>>;
template <class G, class EV> void loads() {
  (void)&C19_load_edges<G, range<EV>>;
  (void)&C19_load_edges_count<G, range<EV>>;
}
void vc_root() {
  loads<dir<vec, vec>::graph_type<int, void, void>, int>();
  loads<sel<vec, vec>::graph_type<int, void, void>, int>();
  loads<dir<vec, lst>::graph_type<void, void, void>, void>();
  loads<sel<vec, lst>::graph_type<int, int, void>, int>();
  loads<dir<deq, deq>::graph_type<int, int, void>, int>();
  loads<sel<deq, vec>::graph_type<void, void, void>, void>();
  loads<dir<vec, fwl>::graph_type<int, int, void>, int>();
  loads<sel<vec, fwl>::graph_type<int, int, void>, int>();
  vloads<dir<vec, vec>::graph_type<int, int, void>, int>();
  vloads<sel<vec, lst>::graph_type<int, int, void>, int>();
  vloads<dir<deq, deq>::graph_type<void, int, void>, int>();
  vloads<dir<vec, vec>::graph_type<int, void, void>, void>();
}
} // namespace vcd
