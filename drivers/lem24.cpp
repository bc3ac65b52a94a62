// C24: the transpose view of a bidirectional graph, access function by access function
#include "dyng.hpp"
#include <graph/views/transpose.hpp>
namespace vcd {
template <class G> auto vertex_no(G& g, size_t i) { // vertex number i
  require(i < graph::num_vertices(g) && i <= 0xffffffffu);
  return nth(graph::vertices(g), i);
}
template <class T, class G> void vertices_of(T&& t, G& g, size_t i) {
  using namespace graph;
  ensure(&t.base() == &g, "base() is the graph");
  ensure(num_vertices(t) == num_vertices(g), "num_vertices");
  ensure(same(vertices(t), vertices(g)), "vertices");
  ensure(num_edges(t) == num_edges(g), "num_edges");
  auto u  = vertex_no(g, i);
  auto id = vertex_id(g, u);
  ensure(*find_vertex(g, id) == u, "the vertex is found by its id");
  ensure(same(find_vertex(t, id), find_vertex(g, id)), "find_vertex");
  ensure(vertex_id(t, u) == vertex_id(g, u), "vertex_id");
}
/// out-edges of the transpose are the in-edges of the graph, the other way round
template <class T, class G> void out_edges_are(T&& t, G& g, size_t i, size_t k) {
  using namespace graph;
  auto u  = vertex_no(g, i);
  auto id = vertex_id(g, u);
  auto r  = edges(t, u);
  auto b  = in_edges(g, u);
  ensure(same(r.begin(), b.begin()) && same(r.end(), b.end()), "edges(t,u) are the in-edges of u");
  auto r2 = edges(t, id);
  ensure(same(r2.begin(), b.begin()) && same(r2.end(), b.end()), "edges(t,uid) are the in-edges of the vertex");
  ensure(size_t(degree(t, u)) == len(b), "degree(t,u) is the number of in-edges");
  ensure(size_t(degree(t, id)) == len(b), "degree(t,uid) is the number of in-edges");
  ensure(size_t(num_edges(t, u)) == len(b), "num_edges(t,u) is the number of in-edges");
  require(k < len(b));
  auto e = nth(r, k);
  ensure(e == nth(b, k), "the k-th out-edge is the k-th in-edge");
  ensure(target_id(t, e) == source_id(g, e), "target_id is the source id in the graph");
  ensure(source_id(t, e) == target_id(g, e), "source_id is the target id in the graph");
  ensure(source_id(t, e) == id, "the source is the vertex");
  ensure(edge_value(t, e) == edge_value(g, e), "edge_value is kept");
  ensure(&edge_value(t, e) == &edge_value(g, e), "edge_value refers to the graph's value");
  require(is_vertex(g, source_id(g, e)));
  ensure(target(t, e) == source(g, e), "target is the source in the graph");
  ensure(source(t, e) == target(g, e), "source is the target in the graph");
}
/// in-edges of the transpose are the out-edges of the graph, the other way round
template <class T, class G> void in_edges_are(T&& t, G& g, size_t i, size_t k) {
  using namespace graph;
  auto u  = vertex_no(g, i);
  auto id = vertex_id(g, u);
  auto r  = in_edges(t, u);
  auto b  = edges(g, u);
  ensure(same(r.begin(), b.begin()) && same(r.end(), b.end()), "in_edges(t,u) are the out-edges of u");
  auto r2 = in_edges(t, id);
  ensure(same(r2.begin(), b.begin()) && same(r2.end(), b.end()), "in_edges(t,uid) are the out-edges of the vertex");
  ensure(size_t(in_degree(t, u)) == len(b), "in_degree(t,u) is the number of out-edges");
  ensure(size_t(in_degree(t, id)) == len(b), "in_degree(t,uid) is the number of out-edges");
  require(k < len(b));
  auto e = nth(r, k);
  ensure(e == nth(b, k), "the k-th in-edge is the k-th out-edge");
  ensure(source_id(t, e) == target_id(g, e), "source_id is the target id in the graph");
  ensure(target_id(t, e) == source_id(g, e), "target_id is the source id in the graph");
  ensure(target_id(t, e) == id, "the target is the vertex");
  ensure(edge_value(t, e) == edge_value(g, e), "edge_value is kept");
  require(is_vertex(g, target_id(g, e)));
  ensure(target(t, e) == source(g, e), "target is the source in the graph");
  ensure(source(t, e) == target(g, e), "source is the target in the graph");
}
/// the transpose of the transpose is the graph
template <class T, class G> void twice(T& t, G& g, size_t i, size_t k) {
  using namespace graph;
  auto tt = views::transpose(t);
  ensure(&tt.base() == &t, "base() is the transpose");
  ensure(num_vertices(tt) == num_vertices(g) && num_edges(tt) == num_edges(g), "sizes");
  auto u = vertex_no(g, i);
  auto r = edges(tt, u);
  auto b = edges(g, u);
  ensure(same(r.begin(), b.begin()) && same(r.end(), b.end()), "edges(tt,u) are the out-edges of u");
  auto x = in_edges(tt, u);
  auto y = in_edges(g, u);
  ensure(same(x.begin(), y.begin()) && same(x.end(), y.end()), "in_edges(tt,u) are the in-edges of u");
  ensure(degree(tt, u) == degree(g, u) && in_degree(tt, u) == in_degree(g, u), "degrees");
  if (k < len(b)) {
    auto e = nth(r, k);
    ensure(target_id(tt, e) == target_id(g, e) && source_id(tt, e) == source_id(g, e) && edge_value(tt, e) == edge_value(g, e), "out-edges");
  }
  if (k < len(y)) {
    auto e = nth(x, k);
    ensure(target_id(tt, e) == target_id(g, e) && source_id(tt, e) == source_id(g, e) && edge_value(tt, e) == edge_value(g, e), "in-edges");
  }
}
template <class G> void C24_vertices(G& g, size_t i) { vertices_of(graph::views::transpose(g), g, i); }
template <class G> void C24_const_vertices(G& g, size_t i) { const auto t = graph::views::transpose(g); vertices_of(t, g, i); }
template <class G> void C24_out_edges(G& g, size_t i, size_t k) { auto t = graph::views::transpose(g); out_edges_are(t, g, i, k); }
template <class G> void C24_const_out_edges(G& g, size_t i, size_t k) { const auto t = graph::views::transpose(g); out_edges_are(t, g, i, k); }
template <class G> void C24_in_edges(G& g, size_t i, size_t k) { auto t = graph::views::transpose(g); in_edges_are(t, g, i, k); }
template <class G> void C24_const_in_edges(G& g, size_t i, size_t k) { const auto t = graph::views::transpose(g); in_edges_are(t, g, i, k); }
template <class G> void C24_twice(G& g, size_t i, size_t k) { auto t = graph::views::transpose(g); twice(t, g, i, k); }
template <class G> void graph_lemmas() {
  (void)&C24_vertices<G>;
  (void)&C24_const_vertices<G>;
  (void)&C24_out_edges<G>;
  (void)&C24_const_out_edges<G>;
  (void)&C24_in_edges<G>;
  (void)&C24_const_in_edges<G>;
  (void)&C24_twice<G>;
}
void vc_root() {
  graph_lemmas<sel<vec, vec>::graph_type<double, void, void>>();
  graph_lemmas<sel<deq, vec>::graph_type<int, int, int>>();
  graph_lemmas<sel<vec, deq>::graph_type<double, double, void>>();
  graph_lemmas<sel<mp, vec>::graph_type<double, void, void>>();
  graph_lemmas<sel<mp, deq>::graph_type<long, void, int>>();
}
} // namespace vcd
