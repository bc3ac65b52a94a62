// C20: bidirectional dynamic graphs: what in-edges and out-edges report, and that loading writes both rows
#include "dyng.hpp"
namespace vcd {
template <class G> void require_ids(G& g) {
  if constexpr (!requires { typename G::vertices_type::key_type; })
    require(count(g) <= static_cast<size_t>(static_cast<typename G::vertex_id_type>(-1)));
}
template <class G, class R> void C20_load_edges(G& g, R& r) { g.load_edges(r); }
template <class G, class R> void C20_load_edges_count(G& g, R& r, size_t n) {
  require(n > 0);
  g.load_edges(r, std::identity{}, n);
}
template <class EV> using range = std::vector<graph::copyable_edge_t<uint32_t, EV>>;
template <class G> auto& vertex_of(G& g, size_t i) {
  if constexpr (requires { element(g, i).second; }) return element(g, i).second;
  else return element(g, i);
}
/// in-edge number k of vertex number u reports exactly what is stored
template <class G> void C20_in_edges(G& g, size_t u, size_t k) {
  using namespace graph;
  require(u < count(g));
  require_ids(g);
  auto  ud  = *std::next(vertices(g).begin(), static_cast<std::ptrdiff_t>(u));
  auto& row = vertex_of(g, u).in_edges();
  ensure(len(in_edges(g, ud)) == count(row), "one in-edge per stored element");
  ensure(in_degree(g, ud) == count(row), "in_degree counts the stored elements");
  if (k < count(row)) {
    auto e = nth(in_edges(g, ud), k);
    ensure(source_id(g, e) == element(row, k).source_id(), "source of in-edge k is the stored one");
    ensure(target_id(g, e) == id_of(g, u), "target of an in-edge is its vertex");
    ensure(target(g, e) == ud, "target descriptor of an in-edge is its vertex");
    if constexpr (requires { element(row, k).value(); })
      ensure(edge_value(g, e) == element(row, k).value(), "value of in-edge k is the stored one");
    require(is_vertex(g, source_id(g, e)));
    ensure(vertex_id(g, source(g, e)) == source_id(g, e), "source descriptor of an in-edge has its source id");
  }
}
template <class G> void C20_out_edges(G& g, size_t u, size_t k) {
  using namespace graph;
  require(u < count(g));
  require_ids(g);
  auto  ud  = *std::next(vertices(g).begin(), static_cast<std::ptrdiff_t>(u));
  auto& row = vertex_of(g, u).edges();
  ensure(len(edges(g, ud)) == count(row), "one out-edge per stored element");
  ensure(degree(g, ud) == count(row), "degree counts the stored elements");
  if (k < count(row)) {
    auto e = nth(edges(g, ud), k);
    ensure(target_id(g, e) == element(row, k).target_id(), "target of out-edge k is the stored one");
    ensure(source_id(g, e) == id_of(g, u), "source of an out-edge is its vertex");
    ensure(source(g, e) == ud, "source descriptor of an out-edge is its vertex");
    if constexpr (requires { element(row, k).value(); })
      ensure(edge_value(g, e) == element(row, k).value(), "value of out-edge k is the stored one");
    require(is_vertex(g, target_id(g, e)));
    ensure(vertex_id(g, target(g, e)) == target_id(g, e), "target descriptor of an out-edge has its target id");
  }
}
/// searches for an in-edge of vertex number u from vertex number s
template <class G> void C20_find(G& g, size_t u, size_t s, size_t k) {
  using namespace graph;
  require(u < count(g) && s < count(g));
  require_ids(g);
  auto  ud  = *std::next(vertices(g).begin(), static_cast<std::ptrdiff_t>(u));
  auto  sd  = *std::next(vertices(g).begin(), static_cast<std::ptrdiff_t>(s));
  auto  sid = vertex_id(g, sd);
  auto& row = vertex_of(g, s).edges();
  if (k < count(row) && element(row, k).target_id() == id_of(g, u)) { // there is such an edge
    ensure(contains_in_edge(g, ud, sd), "contains_in_edge sees an edge that exists");
    auto e = find_in_edge(g, ud, sd);
    ensure(source_id(g, e) == sid && target_id(g, e) == id_of(g, u), "find_in_edge (descriptors) finds an edge between the two");
    auto f = find_in_edge(g, ud, sid);
    ensure(source_id(g, f) == sid && target_id(g, f) == id_of(g, u), "find_in_edge (descriptor, id) finds an edge between the two");
    if constexpr (requires { find_in_edge(g, id_of(g, u), sid); }) {
      auto h = find_in_edge(g, id_of(g, u), sid);
      ensure(source_id(g, h) == sid && target_id(g, h) == id_of(g, u), "find_in_edge (ids) finds an edge between the two");
    }
  }
  bool none = forall(0, count(row), [&](size_t j) { return element(row, j).target_id() != id_of(g, u); });
  if (none) ensure(!contains_in_edge(g, ud, sd), "contains_in_edge is false without such an edge");
}
template <class G, class EV> void loads() {
  (void)&C20_load_edges<G, range<EV>>;
  (void)&C20_load_edges_count<G, range<EV>>;
}
template <class G> void reports() {
  (void)&C20_in_edges<G>;
  (void)&C20_out_edges<G>;
}
template <class G> void finds() { (void)&C20_find<G>; }
void vc_root() {
  loads<sel<vec, vec>::graph_type<int, void, void>, int>();
  loads<sel<vec, lst>::graph_type<int, int, void>, int>();
  loads<sel<deq, vec>::graph_type<void, void, void>, void>();
  loads<sel<vec, fwl>::graph_type<int, int, void>, int>();
  loads<sel<deq, deq>::graph_type<void, int, void>, void>();
  loads<sel<vec, vec>::graph_type<double, void, int>, double>();
  reports<sel<vec, vec>::graph_type<int, void, void>>();
  reports<sel<vec, lst>::graph_type<void, int, void>>();
  reports<const sel<deq, deq>::graph_type<double, void, void>>();
  reports<sel<mp, vec>::graph_type<int, void, void>>();
  reports<sel<vec, fwl>::graph_type<int, void, void>>();
  finds<sel<vec, vec>::graph_type<int, void, void>>();
  finds<sel<vec, lst>::graph_type<void, int, void>>();
}
} // namespace vcd
