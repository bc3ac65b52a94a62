// C22: views over dynamic graphs; in-edge views
#include "dyng.hpp"
#include "lem22.hpp"
namespace vcd {
template <class G> auto in_edge_at(G& g, size_t i, size_t k) { return nth(graph::in_edges(g, vertex_at(g, i)), k); }
template <class G> void C22_in_incidence(G& g, size_t u, size_t i, size_t j, long c) {
  using namespace graph;
  require(u < count(g));
  require_ids(g);
  auto   ud = vertex_at(g, u);
  size_t m  = len(in_edges(g, ud));
  IFn<G> f{c};
  auto   view = views::in_incidence(g, ud);
  auto   vief = views::in_incidence(g, ud, f);
  iteration(view, m, i, j);
  iteration(vief, m, i, j);
  if (i < m) {
    auto e = in_edge_at(g, u, i);
    auto x = *at(view, i);
    auto y = *at(vief, i);
    ensure(x.target_id == source_id(g, e) && x.edge == e, "element i is in-edge i with its source");
    ensure(y.target_id == source_id(g, e) && y.edge == e && y.value == f(g, e), "element i is in-edge i with its source and value");
  }
}
template <class G> void C22_in_incidence_id(G& g, size_t u, size_t i, size_t j, long c) {
  using namespace graph;
  if constexpr (adj_list::index_bidirectional_adjacency_list<G>) {
    require(u < count(g));
    require_ids(g);
    auto   ud  = vertex_at(g, u);
    auto   uid = vertex_id(g, ud);
    size_t m   = len(in_edges(g, ud));
    IFn<G> f{c};
    auto   vieb = views::basic_in_incidence(g, uid);
    auto   viec = views::basic_in_incidence(g, uid, f);
    iteration(vieb, m, i, j);
    iteration(viec, m, i, j);
    if (i < m) {
      auto e = in_edge_at(g, u, i);
      ensure((*at(vieb, i)).target_id == source_id(g, e), "element i is the source of in-edge i");
      ensure((*at(viec, i)).target_id == source_id(g, e) && (*at(viec, i)).value == f(g, e), "element i is the source and value of in-edge i");
    }
    ensure(same(views::in_incidence(g, uid), views::in_incidence(g, ud)) && same(views::in_incidence(g, uid, f), views::in_incidence(g, ud, f)), "by id is by descriptor");
  }
}
template <class G> void C22_in_neighbors(G& g, size_t u, size_t i, size_t j, long c) {
  using namespace graph;
  require(u < count(g));
  require_ids(g);
  auto   ud = vertex_at(g, u);
  size_t m  = len(in_edges(g, ud));
  VFn<G> f{c};
  auto   view = views::in_neighbors(g, ud);
  auto   vief = views::in_neighbors(g, ud, f);
  iteration(view, m, i, j);
  iteration(vief, m, i, j);
  if (i < m) {
    auto e = in_edge_at(g, u, i);
    require(is_vertex(g, source_id(g, e)));
    auto w = *find_vertex(g, source_id(g, e));
    auto x = *at(view, i);
    auto y = *at(vief, i);
    ensure(x.target_id == source_id(g, e) && x.target == w, "element i is the source of in-edge i");
    ensure(y.target_id == source_id(g, e) && y.target == w && y.value == f(g, w), "element i is the source of in-edge i with its value");
  }
}
template <class G> void C22_in_neighbors_id(G& g, size_t u, size_t i, size_t j, long c) {
  using namespace graph;
  if constexpr (adj_list::index_bidirectional_adjacency_list<G>) {
    require(u < count(g));
    require_ids(g);
    auto   ud  = vertex_at(g, u);
    auto   uid = vertex_id(g, ud);
    size_t m   = len(in_edges(g, ud));
    VFn<G> f{c};
    auto   vieb = views::basic_in_neighbors(g, uid);
    auto   viec = views::basic_in_neighbors(g, uid, f);
    iteration(vieb, m, i, j);
    iteration(viec, m, i, j);
    if (i < m) {
      auto e = in_edge_at(g, u, i);
      require(is_vertex(g, source_id(g, e)));
      auto w = *find_vertex(g, source_id(g, e));
      ensure((*at(vieb, i)).target_id == source_id(g, e), "element i is the source of in-edge i");
      ensure((*at(viec, i)).target_id == source_id(g, e) && (*at(viec, i)).value == f(g, w), "element i is the source of in-edge i with its value");
    }
    ensure(same(views::in_neighbors(g, uid), views::in_neighbors(g, ud)) && same(views::in_neighbors(g, uid, f), views::in_neighbors(g, ud, f)), "by id is by descriptor");
  }
}
template <class G> void in_lemmas() {
  (void)&C22_in_incidence<G>;
  (void)&C22_in_incidence_id<G>;
  (void)&C22_in_neighbors<G>;
  (void)&C22_in_neighbors_id<G>;
}
void vc_root() {
  graph_lemmas<dir<vec, vec>::graph_type<double, void, void>>();
  graph_lemmas<dir<deq, lst>::graph_type<void, int, void>>();
  graph_lemmas<const dir<vec, fwl>::graph_type<int, void, void>>();
  graph_lemmas<dir<mp, vec>::graph_type<double, void, int>>();
  graph_lemmas<sel<vec, vec>::graph_type<double, void, void>>();
  in_lemmas<sel<vec, vec>::graph_type<double, void, void>>();
  in_lemmas<sel<vec, lst>::graph_type<int, void, void>>();
  in_lemmas<sel<mp, deq>::graph_type<double, void, void>>();
}
} // namespace vcd
