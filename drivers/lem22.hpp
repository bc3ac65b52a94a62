// C22: vertexlist, incidence, neighbors views (and the edgelist view of an edge list) against the graph.
// std::next(view.begin(), i) is the i-th element: the verifier checks that ++ is a constant step and multiplies it.
#pragma once
#include "lemg.hpp"
#include <graph/views/edgelist.hpp>
#include <graph/views/incidence.hpp>
#include <graph/views/neighbors.hpp>
#include <graph/views/vertexlist.hpp>
namespace vcd {
template <class G> auto vertex_at(G& g, size_t i) { return *std::next(graph::vertices(g).begin(), static_cast<std::ptrdiff_t>(i)); }
template <class G> auto edge_at(G& g, size_t i, size_t k) {
  return *std::next(graph::edges(g, vertex_at(g, i)).begin(), static_cast<std::ptrdiff_t>(k));
}
template <class G> size_t degree_of(G& g, size_t i) { return graph::edges(g, vertex_at(g, i)).size(); }
template <class V> auto at(V& view, size_t i) { return std::next(view.begin(), static_cast<std::ptrdiff_t>(i)); }

/// every vertex number is representable as an id
template <class G> void require_ids(G& g) {
  if constexpr (!requires { typename G::key_type; } && std::unsigned_integral<graph::vertex_id_t<G>>) {
    constexpr size_t top = static_cast<size_t>(static_cast<graph::vertex_id_t<G>>(-1));
    require(count(g) <= top);
    if constexpr (requires { typename G::vertex_id_type; }) { // the id type of a dynamic graph may be smaller
      constexpr size_t most = static_cast<size_t>(static_cast<typename G::vertex_id_type>(-1));
      require(count(g) <= most);
    }
  }
}
/// iteration of a view of m elements: positions i, j
template <class View> void iteration(View& view, size_t m, size_t i, size_t j) {
  require(i <= m && j <= m);
  ensure((at(view, i) == view.end()) == (i == m), "the view ends after its last element");
  ensure((at(view, i) == at(view, j)) == (i == j), "iterator equality is position equality");
  if constexpr (requires { view.size(); }) ensure(size_t(view.size()) == m, "size() is the number of elements");
  ensure(view.empty() == (m == 0), "empty() says whether there are elements");
  if (i < m) {
    auto  a = at(view, i);
    auto& b = ++a;
    ensure(a == at(view, i + 1) && &b == &a, "++it is the next element");
    auto c = at(view, i);
    auto d = c++;
    ensure(c == at(view, i + 1) && d == at(view, i), "it++ moves on and returns the old position");
  }
}
template <class G> struct VFn { // vertex value function
  long c;
  long operator()(const G& g, graph::vertex_t<G> u) const { return opaque(size_t(graph::vertex_id(g, u)), size_t(c)); }
};
template <class G> struct EFn { // edge value function
  long c;
  template <class E> long operator()(const G& g, const E& uv) const { return opaque(size_t(graph::target_id(g, uv)), size_t(graph::source_id(g, uv)) + size_t(c)); }
};
template <class G> struct IFn { // in-edge value function
  long c;
  template <class E> long operator()(const G& g, const E& uv) const { return opaque(size_t(graph::source_id(g, uv)), size_t(c)); }
};
template <class G> void C22_vertexlist(G& g, size_t i, size_t j) {
  using namespace graph;
  size_t n    = count(g);
  auto   view = views::vertexlist(g);
  iteration(view, n, i, j);
  if (i < n) {
    auto [id, u] = *at(view, i);
    ensure(u == vertex_at(g, i), "element i is vertex i");
    ensure(id == vertex_id(g, vertex_at(g, i)), "with its id");
  }
}
template <class G> void C22_vertexlist_fn(G& g, size_t i, size_t j, long c) {
  using namespace graph;
  size_t n    = count(g);
  VFn<G> f{c};
  auto   view = views::vertexlist(g, f);
  iteration(view, n, i, j);
  if (i < n) {
    auto [id, u, val] = *at(view, i);
    ensure(u == vertex_at(g, i), "element i is vertex i");
    ensure(id == vertex_id(g, vertex_at(g, i)), "with its id");
    ensure(val == f(g, vertex_at(g, i)), "and the value of the function");
  }
}
template <class G> void C22_basic_vertexlist(G& g, size_t i, size_t j, long c) {
  using namespace graph;
  size_t n    = count(g);
  VFn<G> f{c};
  auto   view = views::basic_vertexlist(g);
  auto   vieu = views::basic_vertexlist(g, f);
  iteration(view, n, i, j);
  iteration(vieu, n, i, j);
  if (i < n) {
    auto [id] = *at(view, i);
    ensure(id == vertex_id(g, vertex_at(g, i)), "element i is the id of vertex i");
    auto [id2, val] = *at(vieu, i);
    ensure(id2 == vertex_id(g, vertex_at(g, i)) && val == f(g, vertex_at(g, i)), "id and value of vertex i");
  }
}
/// sub-ranges [a, b) of the vertices
template <class G> void C22_vertexlist_range(G& g, size_t a, size_t b, size_t i, long c) {
  using namespace graph;
  size_t n = count(g);
  require(a <= b && b <= n);
  require_ids(g);
  VFn<G> f{c};
  if constexpr (adj_list::index_adjacency_list<G>) {
    auto first = vertex_at(g, a);
    auto last  = vertex_at(g, b);
    auto view  = views::vertexlist(g, first, last);
    auto vief  = views::vertexlist(g, first, last, f);
    auto vieb  = views::basic_vertexlist(g, vertex_id_t<G>(a), vertex_id_t<G>(b));
    auto viec  = views::basic_vertexlist(g, vertex_id_t<G>(a), vertex_id_t<G>(b), f);
    auto all   = views::vertexlist(g);
    auto allb  = views::basic_vertexlist(g);
    auto allf  = views::vertexlist(g, f);
    auto allc  = views::basic_vertexlist(g, f);
    ensure(view.begin() == at(all, a) && view.end() == at(all, b) && view.size() == b - a, "a vertex sub-range is positions a to b of the whole");
    ensure(vief.begin() == at(allf, a) && vief.end() == at(allf, b) && vief.size() == b - a, "a vertex sub-range with a value function is positions a to b of the whole");
    ensure(vieb.begin() == at(allb, a) && vieb.end() == at(allb, b) && vieb.size() == b - a, "a basic vertex sub-range is positions a to b of the whole");
    ensure(viec.begin() == at(allc, a) && viec.end() == at(allc, b) && viec.size() == b - a, "a basic vertex sub-range with a value function is positions a to b of the whole");
    if (i < b - a) {
      auto u = vertex_at(g, a + i);
      ensure((*at(vief, i)).vertex == u && (*at(vief, i)).id == vertex_id(g, u) && (*at(vief, i)).value == f(g, u), "element i is vertex a+i with its value");
      ensure((*at(viec, i)).id == vertex_id(g, u) && (*at(viec, i)).value == f(g, u), "element i is the id and value of vertex a+i");
    }
  }
  auto vr   = vertices(g);
  auto vief = views::vertexlist(g, vr, f);
  auto viec = views::basic_vertexlist(g, vr, f);
  auto allf = views::vertexlist(g, f);
  auto allc = views::basic_vertexlist(g, f);
  ensure(same(views::vertexlist(g, vr), views::vertexlist(g)), "the view of all vertices as a range is the whole view");
  ensure(same(views::basic_vertexlist(g, vr), views::basic_vertexlist(g)), "the basic view of all vertices as a range is the whole view");
  ensure(vief.begin() == allf.begin() && vief.end() == allf.end() && vief.size() == n, "the value view of all vertices as a range is the whole view");
  ensure(viec.begin() == allc.begin() && viec.end() == allc.end() && viec.size() == n, "the basic value view of all vertices as a range is the whole view");
  if (i < n) {
    ensure((*at(vief, i)).value == f(g, vertex_at(g, i)), "element i of a vertex range with its value");
    ensure((*at(viec, i)).value == f(g, vertex_at(g, i)), "id and value of element i of a vertex range");
  }
}
template <class G> void C22_incidence(G& g, size_t u, size_t i, size_t j, long c) {
  using namespace graph;
  require(u < count(g));
  require_ids(g);
  size_t m = degree_of(g, u);
  EFn<G> f{c};
  auto   ud   = vertex_at(g, u);
  auto   view = views::incidence(g, ud);
  auto   vief = views::incidence(g, ud, f);
  ensure(same(views::out_incidence(g, ud), view) && same(views::out_incidence(g, ud, f), vief), "out_incidence is incidence");
  iteration(view, m, i, j);
  iteration(vief, m, i, j);
  if (i < m) {
    auto e = edge_at(g, u, i);
    auto [tid, uv] = *at(view, i);
    ensure(tid == target_id(g, e) && uv == e, "element i is out-edge i with its target");
    auto [tid2, uv2, val] = *at(vief, i);
    ensure(tid2 == target_id(g, e) && uv2 == e && val == f(g, e), "element i is out-edge i with its target and value");
  }
}
template <class G> void C22_incidence_id(G& g, size_t u, size_t i, size_t j, long c) {
  using namespace graph;
  require(u < count(g));
  require_ids(g);
  size_t m = degree_of(g, u);
  EFn<G> f{c};
  auto   uid  = vertex_id(g, vertex_at(g, u));
  auto   vieb = views::basic_incidence(g, uid);
  auto   viec = views::basic_incidence(g, uid, f);
  ensure(same(views::basic_out_incidence(g, uid), vieb) && same(views::basic_out_incidence(g, uid, f), viec), "basic_out_incidence is basic_incidence");
  iteration(vieb, m, i, j);
  iteration(viec, m, i, j);
  if (i < m) {
    auto e = edge_at(g, u, i);
    ensure((*at(vieb, i)).target_id == target_id(g, e), "element i is the target of out-edge i");
    ensure((*at(viec, i)).target_id == target_id(g, e) && (*at(viec, i)).value == f(g, e), "element i is the target and value of out-edge i");
  }
  if constexpr (adj_list::index_adjacency_list<G>) {
    auto ud = vertex_at(g, u);
    ensure(same(views::incidence(g, uid), views::incidence(g, ud)) && same(views::out_incidence(g, uid), views::incidence(g, ud)), "by id is by descriptor");
    ensure(same(views::incidence(g, uid, f), views::incidence(g, ud, f)) && same(views::out_incidence(g, uid, f), views::incidence(g, ud, f)), "by id is by descriptor, with a value");
  }
}
/// the target of every edge is a vertex (a graph without dangling edges)
template <class G> void require_target(G& g, size_t u, size_t k) {
  auto t = size_t(graph::target_id(g, edge_at(g, u, k)));
  if constexpr (std::random_access_iterator<decltype(g.begin())>) require(t < count(g));
  else if constexpr (requires { g.find(graph::vertex_id_t<G>(t)); }) require(g.find(graph::vertex_id_t<G>(t)) != g.end());
  else require(is_vertex(g, graph::vertex_id_t<G>(t)));
}
template <class G> void C22_neighbors(G& g, size_t u, size_t i, size_t j, long c) {
  using namespace graph;
  require(u < count(g));
  require_ids(g);
  size_t m = degree_of(g, u);
  VFn<G> f{c};
  auto   ud   = vertex_at(g, u);
  auto   view = views::neighbors(g, ud);
  auto   vief = views::neighbors(g, ud, f);
  ensure(same(views::out_neighbors(g, ud), view) && same(views::out_neighbors(g, ud, f), vief), "out_neighbors is neighbors");
  iteration(view, m, i, j);
  iteration(vief, m, i, j);
  if (i < m) {
    require_target(g, u, i);
    auto e = edge_at(g, u, i);
    auto w = target(g, e);
    auto [tid, v] = *at(view, i);
    ensure(tid == target_id(g, e) && v == w, "element i is the target of out-edge i");
    auto [tid2, v2, val] = *at(vief, i);
    ensure(tid2 == target_id(g, e) && v2 == w && val == f(g, w), "element i is the target of out-edge i with its value");
  }
}
template <class G> void C22_neighbors_id(G& g, size_t u, size_t i, size_t j, long c) {
  using namespace graph;
  require(u < count(g));
  require_ids(g);
  size_t m = degree_of(g, u);
  VFn<G> f{c};
  auto   uid  = vertex_id(g, vertex_at(g, u));
  auto   vieb = views::basic_neighbors(g, uid);
  auto   viec = views::basic_neighbors(g, uid, f);
  ensure(same(views::basic_out_neighbors(g, uid), vieb) && same(views::basic_out_neighbors(g, uid, f), viec), "basic_out_neighbors is basic_neighbors");
  iteration(vieb, m, i, j);
  iteration(viec, m, i, j);
  if (i < m) {
    require_target(g, u, i);
    auto e = edge_at(g, u, i);
    auto w = target(g, e);
    ensure((*at(vieb, i)).target_id == target_id(g, e), "element i is the target of out-edge i");
    ensure((*at(viec, i)).target_id == target_id(g, e) && (*at(viec, i)).value == f(g, w), "element i is the target and value of out-edge i");
  }
  if constexpr (adj_list::index_adjacency_list<G>) {
    auto ud = vertex_at(g, u);
    ensure(same(views::neighbors(g, uid), views::neighbors(g, ud)) && same(views::out_neighbors(g, uid), views::neighbors(g, ud)), "by id is by descriptor");
    ensure(same(views::neighbors(g, uid, f), views::neighbors(g, ud, f)) && same(views::out_neighbors(g, uid, f), views::neighbors(g, ud, f)), "by id is by descriptor, with a value");
  }
}
// ------------------------------------------------------------------ edge lists
template <class E> struct LFn {
  long c;
  template <class EL> long operator()(EL& el, const E& e) const { return opaque(size_t(graph::target_id(el, e)), size_t(graph::source_id(el, e)) + size_t(c)); }
};
template <class EL> void C22_edge_list(EL& el, size_t i, size_t j, long c) {
  using namespace graph;
  size_t n = el.size();
  LFn<std::ranges::range_value_t<EL>> f{c};
  auto view = views::edgelist(el);
  auto vief = views::edgelist(el, f);
  iteration(view, n, i, j);
  iteration(vief, n, i, j);
  if (i < n) {
    auto& e = el[i];
    auto  x = *at(view, i);
    auto  y = *at(vief, i);
    ensure(x.source_id == source_id(el, e) && x.target_id == target_id(el, e) && x.edge == e, "element i is edge i with its ends");
    ensure(y.source_id == source_id(el, e) && y.target_id == target_id(el, e) && y.edge == e && y.value == f(el, e), "element i is edge i with its ends and value");
  }
}
template <class G> void graph_lemmas() {
  (void)&C22_vertexlist<G>;
  (void)&C22_vertexlist_fn<G>;
  (void)&C22_basic_vertexlist<G>;
  (void)&C22_vertexlist_range<G>;
  (void)&C22_incidence<G>;
  (void)&C22_incidence_id<G>;
  (void)&C22_neighbors<G>;
  (void)&C22_neighbors_id<G>;
}
} // namespace vcd
