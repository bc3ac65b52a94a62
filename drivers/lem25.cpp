// C25: descriptors, descriptor views and the adjacency-list access functions against the containers they are made from.
// The lemmas say that begin is element 0, ++ goes from i to i+1, end is element size, equality compares i, and every
// access function reads element i.
#include "lemg.hpp"
namespace vcd {
// ------------------------------------------------------------------ vertices
template <class G> void C25_vertices(G& g, size_t i, size_t j) {
  using namespace graph;
  size_t n = count(g);
  require(i <= n && j <= n);
  auto vs    = vertices(g);
  using It   = decltype(vs.begin());
  using Desc = typename It::value_type;
  ensure(size_t(num_vertices(g)) == n, "num_vertices is the number of stored vertices");
  ensure(vs.size() == n, "vertices(g).size()");
  ensure(vs.begin() == It(storage(g, 0)), "vertices(g) begins at the first vertex");
  ensure(vs.end() == It(storage(g, n)), "vertices(g) ends after the last vertex");
  ensure((It(storage(g, i)) == It(storage(g, j))) == (i == j), "iterator equality is position equality");
  if (i < n) {
    It it(storage(g, i));
    Desc u = *it;
    ensure(u.value() == storage(g, i), "dereferencing gives the descriptor of that vertex");
    ensure(vertex_id(g, u) == id_of(g, i), "vertex_id is the stored id");
    It  a(it);
    It& b = ++a;
    ensure(a == It(storage(g, i + 1)) && &b == &a, "++it is the next vertex");
    It c(it);
    It d = c++;
    ensure(c == It(storage(g, i + 1)) && d == it, "it++ moves to the next vertex and returns the old position");
    Desc  v(u);
    Desc& w = ++v;
    ensure(v.value() == storage(g, i + 1) && &w == &v, "++u is the next vertex");
    Desc x(u);
    Desc y = x++;
    ensure(x.value() == storage(g, i + 1) && y == u, "u++ is the next vertex and returns the old one");
    ensure(&u.underlying_value(g) == &element(g, i), "underlying_value is the stored vertex");
    ensure(&u.inner_value(g) == &out_edges_of(g, i), "inner_value is the stored vertex data");
    ensure(*find_vertex(g, vertex_id(g, u)) == u, "find_vertex finds the vertex back by its id");
    if (j < n) {
      Desc z = *It(storage(g, j));
      ensure((u == z) == (i == j), "descriptor equality is identity");
      ensure((u != z) == (i != j), "descriptor inequality");
      if constexpr (requires { u < z; })
        if constexpr (std::random_access_iterator<decltype(g.begin())>) {
          ensure((u < z) == (i < j), "descriptor order is iteration order");
          ensure((u > z) == (i > j), "descriptor order is iteration order (>)");
        }
    }
  }
}
// ------------------------------------------------------------------ edges
template <class G> void C25_edges(G& g, size_t i, size_t k, size_t l) {
  using namespace graph;
  require(i < count(g));
  auto&  row = out_edges_of(g, i);
  size_t m   = count(row);
  require(k <= m && l <= m);
  auto u   = *decltype(vertices(g).begin())(storage(g, i));
  auto es  = edges(g, u);
  using It = decltype(es.begin());
  using ED = typename It::value_type;
  ensure(es.size() == m, "edges(g,u).size() is the number of stored edges");
  ensure(size_t(degree(g, u)) == m, "degree(g,u) is the number of stored edges");
  ensure(es.begin() == It(storage(row, 0), u) && (*es.begin()).source() == u, "edges(g,u) begins at the first stored edge");
  ensure(es.end() == It(storage(row, m), u), "edges(g,u) ends after the last stored edge");
  ensure((It(storage(row, k), u) == It(storage(row, l), u)) == (k == l), "edge iterator equality is position equality");
  if (k < m) {
    It it(storage(row, k), u);
    ED uv = *it;
    ensure(uv.value() == storage(row, k) && uv.source() == u, "dereferencing gives the descriptor of that edge");
    It  a(it);
    It& b = ++a;
    ensure(a == It(storage(row, k + 1), u) && &b == &a, "++it is the next edge");
    ensure((*It(it)).source() == u, "the source stays with the iterator");
    It c(it);
    It d = c++;
    ensure(c == It(storage(row, k + 1), u) && d == it, "it++ moves to the next edge and returns the old position");
    ED  v(uv);
    ED& w = ++v;
    ensure(v.value() == storage(row, k + 1) && v.source() == u && &w == &v, "++uv is the next edge of the same vertex");
    ED x(uv);
    ED y = x++;
    ensure(x.value() == storage(row, k + 1) && x.source() == u && y == uv, "uv++ is the next edge and returns the old one");
    if (l < m) {
      ED z = *It(storage(row, l), u);
      ensure((uv == z) == (k == l), "edge descriptor equality is identity");
      if constexpr (std::random_access_iterator<decltype(row.begin())> && std::random_access_iterator<decltype(g.begin())>)
        ensure((uv < z) == (k < l), "edge descriptor order is iteration order within a vertex");
    }
  }
}
template <class G> void C25_edge_identity(G& g, size_t i, size_t j, size_t k, size_t l) {
  using namespace graph;
  require(i < count(g) && j < count(g) && k < count(out_edges_of(g, i)) && l < count(out_edges_of(g, j)));
  auto u  = *decltype(vertices(g).begin())(storage(g, i));
  auto v  = *decltype(vertices(g).begin())(storage(g, j));
  using E = decltype(*edges(g, u).begin());
  E a(storage(out_edges_of(g, i), k), u), b(storage(out_edges_of(g, j), l), v);
  ensure((a == b) == (i == j && k == l), "edge descriptors are equal exactly for the same edge");
}
template <class G> void C25_access(G& g, size_t i, size_t k) {
  using namespace graph;
  require(i < count(g));
  auto& row = out_edges_of(g, i);
  require(k < count(row));
  auto  u  = *decltype(vertices(g).begin())(storage(g, i));
  auto  uv = *decltype(edges(g, u).begin())(storage(row, k), u);
  auto& el = element(row, k);
  ensure(target_id(g, uv) == target_of(el), "target_id is the stored target");
  ensure(source_id(g, uv) == id_of(g, i), "source_id is the id of the vertex the edge is stored at");
  ensure(source(g, uv) == u, "source is the vertex the edge is stored at");
  ensure(&uv.underlying_value(u.underlying_value(g)) == &el, "underlying_value is the stored edge");
  using EL = std::remove_cvref_t<decltype(el)>;
  if constexpr (requires { el.first; }) {
    ensure(edge_value(g, uv) == el.second, "edge_value is the stored value");
  } else if constexpr (requires { std::tuple_size<EL>::value; }) {
    if constexpr (std::tuple_size_v<EL> == 2) ensure(edge_value(g, uv) == std::get<1>(el), "edge_value is the stored value");
    if constexpr (std::tuple_size_v<EL> == 1) ensure(edge_value(g, uv) == std::get<0>(el), "edge_value is the stored value");
    if constexpr (std::tuple_size_v<EL> == 3)
      ensure(std::get<0>(edge_value(g, uv)) == std::get<1>(el) && std::get<1>(edge_value(g, uv)) == std::get<2>(el), "edge_value holds the stored values");
  } else {
    ensure(edge_value(g, uv) == el, "edge_value is the stored value");
  }
}
template <class G> void C25_target(G& g, size_t i, size_t k) {
  using namespace graph;
  require(i < count(g));
  auto& row = out_edges_of(g, i);
  require(k < count(row));
  auto  u  = *decltype(vertices(g).begin())(storage(g, i));
  auto  uv = *decltype(edges(g, u).begin())(storage(row, k), u);
  auto& el = element(row, k);
  if constexpr (std::random_access_iterator<decltype(g.begin())>) {
    require(size_t(target_of(el)) < count(g));
    ensure(target(g, uv).value() == size_t(target_of(el)), "target is the vertex with the stored id");
  } else {
    auto p = g.find(target_of(el));
    require(p != g.end());
    ensure(target(g, uv).value() == p, "target is the vertex with the stored id");
  }
}
template <class G> void C25_by_id(G& g, size_t i) {
  using namespace graph;
  require(i < count(g));
  auto u = *decltype(vertices(g).begin())(storage(g, i));
  auto a = edges(g, u);
  auto b = edges(g, vertex_id(g, u));
  ensure(a.begin() == b.begin() && a.end() == b.end() && (*b.begin()).source() == u, "edges(g,uid) is edges(g,u)");
  ensure(degree(g, u) == degree(g, vertex_id(g, u)), "degree(g,uid) is degree(g,u)");
}
template <class G> void graph_lemmas() {
  (void)&C25_vertices<G>;
  (void)&C25_edges<G>;
  (void)&C25_edge_identity<G>;
  (void)&C25_access<G>;
  (void)&C25_target<G>;
  (void)&C25_by_id<G>;
}
template <class E> void rows() {
  graph_lemmas<std::vector<std::vector<E>>>();
  graph_lemmas<const std::vector<std::vector<E>>>();
  graph_lemmas<std::vector<std::deque<E>>>();
  graph_lemmas<std::vector<std::list<E>>>();
  graph_lemmas<std::vector<std::forward_list<E>>>();
  graph_lemmas<std::deque<std::vector<E>>>();
}
template <class E> void mrows() {
  graph_lemmas<std::map<uint32_t, std::vector<E>>>();
  graph_lemmas<std::map<int, std::list<E>>>();
}
void vc_root() {
  rows<size_t>();
  rows<int>();
  rows<std::pair<size_t, double>>();
  rows<std::pair<uint8_t, int>>();
  rows<std::tuple<size_t>>();
  rows<std::tuple<size_t, double>>();
  rows<std::tuple<int, double, int>>();
  mrows<uint32_t>();
  mrows<std::pair<int, double>>();
  mrows<std::tuple<size_t, double>>();
}
} // namespace vcd
