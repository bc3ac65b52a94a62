// C22: the edgelist views: edge (i,k) is followed by (i,k+1) or by the first edge of the next vertex that has edges
#include "dyng.hpp"
#include <graph/views/edgelist.hpp>
namespace vcd {
template <class G> auto vertex_at(G& g, size_t i) { return *std::next(graph::vertices(g).begin(), static_cast<std::ptrdiff_t>(i)); }
template <class G> auto edge_at(G& g, size_t i, size_t k) {
  return *std::next(graph::edges(g, vertex_at(g, i)).begin(), static_cast<std::ptrdiff_t>(k));
}
template <class G> struct EFn { // edge value function
  long c;
  template <class E> long operator()(const G& g, const E& uv) const { return opaque(size_t(graph::target_id(g, uv)), size_t(graph::source_id(g, uv)) + size_t(c)); }
};
/// j is the first vertex from `from` on that has edges, or n
template <class G> void first_with_edges(G& g, size_t from, size_t j) {
  size_t n = count(g);
  require(from <= j && j <= n);
  require(forall(from, j, [&](size_t x) { return count(out_edges_of(g, x)) == 0; }));
  if (j < n) require(count(out_edges_of(g, j)) > 0);
  scan(from, j);
}
template <class View, class G, class... F> auto at(View&, G& g, size_t i, size_t k, F*... f) {
  return typename View::iterator(&g, vertex_at(g, i), vertex_at(g, count(g)), edge_at(g, i, k), edge_at(g, i, count(out_edges_of(g, i))), f...);
}
template <class G, class View, class... F> void begin_end(G& g, View& view, size_t j) {
  size_t n = count(g);
  first_with_edges(g, 0, j);
  auto it = view.begin();
  ensure((it == view.end()) == (j == n), "the view is empty exactly when there is no edge");
  if constexpr (requires { view.size(); }) ensure(size_t(view.size()) == size_t(graph::num_edges(g)), "size() is the number of edges of the graph");
  else ensure(view.empty() == (j == n), "empty() says whether there is an edge");
}
template <class G, class View, class... F> void steps(G& g, View& view, size_t i, size_t k, size_t j, F*... f) {
  size_t n = count(g);
  require(i < n);
  auto&  row = out_edges_of(g, i);
  size_t m   = count(row);
  require(k < m);
  first_with_edges(g, i + 1, j);
  auto it = at(view, g, i, k, f...);
  ensure(!(it == view.end()), "an edge is not the end");
  auto  a = it;
  auto& b = ++a;
  ensure(&b == &a, "++it returns the iterator");
  if (k + 1 < m) {
    ensure(same(a, at(view, g, i, k + 1, f...)), "++it is the next edge of the same vertex");
  } else if (j == n) {
    ensure(a == view.end(), "++it after the last edge is the end");
  } else {
    ensure(same(a, at(view, g, j, 0, f...)), "++it after the last edge of a vertex is the first edge of the next vertex with edges");
  }
  auto c = it;
  auto d = c++;
  ensure(same(d, it), "it++ returns the old position");
  if (k + 1 == m && j == n) ensure(c == view.end(), "it++ moves to the end");
  else ensure(same(c, a), "it++ moves on like ++it");
}
template <class G, class View, class... F> void identity(G& g, View& view, size_t i, size_t k, size_t j, size_t l, F*... f) {
  size_t n = count(g);
  require(i < n && j < n && k < count(out_edges_of(g, i)) && l < count(out_edges_of(g, j)));
  ensure((at(view, g, i, k, f...) == at(view, g, j, l, f...)) == (i == j && k == l), "iterator equality is edge identity");
}
/// begin() and what it refers to
template <class G, class View, class... F> void first(G& g, View& view, size_t j, F*... f) {
  begin_end(g, view, j);
  if (j < count(g)) {
    if constexpr (sizeof...(F) == 0) ensure(same(view.begin(), at(view, g, j, 0)), "begin is the first edge of the first vertex with edges");
    else ensure(view.begin() == at(view, g, j, 0, f...), "begin is the first edge of the first vertex with edges");
    auto e = edge_at(g, j, 0);
    auto x = *view.begin();
    ensure(x.source_id == graph::vertex_id(g, vertex_at(g, j)) && x.target_id == graph::target_id(g, e), "the first element carries its ids");
    if constexpr (requires { x.edge; }) ensure(x.edge == e, "the first element carries its edge");
    if constexpr (sizeof...(F) != 0) ensure(((x.value == (*f)(g, e)) && ...), "the first element carries its value");
  }
}
template <class G> void C22_edgelist_begin(G& g, size_t j) {
  auto a = graph::views::edgelist(g);
  first(g, a, j);
}
template <class G> void C22_edgelist_fn_begin(G& g, size_t j, long c) {
  EFn<G> f{c};
  auto a = graph::views::edgelist(g, f);
  first(g, a, j, &f);
}
template <class G> void C22_basic_edgelist_begin(G& g, size_t j) {
  auto a = graph::views::basic_edgelist(g);
  first(g, a, j);
}
template <class G> void C22_basic_edgelist_fn_begin(G& g, size_t j, long c) {
  EFn<G> f{c};
  auto a = graph::views::basic_edgelist(g, f);
  first(g, a, j, &f);
}
template <class G> void C22_edgelist_step(G& g, size_t i, size_t k, size_t j) {
  using namespace graph;
  auto a = views::edgelist(g);
  steps(g, a, i, k, j);
  auto e = edge_at(g, i, k);
  auto x = *at(a, g, i, k);
  ensure(x.source_id == vertex_id(g, vertex_at(g, i)) && x.target_id == target_id(g, e) && x.edge == e, "the element carries its edge and its ends");
}
template <class G> void C22_edgelist_fn_step(G& g, size_t i, size_t k, size_t j, long c) {
  using namespace graph;
  EFn<G> f{c};
  auto a = views::edgelist(g, f);
  steps(g, a, i, k, j, &f);
  auto e = edge_at(g, i, k);
  auto x = *at(a, g, i, k, &f);
  ensure(x.source_id == vertex_id(g, vertex_at(g, i)) && x.target_id == target_id(g, e) && x.edge == e && x.value == f(g, e), "the element carries its edge, its ends and the value of the function");
}
template <class G> void C22_basic_edgelist_step(G& g, size_t i, size_t k, size_t j) {
  using namespace graph;
  auto a = views::basic_edgelist(g);
  steps(g, a, i, k, j);
  auto x = *at(a, g, i, k);
  ensure(x.source_id == vertex_id(g, vertex_at(g, i)) && x.target_id == target_id(g, edge_at(g, i, k)), "the element carries its ends");
}
template <class G> void C22_basic_edgelist_fn_step(G& g, size_t i, size_t k, size_t j, long c) {
  using namespace graph;
  EFn<G> f{c};
  auto a = views::basic_edgelist(g, f);
  steps(g, a, i, k, j, &f);
  auto e = edge_at(g, i, k);
  auto x = *at(a, g, i, k, &f);
  ensure(x.source_id == vertex_id(g, vertex_at(g, i)) && x.target_id == target_id(g, e) && x.value == f(g, e), "the element carries its ends and the value of the function");
}
template <class G> void C22_edgelist_identity(G& g, size_t i, size_t k, size_t j, size_t l) {
  auto a = graph::views::edgelist(g);
  identity(g, a, i, k, j, l);
}
template <class G> void C22_edgelist_fn_identity(G& g, size_t i, size_t k, size_t j, size_t l, long c) {
  EFn<G> f{c};
  auto a = graph::views::edgelist(g, f);
  identity(g, a, i, k, j, l, &f);
}
template <class G> void C22_basic_edgelist_identity(G& g, size_t i, size_t k, size_t j, size_t l) {
  auto a = graph::views::basic_edgelist(g);
  identity(g, a, i, k, j, l);
}
template <class G> void C22_basic_edgelist_fn_identity(G& g, size_t i, size_t k, size_t j, size_t l, long c) {
  EFn<G> f{c};
  auto a = graph::views::basic_edgelist(g, f);
  identity(g, a, i, k, j, l, &f);
}
template <class G> void graph_lemmas() {
  (void)&C22_edgelist_begin<G>;
  (void)&C22_edgelist_step<G>;
  (void)&C22_edgelist_identity<G>;
  (void)&C22_edgelist_fn_begin<G>;
  (void)&C22_edgelist_fn_step<G>;
  (void)&C22_edgelist_fn_identity<G>;
  (void)&C22_basic_edgelist_begin<G>;
  (void)&C22_basic_edgelist_step<G>;
  (void)&C22_basic_edgelist_identity<G>;
  (void)&C22_basic_edgelist_fn_begin<G>;
  (void)&C22_basic_edgelist_fn_step<G>;
  (void)&C22_basic_edgelist_fn_identity<G>;
}
void vc_root() {
  graph_lemmas<std::vector<std::vector<size_t>>>();
  graph_lemmas<const std::vector<std::vector<std::pair<size_t, double>>>>();
  graph_lemmas<std::vector<std::list<std::tuple<int, double, int>>>>();
  graph_lemmas<std::map<uint32_t, std::vector<std::pair<uint32_t, double>>>>();
  graph_lemmas<dir<vec, vec>::graph_type<double, void, void>>();
  graph_lemmas<dir<mp, fwl>::graph_type<void, void, void>>();
}
} // namespace vcd
