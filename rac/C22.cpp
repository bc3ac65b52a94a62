// SHARDS 7
// C22: vertex, edge, incidence and neighbour views enumerate exactly the graph.
#include "bidir.hpp"
#include <deque>
#include <graph/container/traits/vos_graph_traits.hpp>
#include <graph/container/undirected_adjacency_list.hpp>
#include <graph/edge_list/edge_list.hpp>
#include <map>
#include <set>
using namespace rac;
namespace gv = graph::views;
inline std::string S(size_t x) { return std::to_string(x); }
struct R { size_t t; double v; };
using Adj = std::vector<std::pair<size_t, std::vector<R>>>; // (vertex id, its edges) in order

/// v yields n elements, element k accepted by f(k, *it); size, empty and iterator movement agree
template <class V, class F>
void walk(V&& v, size_t n, F f, const std::string& what) {
  size_t k = 0;
  for (auto it = v.begin(); it != v.end();) {
    require(k < n, what + " yields more than " + S(n) + " elements");
    auto cp = it;
    f(k, *it);
    if (k % 2) {
      auto old = it++;
      require(old == cp, what + ": it++ does not return the old position");
    } else {
      auto& ref = ++it;
      require(&ref == &it, what + ": ++it does not return itself");
    }
    require(it != cp && !(it == cp), what + ": the iterator did not move at " + S(k));
    f(k, *cp);
    ++k;
  }
  require(k == n, what + " yields " + S(k) + " of " + S(n) + " elements");
  if constexpr (requires { v.size(); }) require(size_t(v.size()) == n, what + ": size() is " + S(size_t(v.size())) + " instead of " + S(n));
  if constexpr (requires { v.empty(); }) require(v.empty() == (n == 0), what + ": empty()");
  if constexpr (requires { v.front(); }) if (n) f(0, v.front());
  auto c = v; // a copy enumerates the same
  size_t j = 0;
  for (auto&& x : c) { f(j, x); if (++j > n) break; }
  require(j == n, what + ": a copy of the view yields " + S(j) + " elements");
}
template <bool VALS, class G>
void views_of(G& g, const Adj& a, const Adj* in, const std::string& nm) {
  using namespace graph;
  using Id = std::remove_cvref_t<vertex_id_t<G>>;
  auto at = [&](const std::string& s) { return nm + ": " + s; };
  note(nm);
  auto vvf = [](const auto& gg, auto v) { return size_t(vertex_id(gg, v)) * 3 + 1; };
  auto evf = [](const auto& gg, auto e) {
    if constexpr (VALS) return double(edge_value(gg, e)) * 2 + 1;
    else return double(target_id(gg, e)) * 2 + 1;
  };
  auto ev = [&](const R& r) { return (VALS ? r.v : double(r.t)) * 2 + 1; };
  size_t n = a.size(), total = 0;
  for (auto& [u, r] : a) total += r.size();
  std::vector<std::remove_cvref_t<decltype(*std::ranges::begin(vertices(g)))>> vs;
  for (auto u : vertices(g)) vs.push_back(u);
  require(vs.size() == n, at("vertices(g)"));
  // vertexlist
  auto v1 = [&](size_t off) { return [&, off](size_t k, auto&& x) { auto&& [id, u] = x; require(size_t(id) == a[k + off].first && u == vs[k + off], at("vertexlist element " + S(k))); }; };
  auto v2 = [&](size_t off) { return [&, off](size_t k, auto&& x) { auto&& [id, u, val] = x; require(size_t(id) == a[k + off].first && u == vs[k + off] && val == a[k + off].first * 3 + 1, at("vertexlist element with value " + S(k))); }; };
  auto b1 = [&](size_t off) { return [&, off](size_t k, auto&& x) { auto&& [id] = x; require(size_t(id) == a[k + off].first, at("basic_vertexlist element " + S(k))); }; };
  auto b2 = [&](size_t off) { return [&, off](size_t k, auto&& x) { auto&& [id, val] = x; require(size_t(id) == a[k + off].first && val == a[k + off].first * 3 + 1, at("basic_vertexlist element with value " + S(k))); }; };
  walk(gv::vertexlist(g), n, v1(0), at("vertexlist(g)"));
  walk(gv::vertexlist(g, vvf), n, v2(0), at("vertexlist(g,f)"));
  walk(gv::basic_vertexlist(g), n, b1(0), at("basic_vertexlist(g)"));
  walk(gv::basic_vertexlist(g, vvf), n, b2(0), at("basic_vertexlist(g,f)"));
  walk(gv::vertexlist(g, vertices(g)), n, v1(0), at("vertexlist(g,range)"));
  walk(gv::vertexlist(g, vertices(g), vvf), n, v2(0), at("vertexlist(g,range,f)"));
  walk(gv::basic_vertexlist(g, vertices(g)), n, b1(0), at("basic_vertexlist(g,range)"));
  walk(gv::basic_vertexlist(g, vertices(g), vvf), n, b2(0), at("basic_vertexlist(g,range,f)"));
  if constexpr (adj_list::index_adjacency_list<G>)
    for (size_t i = 0; i < n; i += 1 + n / 5)
      for (size_t j = i; j < n; j += 1 + n / 4) {
        walk(gv::vertexlist(g, vs[i], vs[j]), j - i, v1(i), at("vertexlist(g,first,last)"));
        walk(gv::vertexlist(g, vs[i], vs[j], vvf), j - i, v2(i), at("vertexlist(g,first,last,f)"));
        if constexpr (requires { gv::basic_vertexlist(g, Id(i), Id(j)); }) {
          walk(gv::basic_vertexlist(g, Id(i), Id(j)), j - i, b1(i), at("basic_vertexlist(g,first,last)"));
          walk(gv::basic_vertexlist(g, Id(i), Id(j), vvf), j - i, b2(i), at("basic_vertexlist(g,first,last,f)"));
        }
      }
  // incidence and neighbors
  for (size_t i = 0; i < n; ++i) {
    const auto& [uid, row] = a[i];
    auto u = vs[i];
    std::vector<edge_t<G>> es;
    for (auto e : edges(g, u)) es.push_back(e);
    size_t d = row.size();
    require(es.size() == d, at("edges(g,u)"));
    auto w = [&](const char* s) { return at(std::string(s) + " at vertex " + S(uid)); };
    auto i1 = [&](size_t k, auto&& x) { auto&& [t, e] = x; require(size_t(t) == row[k].t && e == es[k] && size_t(target_id(g, e)) == row[k].t, w("incidence element")); };
    auto i2 = [&](size_t k, auto&& x) { auto&& [t, e, val] = x; require(size_t(t) == row[k].t && e == es[k] && val == ev(row[k]), w("incidence element with value")); };
    auto j1 = [&](size_t k, auto&& x) { auto&& [t] = x; require(size_t(t) == row[k].t, w("basic_incidence element")); };
    auto j2 = [&](size_t k, auto&& x) { auto&& [t, val] = x; require(size_t(t) == row[k].t && val == ev(row[k]), w("basic_incidence element with value")); };
    auto n1 = [&](size_t k, auto&& x) { auto&& [t, v] = x; require(size_t(t) == row[k].t && size_t(vertex_id(g, v)) == row[k].t && v == *find_vertex(g, Id(row[k].t)), w("neighbors element")); };
    auto n2 = [&](size_t k, auto&& x) { auto&& [t, v, val] = x; require(size_t(t) == row[k].t && size_t(vertex_id(g, v)) == row[k].t && val == row[k].t * 3 + 1, w("neighbors element with value")); };
    auto m1 = [&](size_t k, auto&& x) { auto&& [t] = x; require(size_t(t) == row[k].t, w("basic_neighbors element")); };
    auto m2 = [&](size_t k, auto&& x) { auto&& [t, val] = x; require(size_t(t) == row[k].t && val == row[k].t * 3 + 1, w("basic_neighbors element with value")); };
    Id id = Id(uid);
    walk(gv::incidence(g, u), d, i1, w("incidence(g,u)"));
    walk(gv::incidence(g, u, evf), d, i2, w("incidence(g,u,f)"));
    walk(gv::out_incidence(g, u), d, i1, w("out_incidence(g,u)"));
    walk(gv::out_incidence(g, u, evf), d, i2, w("out_incidence(g,u,f)"));
    walk(gv::basic_incidence(g, id), d, j1, w("basic_incidence(g,uid)"));
    walk(gv::basic_incidence(g, id, evf), d, j2, w("basic_incidence(g,uid,f)"));
    walk(gv::basic_out_incidence(g, id), d, j1, w("basic_out_incidence(g,uid)"));
    walk(gv::basic_out_incidence(g, id, evf), d, j2, w("basic_out_incidence(g,uid,f)"));
    walk(gv::neighbors(g, u), d, n1, w("neighbors(g,u)"));
    walk(gv::neighbors(g, u, vvf), d, n2, w("neighbors(g,u,f)"));
    walk(gv::out_neighbors(g, u), d, n1, w("out_neighbors(g,u)"));
    walk(gv::out_neighbors(g, u, vvf), d, n2, w("out_neighbors(g,u,f)"));
    walk(gv::basic_neighbors(g, id), d, m1, w("basic_neighbors(g,uid)"));
    walk(gv::basic_neighbors(g, id, vvf), d, m2, w("basic_neighbors(g,uid,f)"));
    walk(gv::basic_out_neighbors(g, id), d, m1, w("basic_out_neighbors(g,uid)"));
    walk(gv::basic_out_neighbors(g, id, vvf), d, m2, w("basic_out_neighbors(g,uid,f)"));
    if constexpr (adj_list::index_adjacency_list<G>) {
      walk(gv::incidence(g, id), d, i1, w("incidence(g,uid)"));
      walk(gv::incidence(g, id, evf), d, i2, w("incidence(g,uid,f)"));
      walk(gv::out_incidence(g, id), d, i1, w("out_incidence(g,uid)"));
      walk(gv::neighbors(g, id), d, n1, w("neighbors(g,uid)"));
      walk(gv::neighbors(g, id, vvf), d, n2, w("neighbors(g,uid,f)"));
      walk(gv::out_neighbors(g, id), d, n1, w("out_neighbors(g,uid)"));
    }
    if constexpr (adj_list::bidirectional_adjacency_list<G>)
      if (in) {
        const auto& col = (*in)[i].second;
        size_t c = col.size();
        std::vector<in_edge_t<G>> ie;
        for (auto e : in_edges(g, u)) ie.push_back(e);
        require(ie.size() == c, w("in_edges(g,u)"));
        auto ievf = [](const auto& gg, auto e) { return double(source_id(gg, e)) * 5 + double(edge_value(gg, e)); };
        auto iv = [&](size_t k) { return double(col[k].t) * 5 + col[k].v; };
        auto x1 = [&](size_t k, auto&& x) { auto&& [t, e] = x; require(size_t(t) == col[k].t && e == ie[k], w("in_incidence element")); };
        auto x2 = [&](size_t k, auto&& x) { auto&& [t, e, val] = x; require(size_t(t) == col[k].t && e == ie[k] && val == iv(k), w("in_incidence element with value")); };
        auto y1 = [&](size_t k, auto&& x) { auto&& [t] = x; require(size_t(t) == col[k].t, w("basic_in_incidence element")); };
        auto y2 = [&](size_t k, auto&& x) { auto&& [t, val] = x; require(size_t(t) == col[k].t && val == iv(k), w("basic_in_incidence element with value")); };
        auto z1 = [&](size_t k, auto&& x) { auto&& [t, v] = x; require(size_t(t) == col[k].t && size_t(vertex_id(g, v)) == col[k].t, w("in_neighbors element")); };
        auto z2 = [&](size_t k, auto&& x) { auto&& [t, v, val] = x; require(size_t(t) == col[k].t && size_t(vertex_id(g, v)) == col[k].t && val == col[k].t * 3 + 1, w("in_neighbors element with value")); };
        auto z4 = [&](size_t k, auto&& x) { auto&& [t, val] = x; require(size_t(t) == col[k].t && val == col[k].t * 3 + 1, w("basic_in_neighbors element with value")); };
        walk(gv::in_incidence(g, u), c, x1, w("in_incidence(g,u)"));
        walk(gv::in_incidence(g, u, ievf), c, x2, w("in_incidence(g,u,f)"));
        walk(gv::in_neighbors(g, u), c, z1, w("in_neighbors(g,u)"));
        walk(gv::in_neighbors(g, u, vvf), c, z2, w("in_neighbors(g,u,f)"));
        if constexpr (adj_list::index_bidirectional_adjacency_list<G>) {
          walk(gv::in_incidence(g, id), c, x1, w("in_incidence(g,uid)"));
          walk(gv::basic_in_incidence(g, id), c, y1, w("basic_in_incidence(g,uid)"));
          walk(gv::basic_in_incidence(g, id, ievf), c, y2, w("basic_in_incidence(g,uid,f)"));
          walk(gv::in_neighbors(g, id), c, z1, w("in_neighbors(g,uid)"));
          walk(gv::basic_in_neighbors(g, id), c, y1, w("basic_in_neighbors(g,uid)"));
          walk(gv::basic_in_neighbors(g, id, vvf), c, z4, w("basic_in_neighbors(g,uid,f)"));
        }
      }
  }
  // edgelist
  std::vector<std::tuple<size_t, size_t, double>> all;
  std::vector<edge_t<G>> ae;
  for (size_t i = 0; i < n; ++i) {
    for (auto& r : a[i].second) all.push_back({a[i].first, r.t, ev(r)});
    for (auto e : edges(g, vs[i])) ae.push_back(e);
  }
  auto e1 = [&](size_t k, auto&& x) { auto&& [s, t, e] = x; require(size_t(s) == std::get<0>(all[k]) && size_t(t) == std::get<1>(all[k]) && e == ae[k], at("edgelist element " + S(k))); };
  auto e2 = [&](size_t k, auto&& x) { auto&& [s, t, e, val] = x; require(size_t(s) == std::get<0>(all[k]) && size_t(t) == std::get<1>(all[k]) && e == ae[k] && val == std::get<2>(all[k]), at("edgelist element with value " + S(k))); };
  auto f1 = [&](size_t k, auto&& x) { auto&& [s, t] = x; require(size_t(s) == std::get<0>(all[k]) && size_t(t) == std::get<1>(all[k]), at("basic_edgelist element " + S(k))); };
  auto f2 = [&](size_t k, auto&& x) { auto&& [s, t, val] = x; require(size_t(s) == std::get<0>(all[k]) && size_t(t) == std::get<1>(all[k]) && val == std::get<2>(all[k]), at("basic_edgelist element with value " + S(k))); };
  walk(gv::edgelist(g), all.size(), e1, at("edgelist(g)"));
  walk(gv::edgelist(g, evf), all.size(), e2, at("edgelist(g,f)"));
  walk(gv::basic_edgelist(g), all.size(), f1, at("basic_edgelist(g)"));
  walk(gv::basic_edgelist(g, evf), all.size(), f2, at("basic_edgelist(g,f)"));
#ifdef PIPES
  using namespace graph::views::adaptors;
  walk(g | vertexlist(), n, v1(0), at("g | vertexlist()"));
  walk(g | vertexlist(vvf), n, v2(0), at("g | vertexlist(f)"));
  walk(g | edgelist(), all.size(), e1, at("g | edgelist()"));
  walk(g | edgelist(evf), all.size(), e2, at("g | edgelist(f)"));
  walk(g | basic_edgelist(), all.size(), f1, at("g | basic_edgelist()"));
  for (size_t i = 0; i < n; ++i) {
    const auto& row = a[i].second;
    walk(g | incidence(Id(a[i].first)), row.size(), [&](size_t k, auto&& x) { auto&& [t, e] = x; require(size_t(t) == row[k].t, at("g | incidence")); }, at("g | incidence(u)"));
    walk(g | neighbors(Id(a[i].first)), row.size(), [&](size_t k, auto&& x) { auto&& [t, v] = x; require(size_t(t) == row[k].t, at("g | neighbors")); }, at("g | neighbors(u)"));
    walk(g | basic_incidence(Id(a[i].first), evf), row.size(), [&](size_t k, auto&& x) { auto&& [t, val] = x; require(size_t(t) == row[k].t && val == ev(row[k]), at("g | basic_incidence")); }, at("g | basic_incidence(u,f)"));
    walk(g | basic_neighbors(Id(a[i].first), vvf), row.size(), [&](size_t k, auto&& x) { auto&& [t, val] = x; require(size_t(t) == row[k].t && val == row[k].t * 3 + 1, at("g | basic_neighbors")); }, at("g | basic_neighbors(u,f)"));
  }
#endif
}
#if SHARD == 6
template <class L, bool V>
void native(L& el, const std::vector<R>& src, const std::vector<R>& rows, const std::string& nm) {
  note(nm);
  auto at = [&](const std::string& s) { return nm + ": " + s; };
  size_t n = rows.size();
  walk(gv::edgelist(el), n, [&](size_t k, auto&& x) { auto&& [s, t, e] = x; require(size_t(s) == src[k].t && size_t(t) == rows[k].t && size_t(graph::target_id(el, e)) == rows[k].t, at("element " + S(k))); }, at("edgelist(el)"));
  auto f = [](auto& l, auto&& e) { return double(graph::source_id(l, e)) * 7 + double(graph::target_id(l, e)); };
  walk(gv::edgelist(el, f), n, [&](size_t k, auto&& x) { auto&& [s, t, e, val] = x; require(size_t(s) == src[k].t && size_t(t) == rows[k].t && val == double(src[k].t) * 7 + double(rows[k].t), at("element with value " + S(k))); }, at("edgelist(el,f)"));
}
#endif
int main(int argc, char** argv) {
  auto a = start(argc, argv);
  Rng  r(a.seed);
  Opt  o;
  o.max_n = 9;
#if SHARD == 3
  o.byrow = true;
#else
  o.byrow = false;
#endif
  o.big = false;
  drive(r, o, a.budget, [&](EL& el, Rng& r) {
    Adj out(el.n), in(el.n);
    for (size_t i = 0; i < el.n; ++i) out[i].first = in[i].first = i;
    for (auto& e : el.e) { out[e.u].second.push_back({e.v, e.w}); in[e.v].second.push_back({e.u, e.w}); }
    auto iv = edge_input(el);
    (void)r;
#if SHARD == 0
    std::vector<std::vector<std::pair<uint32_t, double>>> g(el.n);
    for (auto& e : el.e) g[e.u].push_back({uint32_t(e.v), e.w});
    views_of<true>(g, out, nullptr, "vector of vectors");
    const auto& cg = g;
    views_of<true>(cg, out, nullptr, "const vector of vectors");
#elif SHARD == 1
    DG g = make_dynamic(el);
    views_of<true>(g, out, nullptr, "dynamic_graph");
    std::map<uint32_t, std::vector<std::pair<uint32_t, double>>> mg;
    Adj mo = out;
    for (auto& [u, row] : mo) {
      u = u * 2 + 3;
      auto& q = mg[uint32_t(u)];
      for (auto& x : row) { x.t = x.t * 2 + 3; q.push_back({uint32_t(x.t), x.v}); }
    }
    if (el.n) views_of<true>(mg, mo, nullptr, "map of vectors");
#elif SHARD == 2
    BG g;
    if (el.n) g.resize_vertices(el.n);
    g.load_edges(iv, std::identity{}, el.n);
    views_of<true>(g, out, &in, "bidirectional vectors");
    BL h;
    if (el.n) h.resize_vertices(el.n);
    h.load_edges(iv, std::identity{}, el.n);
    views_of<true>(h, out, &in, "bidirectional lists");
#elif SHARD == 3
    if (el.e.empty()) return;
    CG g = make_compressed(el);
    Adj c = out;
    c.resize(graph::num_vertices(g));
    views_of<true>(g, c, nullptr, "compressed_graph");
#elif SHARD == 4
    using UG = graph::container::undirected_adjacency_list<int, int>;
    UG g;
    for (size_t i = 0; i < el.n; ++i) g.create_vertex(int(i));
    Adj ua(el.n);
    for (size_t i = 0; i < el.n; ++i) ua[i].first = i;
    for (auto& e : el.e) {
      if (e.u == e.v) continue;
      g.create_edge(uint32_t(e.u), uint32_t(e.v), int(e.w));
      ua[e.u].second.push_back({e.v, e.w});
      ua[e.v].second.push_back({e.u, e.w});
    }
    views_of<true>(g, ua, nullptr, "undirected_adjacency_list");
#elif SHARD == 5
    std::deque<std::set<int>> g(el.n);
    Adj so = out;
    for (auto& e : el.e) g[e.u].insert(int(e.v));
    for (auto& [u, row] : so) {
      std::sort(row.begin(), row.end(), [](auto& x, auto& y) { return x.t < y.t; });
      row.erase(std::unique(row.begin(), row.end(), [](auto& x, auto& y) { return x.t == y.t; }), row.end());
    }
    views_of<false>(g, so, nullptr, "deque of sets");
    using DS = graph::container::dynamic_graph<void, void, void, uint32_t, false, graph::container::vos_graph_traits<void, void, void, uint32_t, false>>;
    DS ds;
    std::vector<graph::copyable_edge_t<uint32_t, void>> nv;
    for (auto& e : iv) nv.push_back({e.source_id, e.target_id});
    if (el.n) ds.resize_vertices(el.n);
    ds.load_edges(nv, std::identity{}, el.n);
    views_of<false>(ds, so, nullptr, "dynamic_graph with sets");
#else
    std::vector<R> src, rows;
    for (auto& e : el.e) { src.push_back({e.u, 0}); rows.push_back({e.v, e.w}); }
    std::vector<std::pair<int, int>> p;
    std::deque<std::tuple<uint32_t, uint32_t, double>> t;
    std::vector<graph::edge_data<uint32_t, true, void, double>> d;
    for (auto& e : el.e) { p.push_back({int(e.u), int(e.v)}); t.push_back({uint32_t(e.u), uint32_t(e.v), e.w}); d.push_back({uint32_t(e.u), uint32_t(e.v), e.w}); }
    native<decltype(p), false>(p, src, rows, "pairs");
    native<decltype(t), true>(t, src, rows, "tuples");
    native<decltype(d), true>(d, src, rows, "edge_data");
#endif
  });
  return finish();
}
