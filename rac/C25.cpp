// SHARDS 4
// C25: vertex and edge descriptors identify vertices and edges faithfully, in every storage the interface accepts.
#include "gcheck.hpp"
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
using namespace rac;
template <class T> double num(const T& x) {
  if constexpr (std::is_arithmetic_v<T>) return double(x);
  else return double(std::get<0>(x)) * 1000 + double(std::get<1>(x));
}
inline int sgn(auto o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }

/// every descriptor of g, its identity and its movement
template <bool EVs, class G>
void descriptors(G&& g, const Model& m, const std::string& what) {
  using namespace graph;
  auto at = [&](const std::string& s) { return what + ": " + s; };
  using GR = std::remove_reference_t<G>;
  using VI = decltype(*std::ranges::begin(vertices(g)));
  using VD = std::remove_cvref_t<VI>;
  std::vector<VD> vs;
  for (auto u : vertices(g)) vs.push_back(u);
  require(vs.size() == m.ids.size() && size_t(num_vertices(g)) == vs.size(), at("vertices(g) yields " + S(vs.size()) + " descriptors"));
  auto vr = vertices(g);
  require(vr.size() == vs.size(), at("size of vertices(g)"));
  std::hash<VD> hv;
  for (size_t i = 0; i < vs.size(); ++i) {
    require(size_t(vertex_id(g, vs[i])) == m.ids[i], at("vertex " + S(i) + " has id " + S(size_t(vertex_id(g, vs[i])))));
    require(*find_vertex(g, vertex_id(g, vs[i])) == vs[i], at("find_vertex(vertex_id(u)) is not u for " + S(m.ids[i])));
    if (i + 1 < vs.size()) {
      VD a = vs[i];
      VD b = ++a;
      require(a == vs[i + 1] && b == a, at("++u is not the next vertex after " + S(m.ids[i])));
      VD c = vs[i];
      VD d = c++;
      require(c == vs[i + 1] && d == vs[i], at("u++ at " + S(m.ids[i])));
    }
    auto it = std::ranges::next(vr.begin(), std::ptrdiff_t(i));
    require(*it == vs[i] && it != vr.end(), at("advancing the vertex iterator " + S(i) + " times"));
    auto jt = it++;
    require(*jt == vs[i] && jt != it && (i + 1 < vs.size() ? *it == vs[i + 1] : it == vr.end()), at("vertex iterator post-increment at " + S(i)));
    VD cp(vs[i]);
    require(cp == vs[i] && hv(cp) == hv(vs[i]), at("a copied vertex descriptor differs"));
    for (size_t j = 0; j < vs.size() && (vs.size() < 40 || j < 5); ++j) {
      require((vs[i] == vs[j]) == (i == j) && (vs[i] != vs[j]) == (i != j), at("equality of vertices " + S(m.ids[i]) + "," + S(m.ids[j])));
      if constexpr (requires { vs[i] <=> vs[j]; }) {
        auto o = vs[i] <=> vs[j];
        require((o == 0) == (i == j), at("ordering of vertices disagrees with equality"));
        if constexpr (std::is_integral_v<decltype(vs[i].value())>) require(sgn(o) == (i < j ? -1 : i > j), at("vertex order is not the iteration order"));
      }
    }
  }
  // the edges
  using ED = std::remove_cvref_t<decltype(*std::ranges::begin(edges(g, vs[0])))>;
  std::vector<std::pair<ED, std::pair<size_t, size_t>>> all;
  std::hash<ED> he;
  for (size_t i = 0; i < vs.size(); ++i) {
    auto            er   = edges(g, vs[i]);
    const auto&     want = m.adj.at(m.ids[i]);
    std::vector<ED> es;
    for (auto uv : er) {
      require(es.size() < want.size(), at("edges(g,u) yields too many descriptors at " + S(m.ids[i])));
      es.push_back(uv);
    }
    require(es.size() == want.size() && size_t(degree(g, vs[i])) == es.size(), at("vertex " + S(m.ids[i]) + " has " + S(es.size()) + " edge descriptors"));
    std::vector<MEdge> have;
    for (auto& e : es) {
      have.push_back({size_t(target_id(g, e)), 0});
      if constexpr (EVs) have.back().v = num(edge_value(g, e));
      require(size_t(source_id(g, e)) == m.ids[i] && source(g, e) == vs[i] && e.source() == vs[i], at("source of an edge of " + S(m.ids[i])));
      require(size_t(vertex_id(g, target(g, e))) == have.back().t && target(g, e) == *find_vertex(g, target_id(g, e)), at("target of an edge of " + S(m.ids[i])));
    }
    auto w = want;
    for (auto& x : w) if (!EVs) x.v = 0;
    if (!m.ordered) { std::sort(w.begin(), w.end()); std::sort(have.begin(), have.end()); }
    require(have == w, at("stored targets or values of the edges of " + S(m.ids[i])));
    auto it = er.begin();
    for (size_t k = 0; k < es.size(); ++k) {
      require(*it == es[k] && it != er.end(), at("edge iterator at " + S(k)));
      auto jt = it++;
      require(*jt == es[k] && jt != it && (k + 1 < es.size() ? *it == es[k + 1] : it == er.end()), at("edge iterator post-increment"));
      if (k + 1 < es.size()) {
        ED a = es[k];
        ED b = ++a;
        require(a == es[k + 1] && b == a && a.source() == vs[i], at("++uv is not the next edge"));
        ED c = es[k];
        ED d = c++;
        require(c == es[k + 1] && d == es[k], at("uv++"));
      }
      all.push_back({es[k], {i, k}});
    }
    require(std::ranges::size(er) == es.size(), at("size of edges(g,u)"));
    std::vector<std::pair<size_t, size_t>> by_id;
    size_t k = 0;
    for (auto uv : edges(g, vertex_id(g, vs[i]))) {
      require(k < es.size() && uv == es[k], at("edges(g,uid) differs from edges(g,u)"));
      ++k;
    }
    require(k == es.size(), at("edges(g,uid) is shorter than edges(g,u)"));
  }
  for (size_t a = 0; a < all.size() && a < 60; ++a)
    for (size_t b = 0; b < all.size() && b < 60; ++b) {
      require((all[a].first == all[b].first) == (a == b), at("equality of edge descriptors"));
      if (a == b) require(he(all[a].first) == he(ED(all[b].first)), at("hash of equal edge descriptors"));
      if constexpr (requires { all[a].first <=> all[b].first; })
        require(((all[a].first <=> all[b].first) == 0) == (a == b), at("ordering of edge descriptors disagrees with equality"));
    }
}
/// C: container of edge elements; MK: (t,w) -> element
template <class EC, class MK>
void fill(EC& c, const std::vector<MEdge>& row, MK mk) {
  if constexpr (requires { c.push_back(mk(row[0])); }) for (auto& e : row) c.push_back(mk(e));
  else if constexpr (requires { c.push_front(mk(row[0])); }) for (size_t i = row.size(); i-- > 0;) c.push_front(mk(row[i]));
  else for (auto& e : row) c.insert(mk(e));
}
template <bool EVs, class EC, class MK>
void storages(const Model& m0, const char* name, MK mk, bool uniq, bool vec, bool dq, bool mp) {
  Model m = m0;
  if (uniq)
    for (auto& [u, row] : m.adj) {
      std::sort(row.begin(), row.end());
      row.erase(std::unique(row.begin(), row.end(), [](auto& a, auto& b) { return a.t == b.t; }), row.end());
    }
  auto run = [&](auto& g, const std::string& nm) {
    note(nm);
    if (m.ids.empty()) { require(graph::num_vertices(g) == 0 && graph::vertices(g).begin() == graph::vertices(g).end(), nm + ": empty graph has vertices"); return; }
    Model plain = m;
    plain.values = false;
    check_both<false>(g, plain, m.edges(), nm);
    descriptors<EVs>(g, m, nm);
    descriptors<EVs>(static_cast<const std::remove_reference_t<decltype(g)>&>(g), m, nm + " (const)");
  };
  std::string nm = name;
  if (vec) {
    std::vector<EC> g(m.ids.size());
    for (size_t i = 0; i < g.size(); ++i) fill(g[i], m.adj[i], mk);
    run(g, "vector of " + nm);
  }
  if (dq) {
    std::deque<EC> g(m.ids.size());
    for (size_t i = 0; i < g.size(); ++i) fill(g[i], m.adj[i], mk);
    run(g, "deque of " + nm);
  }
  if (mp) {
    std::map<uint32_t, EC> g;
    // sparse ids
    Model s;
    s.ordered = m.ordered;
    for (auto u : m.ids) {
      s.vertex(u * 3 + 2);
      for (auto e : m.adj[u]) s.adj[u * 3 + 2].push_back({e.t * 3 + 2, e.v});
      fill(g[uint32_t(u * 3 + 2)], s.adj[u * 3 + 2], mk);
    }
    std::swap(m, s);
    run(g, "map of " + nm);
    std::swap(m, s);
  }
}
int main(int argc, char** argv) {
  auto a = start(argc, argv);
  Rng  r(a.seed);
  Opt  o;
  o.max_n = 9;
  o.byrow = false;
  o.big   = false;
  drive(r, o, a.budget, [&](EL& el, Rng&) {
    Model m;
    for (size_t i = 0; i < el.n; ++i) m.vertex(i);
    for (auto& e : el.e) m.adj[e.u].push_back({e.v, e.w});
    auto id  = [](const MEdge& e) { return int(e.t); };
    auto pr  = [](const MEdge& e) { return std::pair<uint32_t, double>(uint32_t(e.t), e.v); };
    Model m3 = m;
    for (auto& [u, row] : m3.adj) for (auto& e : row) e.v = e.v * 1000 + double(e.t + 1);
    auto tp3 = [](const MEdge& e) { double w = double(long(e.v) / 1000); return std::tuple<uint32_t, double, size_t>(uint32_t(e.t), w, size_t(e.v - w * 1000)); };
    auto tp2 = [](const MEdge& e) { return std::tuple<uint32_t, double>(uint32_t(e.t), e.v); };
#if SHARD == 0
    storages<false, std::vector<int>>(m, "vector<int>", id, false, true, true, false);
    storages<true, std::vector<std::pair<uint32_t, double>>>(m, "vector<pair>", pr, false, true, false, true);
#elif SHARD == 1
    storages<true, std::vector<std::tuple<uint32_t, double>>>(m, "vector<tuple2>", tp2, false, true, false, false);
    storages<true, std::list<std::pair<uint32_t, double>>>(m, "list<pair>", pr, false, true, false, true);
#elif SHARD == 2
    storages<false, std::set<int>>(m, "set<int>", id, true, true, false, false);
    storages<true, std::map<uint32_t, double>>(m, "map", pr, true, true, false, true);
    storages<true, std::deque<std::pair<uint32_t, double>>>(m, "deque<pair>", pr, false, false, true, false);
#else
    storages<true, std::vector<std::tuple<uint32_t, double, size_t>>>(m3, "vector<tuple3>", tp3, false, true, false, false);
    storages<true, std::list<std::tuple<uint32_t, double, size_t>>>(m3, "list<tuple3>", tp3, false, false, true, false);
    storages<true, std::forward_list<std::pair<uint32_t, double>>>(m, "forward_list<pair>", pr, false, true, false, false);
#endif
    (void)id; (void)pr; (void)tp2; (void)tp3;
  });
  return finish();
}
