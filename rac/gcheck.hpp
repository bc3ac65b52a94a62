// Compares a graph, through the library's access functions, with a model adjacency structure.
#pragma once
#include "rac.hpp"
#include <graph/graph.hpp>
namespace rac {
struct MEdge {
  size_t t;
  double v;
  bool   operator==(const MEdge&) const = default;
  auto   operator<=>(const MEdge&) const = default;
};
struct Model {
  std::vector<size_t>             ids; // expected vertex ids, in iteration order when `ordered_ids`
  std::map<size_t, std::vector<MEdge>> adj;
  std::map<size_t, double>        vval;
  bool ordered_ids = true, ordered = true, values = true, vvalues = false;
  void vertex(size_t id) {
    if (!adj.contains(id)) { ids.push_back(id); adj[id]; }
  }
  size_t edges() const {
    size_t k = 0;
    for (auto& [u, r] : adj) k += r.size();
    return k;
  }
};
inline std::string S(size_t x) { return std::to_string(x); }

/// counts: the library-wide number of edges expected from num_edges(g) (undirected containers count each edge once)
template <bool EVs = true, bool VVs = false, class G>
void check_graph(G&& g, const Model& m, size_t edge_count, const std::string& what) {
  using namespace graph;
  auto at = [&](const std::string& s) { return what + ": " + s; };
  require(size_t(num_vertices(g)) == m.ids.size(), at("num_vertices is " + S(num_vertices(g)) + " instead of " + S(m.ids.size())));
  require(size_t(num_edges(g)) == edge_count, at("num_edges is " + S(num_edges(g)) + " instead of " + S(edge_count)));
  require(has_edges(g) == (edge_count > 0), at("has_edges disagrees with the number of edges"));
  std::vector<size_t> got;
  auto vr = vertices(g);
  require(size_t(std::ranges::distance(vr)) == m.ids.size(), at("vertices(g) has " + S(std::ranges::distance(vr)) + " elements"));
  for (auto u : vr) {
    size_t id = size_t(vertex_id(g, u));
    got.push_back(id);
    require(m.adj.contains(id), at("vertex " + S(id) + " is not expected"));
    auto it = find_vertex(g, vertex_id(g, u));
    require(it != vr.end() && size_t(vertex_id(g, *it)) == id && *it == u, at("find_vertex of " + S(id) + " gives another vertex"));
    if constexpr (VVs)
      if (m.vvalues)
        require(double(vertex_value(g, u)) == m.vval.at(id), at("vertex value of " + S(id) + " is " + std::to_string(double(vertex_value(g, u)))));
    const auto&        want = m.adj.at(id);
    std::vector<MEdge> have;
    auto               er = edges(g, u);
    size_t             k  = 0;
    for (auto uv : er) {
      require(++k <= edge_count * 2 + 1, at("edges of " + S(id) + " do not end"));
      MEdge e{size_t(target_id(g, uv)), 0};
      if constexpr (EVs)
        if (m.values)
          e.v = double(edge_value(g, uv));
      require(size_t(source_id(g, uv)) == id, at("an edge of " + S(id) + " reports source " + S(source_id(g, uv))));
      require(size_t(vertex_id(g, target(g, uv))) == e.t, at("target() and target_id() of an edge of " + S(id) + " differ"));
      require(size_t(vertex_id(g, source(g, uv))) == id, at("source() of an edge of " + S(id) + " is another vertex"));
      have.push_back(e);
    }
    auto w = want;
    if (!m.values)
      for (auto& e : w) e.v = 0;
    if (!m.ordered) {
      std::sort(w.begin(), w.end());
      std::sort(have.begin(), have.end());
    }
    std::string hs;
    for (auto& e : have) hs += " " + S(e.t) + ":" + std::to_string(int(e.v));
    require(have == w, at("edges of " + S(id) + " are" + hs));
    require(size_t(degree(g, u)) == w.size(), at("degree of " + S(id) + " is " + S(degree(g, u))));
    require(size_t(degree(g, vertex_id(g, u))) == w.size(), at("degree by id of " + S(id) + " is " + S(degree(g, vertex_id(g, u)))));
    if constexpr (requires { num_edges(g, u); })
      require(size_t(num_edges(g, u)) == w.size(), at("num_edges(g,u) of " + S(id) + " is " + S(num_edges(g, u))));
    require(size_t(std::ranges::distance(edges(g, u))) == w.size(), at("edges(g,u) size of " + S(id)));
    for (size_t t : m.ids) {
      if (m.ids.size() > 20 && (t * 7 + id) % 29) continue;
      bool want_c = false;
      for (auto& e : w) want_c |= e.t == t;
      auto v = *find_vertex(g, static_cast<vertex_id_t<std::remove_cvref_t<G>>>(t));
      require(contains_edge(g, u, v) == want_c, at("contains_edge(" + S(id) + "," + S(t) + ")"));
      require(contains_edge(g, vertex_id(g, u), vertex_id(g, v)) == want_c, at("contains_edge by ids(" + S(id) + "," + S(t) + ")"));
      if (want_c) {
        require(size_t(target_id(g, find_vertex_edge(g, u, v))) == t, at("find_vertex_edge(" + S(id) + "," + S(t) + ")"));
        require(size_t(target_id(g, find_vertex_edge(g, vertex_id(g, u), vertex_id(g, v)))) == t, at("find_vertex_edge by ids"));
        require(size_t(target_id(g, find_vertex_edge(g, u, vertex_id(g, v)))) == t, at("find_vertex_edge by descriptor and id"));
      }
    }
  }
  auto ids = m.ids;
  if (!m.ordered_ids) {
    std::sort(ids.begin(), ids.end());
    std::sort(got.begin(), got.end());
  }
  require(got == ids, at("the vertex ids are not the expected ones"));
}
template <bool EVs = true, bool VVs = false, class G>
void check_both(G& g, const Model& m, size_t edge_count, const std::string& what) {
  check_graph<EVs, VVs>(g, m, edge_count, what);
  check_graph<EVs, VVs>(static_cast<const G&>(g), m, edge_count, what + " (const)");
}
} // namespace rac
