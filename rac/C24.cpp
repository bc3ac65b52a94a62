// C24: the transpose view is the exact reversal of the graph.
#include "bidir.hpp"
#include "gcheck.hpp"
using namespace rac;
struct Ref {
  size_t o; double v;
  bool operator==(const Ref&) const = default;
  auto operator<=>(const Ref&) const = default;
};
using Adj = std::vector<std::vector<Ref>>;
/// out[v], in[v]: what g must report (in list order)
template <class G>
void is(G&& g, const Adj& out, const Adj& in, const std::string& what) {
  using namespace graph;
  auto at = [&](const std::string& s) { return what + ": " + s; };
  size_t total = 0, k = 0;
  for (auto& r : out) total += r.size();
  require(size_t(num_vertices(g)) == out.size(), at("num_vertices"));
  require(size_t(num_edges(g)) == total, at("num_edges is " + S(num_edges(g))));
  for (auto v : vertices(g)) {
    size_t id = size_t(vertex_id(g, v));
    require(id == k++, at("vertex ids"));
    require(*find_vertex(g, vertex_id(g, v)) == v, at("find_vertex"));
    size_t i = 0;
    for (auto e : edges(g, v)) {
      require(i < out[id].size(), at("too many out-edges of " + S(id)));
      const Ref& w = out[id][i++];
      require(size_t(target_id(g, e)) == w.o, at("out-edge " + S(i - 1) + " of " + S(id) + " has target " + S(target_id(g, e)) + " instead of " + S(w.o)));
      require(size_t(source_id(g, e)) == id, at("out-edge of " + S(id) + " has source " + S(source_id(g, e))));
      require(double(edge_value(g, e)) == w.v, at("edge_value"));
      require(size_t(vertex_id(g, target(g, e))) == w.o, at("target() of an out-edge of " + S(id) + " is " + S(vertex_id(g, target(g, e)))));
      require(size_t(vertex_id(g, source(g, e))) == id, at("source() of an out-edge of " + S(id) + " is " + S(vertex_id(g, source(g, e)))));
    }
    require(i == out[id].size(), at("too few out-edges of " + S(id)));
    i = 0;
    for (auto e : in_edges(g, v)) {
      require(i < in[id].size(), at("too many in-edges of " + S(id)));
      const Ref& w = in[id][i++];
      require(size_t(source_id(g, e)) == w.o, at("in-edge of " + S(id) + " has source " + S(source_id(g, e))));
      require(size_t(target_id(g, e)) == id, at("in-edge of " + S(id) + " has target " + S(target_id(g, e))));
      require(double(edge_value(g, e)) == w.v, at("edge_value of an in-edge"));
      require(size_t(vertex_id(g, source(g, e))) == w.o, at("source() of an in-edge of " + S(id)));
      require(size_t(vertex_id(g, target(g, e))) == id, at("target() of an in-edge of " + S(id)));
    }
    require(i == in[id].size(), at("too few in-edges of " + S(id)));
    require(size_t(degree(g, v)) == out[id].size(), at("degree of " + S(id) + " is " + S(degree(g, v))));
    require(size_t(in_degree(g, v)) == in[id].size(), at("in_degree of " + S(id)));
    i = 0;
    for (auto e : edges(g, vertex_id(g, v))) require(i < out[id].size() && size_t(target_id(g, e)) == out[id][i++].o, at("edges by id of " + S(id)));
    require(i == out[id].size(), at("edges by id of " + S(id) + " are too few"));
    if constexpr (requires { num_edges(g, v); }) require(size_t(num_edges(g, v)) == out[id].size(), at("num_edges(g,u) of " + S(id) + " is " + S(num_edges(g, v)) + " instead of " + S(out[id].size())));
    for (size_t t = 0; t < out.size(); ++t) {
      bool w = false;
      for (auto& x : out[id]) w |= x.o == t;
      auto tv = *find_vertex(g, vertex_id_t<std::remove_cvref_t<G>>(t));
      require(contains_edge(g, v, tv) == w, at("contains_edge(" + S(id) + "," + S(t) + ")"));
      if (w) require(size_t(target_id(g, find_vertex_edge(g, v, tv))) == t, at("find_vertex_edge(" + S(id) + "," + S(t) + ")"));
    }
  }
  require(has_edges(g) == (total > 0), at("has_edges"));
}
/// views and algorithms see the reversal
template <class T>
void used(T& tv, const Adj& out, const std::string& what) {
  using namespace graph;
  for (auto v : vertices(tv)) {
    size_t id = size_t(vertex_id(tv, v)), i = 0;
    for (auto&& [tid, e] : views::incidence(tv, v)) require(i < out[id].size() && size_t(tid) == out[id][i++].o, what + ": incidence of " + S(id));
    require(i == out[id].size(), what + ": incidence of " + S(id) + " is too short");
    i = 0;
    for (auto&& [tid, n] : views::neighbors(tv, v)) {
      require(i < out[id].size() && size_t(tid) == out[id][i].o && size_t(vertex_id(tv, n)) == out[id][i].o, what + ": neighbors of " + S(id));
      ++i;
    }
    require(i == out[id].size(), what + ": neighbors of " + S(id) + " is too short");
  }
  std::vector<std::pair<size_t, size_t>> have, want;
  for (auto&& [s, t, e] : views::edgelist(tv)) have.push_back({size_t(s), size_t(t)});
  for (size_t u = 0; u < out.size(); ++u) for (auto& x : out[u]) want.push_back({u, x.o});
  require(have == want, what + ": edgelist");
}
int main(int argc, char** argv) {
  auto a = start(argc, argv);
  Rng  r(a.seed);
  Opt  o;
  o.max_n = 12;
  o.byrow = false;
  o.big   = false;
  drive(r, o, a.budget, [&](EL& el, Rng&) {
    std::vector<graph::copyable_edge_t<uint32_t, double>> iv;
    Adj out(el.n), in(el.n);
    for (auto& e : el.e) {
      iv.push_back({uint32_t(e.u), uint32_t(e.v), e.w});
      out[e.u].push_back({e.v, e.w});
      in[e.v].push_back({e.u, e.w});
    }
    BG g;
    if (el.n) g.resize_vertices(el.n);
    g.load_edges(iv, std::identity{}, el.n);
    is(g, out, in, "base graph");
    auto t = graph::views::transpose(g);
    is(t, in, out, "transpose");
    is(static_cast<const decltype(t)&>(t), in, out, "const transpose");
    used(t, in, "transpose");
    auto tt = graph::views::transpose(t);
    is(tt, out, in, "transpose of the transpose");
    require(&t.base() == &g && &tt.base() == &t, "base() is another graph");
    const BG& cg = g;
    auto ct = graph::views::transpose(cg);
    is(ct, in, out, "transpose of a const graph");
  });
  return finish();
}
