// SHARDS 3
// C20: bidirectional graphs keep in-edges the exact mirror of out-edges.
#include "gcheck.hpp"
#include <graph/container/dynamic_graph.hpp>
#include <list>
#include <map>
#include <set>
using namespace rac;
namespace gc = graph::container;
template <class T> using Vec = std::vector<T>;
template <class T> using Lst = std::list<T>;
template <class T> using Set = std::set<T>;
template <class V> using VVec = std::vector<V>;
template <class V> using VMap = std::map<uint32_t, V>;
template <class EV, class VV, template <class> class EC, template <class> class VC>
struct bi_traits {
  using edge_value_type = EV; using vertex_value_type = VV; using graph_value_type = void; using vertex_id_type = uint32_t;
  static constexpr bool bidirectional = true;
  using edge_type     = gc::dynamic_out_edge<EV, VV, void, uint32_t, true, bi_traits>;
  using in_edge_type  = gc::dynamic_in_edge<EV, VV, void, uint32_t, true, bi_traits>;
  using vertex_type   = gc::dynamic_vertex<EV, VV, void, uint32_t, true, bi_traits>;
  using graph_type    = gc::dynamic_graph<EV, VV, void, uint32_t, true, bi_traits>;
  using edges_type    = EC<edge_type>;
  using in_edges_type = EC<in_edge_type>;
  using vertices_type = VC<vertex_type>;
};
struct In { size_t s; double v; bool operator==(const In&) const = default; };

template <bool EVs, bool VMAP, class G>
void check_in(G&& g, const Model& m, const std::map<size_t, std::vector<In>>& in, const std::string& what) {
  using namespace graph;
  auto   at  = [&](const std::string& s) { return what + ": " + s; };
  size_t sum = 0;
  using VId  = vertex_id_t<std::remove_cvref_t<G>>;
  for (auto v : vertices(g)) {
    size_t id   = size_t(vertex_id(g, v));
    auto   want = in.contains(id) ? in.at(id) : std::vector<In>{};
    std::vector<In> have;
    for (auto e : in_edges(g, v)) {
      In x{size_t(source_id(g, e)), 0};
      if constexpr (EVs) x.v = double(edge_value(g, e));
      have.push_back(x);
      require(have.size() <= want.size(), at("too many in-edges of " + S(id)));
      require(size_t(vertex_id(g, source(g, e))) == x.s, at("source() and source_id() of an in-edge of " + S(id) + " differ"));
      require(size_t(target_id(g, e)) == id, at("an in-edge of " + S(id) + " reports target " + S(target_id(g, e))));
      require(size_t(vertex_id(g, target(g, e))) == id, at("target() of an in-edge of " + S(id)));
    }
    if (!EVs) for (auto& x : want) x.v = 0;
    std::string hs;
    for (auto& x : have) hs += " " + S(x.s) + ":" + std::to_string(int(x.v));
    require(have == want, at("(have" + hs + ") the in-edges of " + S(id) + " are not the loaded edges with that target"));
    require(size_t(in_degree(g, v)) == want.size(), at("in_degree of " + S(id)));
    require(size_t(in_degree(g, VId(id))) == want.size(), at("in_degree by id of " + S(id)));
    require(size_t(out_degree(g, v)) == m.adj.at(id).size(), at("out_degree of " + S(id)));
    size_t k = 0;
    for (auto e : in_edges(g, VId(id))) { require(k < want.size() && size_t(source_id(g, e)) == want[k].s, at("in_edges by id")); ++k; }
    k = 0;
    for (auto e : out_edges(g, v)) { require(size_t(target_id(g, e)) == m.adj.at(id)[k].t, at("out_edges")); ++k; }
    sum += want.size();
    for (size_t t : m.ids) {
      bool w = false;
      for (auto& x : want) w |= x.s == t;
      auto u = *find_vertex(g, VId(t));
      require(contains_in_edge(g, v, u) == w, at("contains_in_edge(" + S(id) + "," + S(t) + ")"));
      require(contains_in_edge(g, VId(id), VId(t)) == w, at("contains_in_edge by ids"));
      if (w) {
        require(size_t(source_id(g, find_in_edge(g, v, u))) == t, at("find_in_edge"));
        require(size_t(source_id(g, find_in_edge(g, VId(id), VId(t)))) == t, at("find_in_edge by ids"));
        require(size_t(target_id(g, find_out_edge(g, u, v))) == id, at("find_out_edge"));
      }
    }
  }
  require(sum == m.edges(), at("the in-degrees add up to " + S(sum)));
}
template <template <class> class EC, template <class> class VC>
void run(EL& el, Rng& r, bool uniq, const char* name) {
  constexpr bool VMAP = std::is_same_v<VC<int>, VMap<int>>;
  using G  = typename bi_traits<double, void, EC, VC>::graph_type;
  using GN = typename bi_traits<void, void, EC, VC>::graph_type;
  using GV = typename bi_traits<double, double, EC, VC>::graph_type;
  std::string nm = name;
  note(nm);
  std::vector<graph::copyable_edge_t<uint32_t, double>> a, b;
  std::vector<graph::copyable_edge_t<uint32_t, void>>   iv;
  size_t cut = r.below(el.e.size() + 1);
  for (size_t i = 0; i < el.e.size(); ++i) {
    (i < cut ? a : b).push_back({uint32_t(el.e[i].u), uint32_t(el.e[i].v), el.e[i].w});
    iv.push_back({uint32_t(el.e[i].u), uint32_t(el.e[i].v)});
  }
  Model m;
  std::map<size_t, std::vector<In>> in;
  size_t loaded = 0;
  auto touch = [&](size_t x) {
    if (VMAP) { m.vertex(x); std::sort(m.ids.begin(), m.ids.end()); }
    else for (size_t i = 0; i <= x; ++i) m.vertex(i);
  };
  auto add = [&](const auto& es) {
    for (auto& e : es) {
      touch(e.source_id); touch(e.target_id);
      ++loaded;
      auto& row = m.adj[e.source_id];
      auto& col = in[e.target_id];
      if (uniq && std::any_of(row.begin(), row.end(), [&](auto& x) { return x.t == e.target_id; })) continue;
      row.push_back({e.target_id, e.value});
      col.push_back({e.source_id, e.value});
      if (uniq) {
        std::sort(row.begin(), row.end(), [](auto& x, auto& y) { return x.t < y.t; });
        std::sort(col.begin(), col.end(), [](auto& x, auto& y) { return x.s < y.s; });
      }
    }
  };
  G g;
  g.load_edges(a, std::identity{});
  add(a);
  check_both(g, m, loaded, nm + " load");
  check_in<true, VMAP>(g, m, in, nm + " load");
  if (r.chance(50) || VMAP) g.load_edges(b, std::identity{});
  else {
    g.load_edges(b, std::identity{}, el.n); // size given: no inference pass
    if (el.n) touch(el.n - 1);
  }
  add(b);
  check_both(g, m, loaded, nm + " second load");
  check_in<true, VMAP>(g, m, in, nm + " second load");
  G h(g), k(std::move(g));
  check_in<true, VMAP>(h, m, in, nm + " copy");
  check_in<true, VMAP>(static_cast<const G&>(k), m, in, nm + " move");
  GN n;
  n.load_edges(iv, std::identity{}, VMAP ? 0 : m.ids.size());
  {
    check_in<false, VMAP>(n, m, in, nm + " no values");
  }
  GV v;
  std::vector<graph::copyable_vertex_t<uint32_t, double>> vv;
  for (size_t i = 0; i < el.n; ++i) vv.push_back({uint32_t(i), double(i + 1)});
  v.load_vertices(vv, std::identity{});
  v.load_edges(a, std::identity{});
  v.load_edges(b, std::identity{});
  for (size_t i = 0; i < el.n; ++i) { touch(i); m.vval[i] = double(i + 1); }
  m.vvalues = true;
  check_both<true, true>(v, m, loaded, nm + " vertex values");
  check_in<true, VMAP>(v, m, in, nm + " vertex values");
}
int main(int argc, char** argv) {
  auto a = start(argc, argv);
  Rng  r(a.seed);
  Opt  o;
  o.max_n = 10;
  o.byrow = false;
  o.big   = false;
  long i  = 0;
  drive(r, o, a.budget, [&](EL& el, Rng& r) {
#if SHARD == 0
    run<Vec, VVec>(el, r, false, "vectors");
#elif SHARD == 1
    if (i++ % 2) run<Lst, VVec>(el, r, false, "vector of lists");
    else run<Set, VVec>(el, r, true, "vector of sets");
#else
    if (i++ % 2) run<Lst, VMap>(el, r, false, "map of lists");
    else run<Vec, VMap>(el, r, false, "map of vectors");
#endif
  });
  return finish();
}
