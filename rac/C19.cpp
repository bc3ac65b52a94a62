// SHARDS 5
// C19: dynamic_graph stores exactly the edges and values it was loaded with.
#include "gcheck.hpp"
#include <graph/container/dynamic_graph.hpp>
#include <graph/container/traits/vov_graph_traits.hpp>
#include <graph/container/traits/vol_graph_traits.hpp>
#include <graph/container/traits/vofl_graph_traits.hpp>
#include <graph/container/traits/vod_graph_traits.hpp>
#include <graph/container/traits/vos_graph_traits.hpp>
#include <graph/container/traits/vous_graph_traits.hpp>
#include <graph/container/traits/vom_graph_traits.hpp>
#include <graph/container/traits/voum_graph_traits.hpp>
#include <graph/container/traits/dov_graph_traits.hpp>
#include <graph/container/traits/dofl_graph_traits.hpp>
#include <graph/container/traits/mov_graph_traits.hpp>
#include <graph/container/traits/mol_graph_traits.hpp>
#include <graph/container/traits/mos_graph_traits.hpp>
#include <graph/container/traits/mom_graph_traits.hpp>
#include <graph/container/traits/uov_graph_traits.hpp>
#include <graph/container/traits/uol_graph_traits.hpp>
#include <graph/container/traits/uous_graph_traits.hpp>
using namespace rac;
namespace gc = graph::container;
enum EK { SEQ, FRONT, UNIQ_SORTED, UNIQ_HASH };
enum VK { IDX, MAP, HASH };

struct Builder {
  EK ek; VK vk;
  Model m;
  size_t loaded = 0;
  Builder(EK e, VK v) : ek(e), vk(v) {
    m.ordered_ids = v != HASH;
    m.ordered     = e != UNIQ_HASH;
  }
  void grow(size_t n) {
    if (vk == IDX)
      for (size_t i = 0; i < n; ++i) m.vertex(i);
  }
  void vertex(size_t id) {
    if (vk == IDX) grow(id + 1);
    else {
      m.vertex(id);
      if (vk == MAP) std::sort(m.ids.begin(), m.ids.end());
    }
  }
  void edge(size_t u, size_t v, double w) {
    vertex(u);
    vertex(v);
    auto& r = m.adj[u];
    ++loaded;
    if (ek == FRONT) r.insert(r.begin(), {v, w});
    else if (ek == SEQ) r.push_back({v, w});
    else {
      for (auto& e : r)
        if (e.t == v) return; // the first one stays
      r.push_back({v, w});
      if (ek == UNIQ_SORTED) std::sort(r.begin(), r.end(), [](auto& a, auto& b) { return a.t < b.t; });
    }
  }
  void value(size_t id, double x) {
    vertex(id);
    m.vval[id] = x;
  }
  void fill() {
    for (auto id : m.ids)
      if (!m.vval.contains(id)) m.vval[id] = 0;
  }
};
template <template <class, class, class, class, bool> class T>
void run(EL& el, Rng& r, EK ek, VK vk, const char* name) {
  using VId = uint32_t;
  using G   = gc::dynamic_graph<double, void, void, VId, false, T<double, void, void, VId, false>>;
  using GN  = gc::dynamic_graph<void, void, void, VId, false, T<void, void, void, VId, false>>;
  using GV  = gc::dynamic_graph<double, double, int, VId, false, T<double, double, int, VId, false>>;
  std::string nm = name;
  note(nm);
  size_t mul = vk == IDX ? 1 : 3, off = vk == IDX ? 0 : 5; // sparse ids in maps
  auto id = [&](size_t x) { return VId(x * mul + off); };
  std::vector<graph::copyable_edge_t<VId, double>> in;
  std::vector<graph::copyable_edge_t<VId, void>>   iv;
  for (auto& e : el.e) { in.push_back({id(e.u), id(e.v), e.w}); iv.push_back({id(e.u), id(e.v)}); }
  {
    Builder b(ek, vk);
    G       g;
    size_t  hint = r.chance(50) ? 0 : el.n + r.below(3);
    g.load_edges(in, std::identity{}, hint);
    if (hint) b.grow(hint);
    for (auto& e : in) b.edge(e.source_id, e.target_id, e.value);
    check_both(g, b.m, b.loaded, nm + " load_edges(hint " + S(hint) + ")");
    // a second load adds to what is there
    std::vector<graph::copyable_edge_t<VId, double>> more;
    for (size_t i = r.below(5); i > 0 && el.n; --i) more.push_back({id(r.below(el.n + 2)), id(r.below(el.n + 2)), double(100 + i)});
    note(nm + " second load of " + S(more.size()));
    g.load_edges(std::move(more), [](auto& e) { return e; }, 0, 3);
    G    h;
    for (auto& e : more) b.edge(e.source_id, e.target_id, e.value);
    check_both(g, b.m, b.loaded, nm + " second load_edges");
    h = g;
    G k(std::move(g));
    check_both(h, b.m, b.loaded, nm + " copy");
    check_both(k, b.m, b.loaded, nm + " move");
    if (!b.m.ids.empty()) {
      for (size_t q = 0; q < 3; ++q) {
        auto u = b.m.ids[r.below(b.m.ids.size())];
        require(k.contains_vertex(VId(u)), nm + ": contains_vertex");
        require(k.try_find_vertex(VId(u)) != k.end(), nm + ": try_find_vertex");
        require(size_t(std::ranges::distance(k.vertex_at(VId(u)).edges())) == b.m.adj[u].size(), nm + ": vertex_at");
      }
      VId none = VId(b.m.ids.size() * 3 + 1000);
      require(!k.contains_vertex(none) && k.try_find_vertex(none) == k.end(), nm + ": an absent vertex is found");
      require(graph::find_vertex(k, none) == graph::vertices(k).end(), nm + ": find_vertex of an absent vertex");
    }
    k.clear();
    check_both(k, Builder(ek, vk).m, 0, nm + " clear");
    check_both(h, b.m, b.loaded, nm + " copy after clear of the other");
  }
  {
    Builder b(ek, vk);
    b.m.values = false;
    GN g;
    g.load_edges(iv, std::identity{});
    for (auto& e : in) b.edge(e.source_id, e.target_id, e.value);
    check_both<false>(g, b.m, b.loaded, nm + " no values");
  }
  { // vertex values
    std::vector<graph::copyable_vertex_t<VId, double>> vv;
    for (size_t i = 0; i < el.n; ++i) vv.push_back({id(i), double(r.below(50) + 1)});
    for (size_t i = vv.size(); i > 1; --i) std::swap(vv[i - 1], vv[r.below(i)]);
    for (int way = 0; way < 3; ++way) {
      note(nm + " vertices, way " + S(way));
      Builder b(ek, vk);
      GV      g;
      auto    dov = [&] {
        if (r.chance(50)) g.load_vertices(vv, std::identity{});
        else { auto cp = vv; g.load_vertices(std::move(cp), [](auto& v) { return v; }); }
        for (auto& v : vv) b.value(v.id, v.value);
      };
      auto doe = [&] {
        g.load_edges(in, std::identity{});
        for (auto& e : in) b.edge(e.source_id, e.target_id, e.value);
      };
      if (way == 0) { dov(); doe(); }
      else if (way == 1) { doe(); dov(); }
      else {
        GV q(in, vv, std::identity{}, std::identity{}, std::vector<VId>{});
        g = q;
        for (auto& v : vv) b.value(v.id, v.value);
        for (auto& e : in) b.edge(e.source_id, e.target_id, e.value);
      }
      b.fill();
      b.m.vvalues = true;
      check_both<true, true>(g, b.m, b.loaded, nm + (way == 0 ? " vertices, edges" : way == 1 ? " edges, vertices" : " constructor"));
      g.graph_value() = 9;
      require(graph::graph_value(g) == 9, nm + ": graph value");
    }
  }
}
int main(int argc, char** argv) {
  auto a = start(argc, argv);
  Rng  r(a.seed);
  Opt  o;
  o.max_n = 10;
  o.byrow = false;
  o.big   = false;
  long i  = 0;
  drive(r, o, a.budget, [&](EL& el, Rng& r) {
#if SHARD == 0
    switch (i++ % 3) {
    case 0: run<gc::vov_graph_traits>(el, r, SEQ, IDX, "vov"); break;
    case 1: run<gc::vol_graph_traits>(el, r, SEQ, IDX, "vol"); break;
    case 2: run<gc::vofl_graph_traits>(el, r, FRONT, IDX, "vofl"); break;
    }
#endif
#if SHARD == 1
    switch (i++ % 3) {
    case 0: run<gc::vod_graph_traits>(el, r, SEQ, IDX, "vod"); break;
    case 1: run<gc::vos_graph_traits>(el, r, UNIQ_SORTED, IDX, "vos"); break;
    case 2: run<gc::vous_graph_traits>(el, r, UNIQ_HASH, IDX, "vous"); break;
    }
#endif
#if SHARD == 2
    switch (i++ % 3) {
    case 0: run<gc::vom_graph_traits>(el, r, UNIQ_SORTED, IDX, "vom"); break;
    case 1: run<gc::voum_graph_traits>(el, r, UNIQ_HASH, IDX, "voum"); break;
    case 2: run<gc::dov_graph_traits>(el, r, SEQ, IDX, "dov"); break;
    }
#endif
#if SHARD == 3
    switch (i++ % 3) {
    case 0: run<gc::dofl_graph_traits>(el, r, FRONT, IDX, "dofl"); break;
    case 1: run<gc::mov_graph_traits>(el, r, SEQ, MAP, "mov"); break;
    case 2: run<gc::mos_graph_traits>(el, r, UNIQ_SORTED, MAP, "mos"); break;
    }
#endif
#if SHARD == 4
    switch (i++ % 3) {
    case 0: run<gc::mom_graph_traits>(el, r, UNIQ_SORTED, MAP, "mom"); break;
    case 1: run<gc::uov_graph_traits>(el, r, SEQ, HASH, "uov"); break;
    case 2: run<gc::uous_graph_traits>(el, r, UNIQ_HASH, HASH, "uous"); break;
    }
#endif
  });
  return finish();
}
