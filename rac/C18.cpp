// C18: compressed_graph stores exactly the edges and values it was loaded with.
#include "gcheck.hpp"
#include <graph/container/compressed_graph.hpp>
#include <list>
#include <iostream>
using namespace rac;
namespace gc = graph::container;
template <class VId>
using Ed = graph::copyable_edge_t<VId, double>;
template <class VId>
using Vd = graph::copyable_vertex_t<VId, double>;

template <class VId>
std::vector<Ed<VId>> ein(const EL& el) {
  std::vector<Ed<VId>> v;
  for (auto& e : el.e) v.push_back({VId(e.u), VId(e.v), e.w});
  return v;
}
Model model(const EL& el, size_t n) {
  Model m;
  for (size_t i = 0; i < n; ++i) m.vertex(i);
  for (auto& e : el.e) m.adj[e.u].push_back({e.v, e.w});
  return m;
}
size_t used(const EL& el) {
  size_t n = 0;
  for (auto& e : el.e) n = std::max({n, e.u + 1, e.v + 1});
  return n;
}
template <class G, class VId>
void extra(G& g, const Model& m, const EL& el, const std::string& what) {
  // ids, edge ranges, sizes and value access by id
  require(g.size() == m.ids.size(), what + ": size()");
  require(g.num_vertices() == m.ids.size(), what + ": num_vertices()");
  require(g.empty() == (m.ids.size() == 0), what + ": empty()");
  size_t i = 0;
  for (auto id : g.vertex_ids()) require(size_t(id) == i++, what + ": vertex_ids()");
  require(i == m.ids.size(), what + ": vertex_ids() size");
  i = 0;
  for (auto e : g.edge_ids()) require(size_t(e) == i++, what + ": edge_ids()");
  require(i == el.e.size(), what + ": edge_ids() size");
  size_t base = 0;
  for (size_t u = 0; u < m.ids.size(); ++u) {
    auto&  row = m.adj.at(u);
    size_t k   = 0;
    for (auto e : g.edge_ids(VId(u))) {
      require(size_t(e) == base + k && k < row.size(), what + ": edge_ids(" + S(u) + ")");
      require(size_t(g.target_id(e)) == row[k].t, what + ": target_id(edge id)");
      if constexpr (!std::is_void_v<typename G::edge_value_type>)
        require(g.edge_value(e) == row[k].v, what + ": edge_value(edge id)");
      ++k;
    }
    require(k == row.size(), what + ": edge_ids(" + S(u) + ") size");
    base += k;
    if constexpr (!std::is_void_v<typename G::vertex_value_type>)
      if (m.vvalues)
        require(g.vertex_value(VId(u)) == m.vval.at(u), what + ": vertex_value(id) of " + S(u));
  }
  require(std::ranges::distance(g.edge_ids(VId(m.ids.size()))) == 0, what + ": edge_ids of an id that is out of range");
}
template <class G, class VId>
void partitions(const G& g, const std::vector<VId>& starts, size_t n, const std::string& what) {
  using namespace graph;
  size_t np = starts.empty() ? 1 : starts.size();
  require(size_t(num_partitions(g)) == np, what + ": num_partitions is " + S(num_partitions(g)));
  std::vector<size_t> all;
  for (size_t p = 0; p < np; ++p)
    for (auto u : vertices(g, VId(p))) {
      size_t id = size_t(vertex_id(g, u));
      require(id < n, what + ": partition " + S(p) + " contains vertex " + S(id) + " which does not exist");
      require(size_t(partition_id(g, u)) == p, what + ": partition_id of " + S(id) + " is " + S(partition_id(g, u)) + " but partition " + S(p) + " lists it");
      all.push_back(id);
    }
  require(all.size() == n, what + ": the partitions list " + S(all.size()) + " vertices");
  for (size_t i = 0; i < n; ++i) require(all[i] == i, what + ": the partitions do not cover the vertices in order");
}

template <class VId, class EId>
void run(EL& el, Rng& r, const char* name) {
  using G  = gc::compressed_graph<double, void, void, VId, EId>;
  using GN = gc::compressed_graph<void, void, void, VId, EId>;
  using GV = gc::compressed_graph<double, double, int, VId, EId>;
  using GW = gc::compressed_graph<double, double, void, VId, EId>;
  const auto in = ein<VId>(el);
  size_t     k  = used(el);
  std::string nm = name;
  note(nm);
  {
    G    g(in);
    auto m = model(el, k);
    check_both(g, m, el.e.size(), nm + " constructor");
    extra<G, VId>(g, m, el, nm + " constructor");
    partitions<G, VId>(g, {}, k, nm + " constructor");
    G h(g), mv(std::move(g));
    check_both(h, m, el.e.size(), nm + " copy");
    check_both(mv, m, el.e.size(), nm + " move");
    h.clear();
    check_both(h, model(EL{}, 0), 0, nm + " clear");
    h.load_edges(in, std::identity{});
    check_both(h, m, el.e.size(), nm + " reload after clear");
    partitions<G, VId>(h, {}, k, nm + " reload after clear");
  }
  if (el.n > 60) return;
  if (!in.empty()) { // vertex count larger than used
    G g;
    g.load_edges(in, std::identity{}, el.n + 2, in.size());
    auto m = model(el, std::max(k, el.n + 2));
    check_both(g, m, el.e.size(), nm + " load_edges");
    extra<G, VId>(g, m, el, nm + " load_edges");
    G    g2;
    auto tmp = in;
    g2.reserve(3, 1);
    g2.load_edges(std::move(tmp), std::identity{}, el.n + 2);
    check_both(g2, m, el.e.size(), nm + " load_edges(rvalue)");
    G    g3;
    auto lv = in;
    g3.load_edges(lv, std::identity{});
    check_both(g3, model(el, k), el.e.size(), nm + " load_edges(lvalue)");
    std::list<Ed<VId>> li(in.begin(), in.end());
    G g4;
    g4.load_edges(li, [](auto& e) -> Ed<VId> { return e; });
    check_both(g4, model(el, k), el.e.size(), nm + " load_edges(list)");
  }
  { // no edge values
    std::vector<graph::copyable_edge_t<VId, void>> iv;
    for (auto& e : el.e) iv.push_back({VId(e.u), VId(e.v)});
    GN   g(iv);
    auto m   = model(el, k);
    m.values = false;
    check_both<false, false>(g, m, el.e.size(), nm + " no values");
    extra<GN, VId>(g, m, el, nm + " no values");
  }
  { // vertex values: before, after, both constructors
    std::vector<Vd<VId>> vv;
    size_t nv = el.n;
    for (size_t i = 0; i < nv; ++i) vv.push_back({VId(i), double(r.below(100)) + 1});
    std::vector<Vd<VId>> sh = vv;
    for (size_t i = sh.size(); i > 1; --i) std::swap(sh[i - 1], sh[r.below(i)]);
    size_t n = std::max(k, nv);
    auto   m = model(el, n);
    m.vvalues = nv > 0;
    for (size_t i = 0; i < n; ++i) m.vval[i] = i < nv ? vv[i].value : 0.0;
    {
      GW g;
      note(nm + " edges then vertices");
      g.load_edges(in, std::identity{});
      g.load_vertices(sh, std::identity{});
      check_both<true, true>(g, m, el.e.size(), nm + " edges then vertices");
      extra<GW, VId>(g, m, el, nm + " edges then vertices");
      partitions<GW, VId>(g, {}, n, nm + " edges then vertices");
    }
    {
      GW g;
      note(nm + " vertices then edges");
      g.load_vertices(sh, std::identity{});
      if (nv) check_both<true, true>(g, [&] { auto q = model(EL{}, nv); q.vvalues = true; q.vval = m.vval; return q; }(), 0, nm + " vertices only");
      g.load_edges(in, std::identity{});
      check_both<true, true>(g, m, el.e.size(), nm + " vertices then edges");
      extra<GW, VId>(g, m, el, nm + " vertices then edges");
      GW   g2;
      auto tmp = in;
      g2.load_vertices(sh, std::identity{});
      g2.load_edges(std::move(tmp), std::identity{});
      check_both<true, true>(g2, m, el.e.size(), nm + " vertices then edges (rvalue)");
    }
    {
      note(nm + " load/constructor with vertices");
      GW g;
      g.load(in, sh, std::identity{}, std::identity{});
      check_both<true, true>(g, m, el.e.size(), nm + " load");
      GW c(in, sh, std::identity{}, std::identity{});
      check_both<true, true>(c, m, el.e.size(), nm + " edge and vertex constructor");
      partitions<GW, VId>(c, {}, n, nm + " edge and vertex constructor");
      GV v(7, in, sh, std::identity{}, std::identity{}, std::vector<VId>{});
      check_both<true, true>(v, m, el.e.size(), nm + " graph value constructor");
      require(graph::graph_value(v) == 7, nm + ": graph value");
    }
    if (n > 0) { // partitions
      std::vector<VId> st{0};
      for (size_t i = 1; i < n; ++i)
        if (r.chance(35)) st.push_back(VId(i));
      note(nm + " partitions");
      GW c(in, sh, std::identity{}, std::identity{}, st);
      check_both<true, true>(c, m, el.e.size(), nm + " constructor with partitions");
      partitions<GW, VId>(c, st, n, nm + " constructor with partitions");
      if (k == n && !in.empty()) {
        G d(in, std::identity{}, st);
        partitions<G, VId>(d, st, n, nm + " edge constructor with partitions");
      }
    }
  }
  // unordered input is rejected
  bool ordered = true;
  auto bad     = in;
  if (bad.size() > 1) {
    std::swap(bad[r.below(bad.size())], bad[r.below(bad.size())]);
    if (r.chance(50)) std::reverse(bad.begin(), bad.end());
  }
  for (size_t i = 1; i < bad.size(); ++i) ordered &= bad[i - 1].source_id <= bad[i].source_id;
  for (int way = 0; way < 3; ++way) {
    note(nm + " unordered input, way " + S(way));
    bool threw = false;
    auto cp    = bad;
    int  fd    = dup(1);
    (void)!freopen("/dev/null", "w", stdout);
    try {
      if (way == 0) { const auto& cb = bad; G g(cb); }
      else if (way == 1) { G g; g.load_edges(cp, std::identity{}); }
      else { G g; g.load_edges(std::move(cp), std::identity{}); }
    } catch (const std::exception&) { threw = true; }
    std::cout.flush();
    fflush(stdout);
    dup2(fd, 1);
    close(fd);
    require(threw == !ordered, nm + (ordered ? " ordered input rejected" : " unordered input accepted") + ", way " + S(way));
  }
}
int main(int argc, char** argv) {
  auto a = start(argc, argv);
  Rng  r(a.seed);
  Opt  o;
  o.max_n = 14;
  long i  = 0;
  drive(r, o, a.budget, [&](EL& el, Rng& r) {
    ++i;
    if (i % 2 || el.n > 60) run<uint32_t, uint32_t>(el, r, "uint32_t ids");
    else run<uint16_t, size_t>(el, r, "uint16_t ids, size_t edges");
    if (i % 5 == 0 && el.n < 100) run<int, int>(el, r, "int ids");
  });
  // more edges than the vertex id type can count (the edge index type is wide enough)
  for (size_t per : {100, 300}) {
    EL el;
    el.n = 3;
    for (size_t u = 0; u < 3; ++u)
      for (size_t i = 0; i < per; ++i) el.e.push_back({u, (u + i) % 3, double(u * 1000 + i)});
    begin_case("3 vertices with uint8_t ids and " + S(el.e.size()) + " edges", true);
    const auto in = ein<uint8_t>(el);
    gc::compressed_graph<double, void, void, uint8_t, uint32_t> g(in);
    check_both(g, model(el, 3), el.e.size(), "uint8_t ids");
  }
  return finish();
}
