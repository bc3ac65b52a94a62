#include "rac.hpp"
#include <graph/graph.hpp>
#include <graph/algorithms.hpp>
#include "containers.hpp"
using namespace rac;
struct Ev { char k; size_t u, v; };
struct Vis {
  std::vector<Ev>* ev;
  template <class G> void on_discover_vertex(const G&, const graph::vertex_id_t<G>& v) { ev->push_back({'d', size_t(v), 0}); }
  template <class G> void on_examine_vertex(const G&, const graph::vertex_id_t<G>& v) { ev->push_back({'x', size_t(v), 0}); }
  template <class G> void on_finish_vertex(const G&, const graph::vertex_id_t<G>& v) { ev->push_back({'f', size_t(v), 0}); }
  template <class G> void on_examine_edge(const G& g, const graph::edge_t<G>& e) { ev->push_back({'e', size_t(graph::source_id(g, e)), size_t(graph::target_id(g, e))}); }
};
static void verify(const EL& el, const std::vector<size_t>& src, const std::vector<Ev>& ev) {
  std::vector<size_t> h(el.n, SIZE_MAX);
  for (auto s : src) h[s] = 0;
  for (bool ch = true; ch;) {
    ch = false;
    for (auto& e : el.e)
      if (h[e.u] != SIZE_MAX && h[e.u] + 1 < h[e.v]) { h[e.v] = h[e.u] + 1; ch = true; }
  }
  std::vector<int> d(el.n), x(el.n), f(el.n);
  std::map<std::pair<size_t, size_t>, int> ec;
  size_t last = 0, cur = SIZE_MAX;
  for (auto& v : ev) {
    if (v.k == 'd') { require(++d[v.u] == 1, "vertex discovered twice"); }
    if (v.k == 'x') {
      require(++x[v.u] == 1, "vertex examined twice");
      require(d[v.u] == 1, "vertex examined before it is discovered");
      require(h[v.u] != SIZE_MAX && h[v.u] >= last, "vertices are not examined in hop order");
      last = h[v.u];
      cur  = v.u;
    }
    if (v.k == 'e') { require(v.u == cur, "edge examined while its source is not"); ++ec[{v.u, v.v}]; }
    if (v.k == 'f') { require(++f[v.u] == 1 && x[v.u] == 1, "vertex finished twice or before examination"); }
  }
  std::map<std::pair<size_t, size_t>, int> want;
  for (auto& e : el.e) if (h[e.u] != SIZE_MAX) ++want[{e.u, e.v}];
  require(want == ec, "examined edges are not exactly the out-edges of reached vertices, once each");
  for (size_t v = 0; v < el.n; ++v) {
    int w = h[v] != SIZE_MAX;
    require(d[v] == w && x[v] == w && f[v] == w, "vertex " + std::to_string(v) + (w ? " is reachable but not" : " is unreachable but") + " discovered, examined and finished");
  }
}
template <class G> void run(G& g, const EL& el, const std::vector<size_t>& src, const char* kind) {
  using VId = graph::vertex_id_t<G>;
  std::vector<VId> s(src.begin(), src.end());
  std::string      sn = " sources=";
  for (auto x : src) sn += std::to_string(x) + ",";
  note(std::string("graph type ") + kind + sn);
  std::vector<Ev> ev;
  graph::breadth_first_search(g, s, Vis{&ev});
  verify(el, src, ev);
  if (s.size() == 1) {
    ev.clear();
    graph::breadth_first_search(g, s[0], Vis{&ev});
    verify(el, src, ev);
  }
}
int main(int argc, char** argv) {
  Args a = start(argc, argv);
  Rng  r(a.seed);
  Opt  o;
  drive(r, o, a.budget, [](EL& el, Rng& r) {
    std::set<size_t> ss;
    size_t           k = el.n ? (r.chance(60) ? 1 : r.below(5)) : 0;
    for (size_t i = 0; i < k; ++i) ss.insert(r.below(el.n));
    std::vector<size_t> src(ss.begin(), ss.end());
    if (r.chance(50)) std::reverse(src.begin(), src.end());
    auto g = vov(el);
    run(g, el, src, "vector<vector<size_t>>");
    auto g2 = vov_w<unsigned>(el);
    run(g2, el, src, "vector<vector<pair<unsigned,double>>>");
    if (!el.e.empty()) {
      auto dg = make_dynamic(el);
      run(dg, el, src, "dynamic_graph");
    }
  });
  return finish();
}
