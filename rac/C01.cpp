#include "rac.hpp"
#include <graph/graph.hpp>
#include <graph/algorithms.hpp>
#include "containers.hpp"
using namespace rac;

// oracle: repeated relaxation to a fixpoint
static std::vector<double> oracle(const EL& el, const std::vector<size_t>& src) {
  std::vector<double> d(el.n, std::numeric_limits<double>::max());
  for (auto s : src) d[s] = 0;
  for (bool ch = true; ch;) {
    ch = false;
    for (auto& e : el.e)
      if (d[e.u] != std::numeric_limits<double>::max() && d[e.u] + e.w < d[e.v]) { d[e.v] = d[e.u] + e.w; ch = true; }
  }
  return d;
}
struct Count { // visitor: every hook is called with arguments that make sense
  size_t disc = 0, exam = 0, edges = 0, relaxed = 0, notrel = 0, fin = 0;
  template <class G, class X> void on_discover_vertex(const G&, const X&) { ++disc; }
  template <class G, class X> void on_examine_vertex(const G&, const X&) { ++exam; }
  template <class G, class X> void on_finish_vertex(const G&, const X&) { ++fin; }
  template <class G, class X> void on_examine_edge(const G&, const X&) { ++edges; }
  template <class G, class X> void on_edge_relaxed(const G&, const X&) { ++relaxed; }
  template <class G, class X> void on_edge_not_relaxed(const G&, const X&) { ++notrel; }
};
template <class D>
void verify(const EL& el, const std::vector<size_t>& src, const std::vector<D>& d, const std::vector<size_t>* p, const char* what) {
  auto o = oracle(el, src);
  std::vector<char> is(el.n, 0);
  for (auto s : src) is[s] = 1;
  for (size_t v = 0; v < el.n; ++v) {
    double want = o[v], got = d[v] == std::numeric_limits<D>::max() ? std::numeric_limits<double>::max() : double(d[v]);
    require(got == want, std::string(what) + ": distance of " + std::to_string(v) + " is " + std::to_string(got) + ", expected " + std::to_string(want));
    if (p && want != std::numeric_limits<double>::max() && !is[v]) {
      bool ok = false;
      for (auto& e : el.e) ok = ok || (e.u == (*p)[v] && e.v == v && o[e.u] + e.w == want);
      require(ok, std::string(what) + ": predecessor of " + std::to_string(v) + " does not close its distance");
    }
  }
}
template <class D, class G, class WF>
void run(G& g, const EL& el, const std::vector<size_t>& src, WF wf, const char* kind) {
  using VId = graph::vertex_id_t<G>;
  std::vector<VId> s(src.begin(), src.end());
  std::string      sn = " sources=";
  for (auto x : src) sn += std::to_string(x) + ",";
  note(std::string("graph type ") + kind + sn);
  size_t              n = el.n;
  {
    std::vector<D>      d(n);
    std::vector<size_t> p(n);
    graph::init_shortest_paths(d, p);
    graph::dijkstra_shortest_paths(g, s, d, p, wf);
    verify(el, src, d, &p, "dijkstra_shortest_paths");
    graph::init_shortest_paths(d);
    graph::dijkstra_shortest_distances(g, s, d, wf);
    verify<D>(el, src, d, nullptr, "dijkstra_shortest_distances");
    Count vis;
    graph::init_shortest_paths(d, p);
    graph::dijkstra_shortest_paths(g, s, d, p, wf, vis);
    verify(el, src, d, &p, "dijkstra_shortest_paths with a visitor");
    std::vector<D>      d2(n + 3);
    std::vector<size_t> p2(n + 2);
    graph::init_shortest_paths(d2, p2);
    graph::dijkstra_shortest_paths(g, s, d2, p2, wf);
    verify(el, src, d2, &p2, "dijkstra_shortest_paths with larger output ranges");
  }
  if (src.size() == 1) {
    std::vector<D>      d(n);
    std::vector<size_t> p(n);
    graph::init_shortest_paths(d, p);
    graph::dijkstra_shortest_paths(g, s[0], d, p, wf);
    verify(el, src, d, &p, "dijkstra_shortest_paths from one source");
    graph::init_shortest_paths(d);
    graph::dijkstra_shortest_distances(g, s[0], d, wf);
    verify<D>(el, src, d, nullptr, "dijkstra_shortest_distances from one source");
  }
}
template <class F> void throws(F f, const char* what) {
  try { f(); } catch (const std::out_of_range&) { return; }
  fail(std::string("no std::out_of_range for ") + what);
}
int main(int argc, char** argv) {
  Args a = start(argc, argv);
  Rng  r(a.seed);
  Opt  o;
  o.whi = 6;
  drive(r, o, a.budget, [](EL& el, Rng& r) {
    std::vector<size_t> src;
    size_t              k = el.n ? (r.chance(70) ? 1 : r.below(4)) : 0;
    for (size_t i = 0; i < k; ++i) src.push_back(r.below(el.n));
    auto g  = vov_w(el);
    auto wf = [](const auto& g, const auto& uv) { return graph::edge_value(g, uv); };
    run<double>(g, el, src, wf, "vector<vector<pair<size_t,double>>>");
    auto wi = [](const auto& g, const auto& uv) { return static_cast<int>(graph::edge_value(g, uv)); };
    run<int>(g, el, src, wi, "vector<vector<pair<size_t,double>>> with int distances");
    if (!el.e.empty()) {
      auto cg = make_compressed(el);
      size_t n = el.n;
      (void)n;
      auto dg = make_dynamic(el);
      run<double>(dg, el, src, wf, "dynamic_graph");
    }
    EL un = el;
    for (auto& e : un.e) e.w = 1;
    if (!src.empty()) {
      std::vector<double> d(el.n);
      std::vector<size_t> p(el.n);
      graph::init_shortest_paths(d, p);
      note("default unit weights");
      graph::dijkstra_shortest_paths(g, src, d, p);
      verify(un, src, d, &p, "dijkstra_shortest_paths with the default weight");
    }
    // argument errors
    note("argument errors");
    std::vector<double> d(el.n);
    std::vector<size_t> p(el.n);
    graph::init_shortest_paths(d, p);
    throws([&] { std::vector<size_t> s{el.n}; graph::dijkstra_shortest_paths(g, s, d, p, wf); }, "a source out of range");
    if (el.n) {
      graph::init_shortest_paths(d, p);
      std::vector<double> d1(el.n - 1);
      std::vector<size_t> p1(el.n - 1), s{r.below(el.n)};
      throws([&] { graph::dijkstra_shortest_paths(g, s, d1, p, wf); }, "a distance range that is too small");
      throws([&] { graph::dijkstra_shortest_paths(g, s, d, p1, wf); }, "a predecessor range that is too small");
      auto rs = reach_from(el, s);
      EL   ng = el;
      std::vector<size_t> cand;
      for (size_t i = 0; i < ng.e.size(); ++i) if (rs[ng.e[i].u]) cand.push_back(i);
      if (!cand.empty()) {
        size_t bad = cand[r.below(cand.size())];
        ng.e[bad].w = -1;
        auto g2 = vov_w(ng);
        graph::init_shortest_paths(d, p);
        note("negative weight on reachable edge " + std::to_string(ng.e[bad].u) + "->" + std::to_string(ng.e[bad].v) + " source " + std::to_string(s[0]));
        throws([&] { graph::dijkstra_shortest_paths(g2, s, d, p, wf); }, "a negative weight met during the search");
      }
    }
  });
  return finish();
}
