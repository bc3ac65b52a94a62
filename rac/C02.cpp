#include "rac.hpp"
#include <graph/graph.hpp>
#include <graph/algorithms.hpp>
#include "containers.hpp"
using namespace rac;
static const double INF = std::numeric_limits<double>::max();
// minimum weight of walks with at most n edges; then one more round decides whether a negative cycle is reachable
static bool oracle(const EL& el, const std::vector<size_t>& src, std::vector<double>& d) {
  d.assign(el.n, INF);
  for (auto s : src) d[s] = 0;
  for (size_t k = 0; k <= el.n; ++k) {
    auto n  = d;
    bool ch = false;
    for (auto& e : el.e)
      if (d[e.u] != INF && d[e.u] + e.w < n[e.v]) { n[e.v] = d[e.u] + e.w; ch = true; }
    d = n;
    if (!ch) return false;
  }
  return true;
}
template <class D, class G, class WF>
void run(G& g, const EL& el, const std::vector<size_t>& src, WF wf, const char* kind) {
  using VId = graph::vertex_id_t<G>;
  std::vector<VId> s(src.begin(), src.end());
  std::string      sn = " sources=";
  for (auto x : src) sn += std::to_string(x) + ",";
  std::vector<double> o;
  bool                neg = oracle(el, src, o);
  std::vector<char>   is(el.n, 0);
  for (auto x : src) is[x] = 1;
  for (int variant = 0; variant < 4; ++variant) {
    if (variant >= 2 && src.size() != 1) continue;
    note(std::string("graph type ") + kind + sn + " overload " + std::to_string(variant));
    std::vector<D>   d(el.n);
    std::vector<VId> p(el.n);
    graph::init_shortest_paths(d, p);
    std::optional<VId> r;
    switch (variant) {
    case 0: r = graph::bellman_ford_shortest_paths(g, s, d, p, wf); break;
    case 1: r = graph::bellman_ford_shortest_distances(g, s, d, wf); break;
    case 2: r = graph::bellman_ford_shortest_paths(g, s[0], d, p, wf); break;
    case 3: r = graph::bellman_ford_shortest_distances(g, s[0], d, wf); break;
    }
    require(r.has_value() == neg, neg ? "a reachable negative cycle is not reported" : "a vertex is returned although no negative cycle is reachable");
    if (!neg) {
      for (size_t v = 0; v < el.n; ++v) {
        double got = d[v] == std::numeric_limits<D>::max() ? INF : double(d[v]);
        require(got == o[v], "distance of " + std::to_string(v) + " is " + std::to_string(got) + ", expected " + std::to_string(o[v]));
        if (variant % 2 == 0 && o[v] != INF && !is[v]) {
          bool ok = false;
          for (auto& e : el.e) ok = ok || (e.u == p[v] && e.v == v && o[e.u] != INF && o[e.u] + e.w == o[v]);
          require(ok, "predecessor of " + std::to_string(v) + " does not close its distance");
        }
      }
    }
    if (variant % 2 == 0) {
      std::vector<VId> cyc;
      note(std::string("find_negative_cycle ") + kind + sn);
      graph::find_negative_cycle(g, p, r, std::back_inserter(cyc));
      require(cyc.empty() == !neg, "find_negative_cycle writes vertices exactly when there is a cycle");
      std::set<VId> dis(cyc.begin(), cyc.end());
      require(dis.size() == cyc.size(), "find_negative_cycle repeats a vertex");
      double sum = 0;
      for (size_t i = 0; i < cyc.size(); ++i) {
        VId to = cyc[i], from = cyc[(i + 1) % cyc.size()];
        require(p[to] == from, "find_negative_cycle does not write a closed predecessor walk");
        double w = INF;
        for (auto& e : el.e) if (e.u == from && e.v == to) w = std::min(w, e.w);
        require(w != INF, "find_negative_cycle uses an edge that does not exist");
        sum += w;
      }
      require(cyc.empty() || sum < 0, "the extracted cycle is not negative");
    }
  }
}
template <class F> void throws(F f, const char* what) {
  try { f(); } catch (const std::out_of_range&) { return; }
  fail(std::string("no std::out_of_range for ") + what);
}
int main(int argc, char** argv) {
  Args a = start(argc, argv);
  Rng  r(a.seed);
  Opt  o;
  o.wlo = -2;
  o.whi = 6;
  drive(r, o, a.budget, [](EL& el0, Rng& r) {
    EL el = el0;
    if (r.chance(50)) for (auto& e : el.e) if (r.chance(80) && e.w < 0) e.w = -e.w; // often no negative cycle
    if (r.chance(30) && el.n) { // potentials: negative edges without a negative cycle
      std::vector<double> pot(el.n);
      for (auto& x : pot) x = double(r.below(7));
      for (auto& e : el.e) e.w = std::abs(e.w) + pot[e.u] - pot[e.v];
    }
    begin_case(el.text(), !el.e.empty());
    std::vector<size_t> src;
    size_t              k = el.n ? (r.chance(70) ? 1 : r.below(4)) : 0;
    for (size_t i = 0; i < k; ++i) src.push_back(r.below(el.n));
    auto g  = vov_w(el);
    auto wf = [](const auto& g, const auto& uv) { return graph::edge_value(g, uv); };
    auto wi = [](const auto& g, const auto& uv) { return static_cast<int>(graph::edge_value(g, uv)); };
    run<double>(g, el, src, wf, "vector<vector<pair<size_t,double>>>");
    run<int>(g, el, src, wi, "vector<vector<pair<size_t,double>>> with int distances");
    if (!el.e.empty()) {
      auto dg = make_dynamic(el);
      run<double>(dg, el, src, wf, "dynamic_graph");
    }
    note("argument errors");
    std::vector<double> d(el.n);
    std::vector<size_t> p(el.n);
    graph::init_shortest_paths(d, p);
    throws([&] { std::vector<size_t> s{el.n}; (void)graph::bellman_ford_shortest_paths(g, s, d, p, wf); }, "a source out of range");
    if (el.n) {
      graph::init_shortest_paths(d, p);
      std::vector<double> d1(el.n - 1);
      std::vector<size_t> p1(el.n - 1), s{r.below(el.n)};
      throws([&] { (void)graph::bellman_ford_shortest_paths(g, s, d1, p, wf); }, "a distance range that is too small");
      throws([&] { (void)graph::bellman_ford_shortest_paths(g, s, d, p1, wf); }, "a predecessor range that is too small");
    }
  });
  return finish();
}
