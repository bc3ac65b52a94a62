#include "rac.hpp"
#include <graph/graph.hpp>
#include <graph/algorithms.hpp>
#include "containers.hpp"
using namespace rac;
static void verify(const EL& el, const std::vector<size_t>& src, bool ret, const std::vector<size_t>& out, const char* which) {
  note(std::string(which));
  auto c    = closure(el);   // c[u][v]: walk with at least 0 edges
  auto rch  = reach_from(el, src);
  bool cyc  = false;
  for (auto& e : el.e) cyc = cyc || (rch[e.u] && c[e.v][e.u]);
  require(ret == !cyc, std::string("topological_sort returned ") + (ret ? "true" : "false") + (cyc ? " although a cycle is reachable" : " although no cycle is reachable"));
  if (!ret) { require(out.empty(), "output written although a cycle was found"); return; }
  std::vector<size_t> pos(el.n, SIZE_MAX);
  for (size_t i = 0; i < out.size(); ++i) {
    require(out[i] < el.n && pos[out[i]] == SIZE_MAX, "vertex written twice or out of range");
    pos[out[i]] = i;
  }
  for (size_t v = 0; v < el.n; ++v) require((pos[v] != SIZE_MAX) == bool(rch[v]), "vertex " + std::to_string(v) + (rch[v] ? " missing" : " written although unreachable"));
  for (auto& e : el.e) if (rch[e.u]) require(pos[e.u] < pos[e.v], "edge goes backwards in the output");
}
template <class G> void run(G& g, const EL& el, const std::vector<size_t>& src, const char* kind) {
  using VId = graph::vertex_id_t<G>;
  std::vector<VId> s(src.begin(), src.end());
  std::string      sn = " sources=";
  for (auto x : src) sn += std::to_string(x) + ",";
  note(std::string("graph type ") + kind + sn);
  std::vector<size_t> out;
  bool                ret = graph::topological_sort(g, s, std::back_inserter(out));
  verify(el, src, ret, out, "multi-source");
  out.clear();
  if (!src.empty()) {
    ret = graph::topological_sort(g, s[0], std::back_inserter(out));
    verify(el, {src[0]}, ret, out, "single source");
  }
  out.clear();
  ret = graph::topological_sort(g, std::back_inserter(out));
  std::vector<size_t> all;
  for (size_t i = 0; i < el.n; ++i) all.push_back(i);
  verify(el, all, ret, out, "all vertices");
}
int main(int argc, char** argv) {
  Args a = start(argc, argv);
  Rng  r(a.seed);
  Opt  o;
  drive(r, o, a.budget, [](EL& el, Rng& r) {
    if (r.chance(60)) { // acyclic: order the edges along a random permutation
      std::vector<size_t> p(el.n);
      for (size_t i = 0; i < el.n; ++i) p[i] = i;
      for (size_t i = el.n; i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
      std::vector<E> keep;
      for (auto e : el.e) {
        if (e.u == e.v && r.chance(97)) continue;
        if (p[e.u] > p[e.v] && r.chance(99)) std::swap(e.u, e.v);
        keep.push_back(e);
      }
      std::stable_sort(keep.begin(), keep.end(), [](auto& x, auto& y) { return x.u < y.u; });
      el.e = keep;
      cur_case = el.text(); put_current(cur_case);
    }
    std::vector<size_t> src;
    size_t              k = el.n ? r.below(5) : 0;
    for (size_t i = 0; i < k; ++i) src.push_back(r.below(el.n)); // repetitions allowed
    auto g = vov(el);
    run(g, el, src, "vector<vector<size_t>>");
    auto g2 = vov_w<unsigned>(el);
    run(g2, el, src, "vector<vector<pair<unsigned,double>>>");
    if (!el.e.empty()) {
      auto dg = make_dynamic(el);
      run(dg, el, src, "dynamic_graph");
    }
  });
  return finish();
}
