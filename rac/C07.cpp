#include "rac.hpp"
#include <graph/graph.hpp>
#include <graph/algorithms.hpp>
#include "containers.hpp"
#include "bidir.hpp"
using namespace rac;
template <class C>
void judge(const EL& el, const std::vector<std::vector<char>>& R, const std::vector<C>& comp) {
  std::set<size_t> used;
  for (size_t u = 0; u < el.n; ++u) {
    require(size_t(comp[u]) < el.n, "label out of range");
    used.insert(size_t(comp[u]));
    for (size_t v = 0; v < el.n; ++v)
      require((comp[u] == comp[v]) == (R[u][v] && R[v][u]), "vertices " + std::to_string(u) + " and " + std::to_string(v) + (comp[u] == comp[v] ? " share a label but are not" : " have different labels but are") + " mutually reachable");
  }
  require(used.empty() || *used.rbegin() + 1 == used.size(), "labels are not contiguous from 0");
  for (size_t u = el.n; u < comp.size(); ++u) (void)u;
}
int main(int argc, char** argv) {
  Args a = start(argc, argv);
  Rng  r(a.seed);
  Opt  o;
  drive(r, o, a.budget, [](EL& el, Rng&) {
    auto R  = closure(el);
    EL   tr = el;
    for (auto& e : tr.e) std::swap(e.u, e.v);
    std::stable_sort(tr.e.begin(), tr.e.end(), [](const E& a, const E& b) { return a.u < b.u; });
    {
      note("two graphs, vector<vector<size_t>>");
      auto g = vov(el), t = vov(tr);
      std::vector<size_t> c(el.n, 5);
      graph::kosaraju(g, t, c);
      judge(el, R, c);
      note("two graphs, vector<vector<pair<int,double>>>, int labels");
      auto g2 = vov_w<int>(el), t2 = vov_w<int>(tr);
      std::vector<int> c2(el.n);
      graph::kosaraju(g2, t2, c2);
      judge(el, R, c2);
    }
    if (!el.e.empty()) {
      auto in = edge_input(el);
      {
        note("two dynamic graphs");
        DG g = make_dynamic(el), t = make_dynamic(tr);
        std::vector<uint32_t> c(el.n);
        graph::kosaraju(g, t, c);
        judge(el, R, c);
      }
      {
        note("bidirectional dynamic graph");
        BG g;
        g.load_edges(in, std::identity{}, el.n);
        std::vector<uint32_t> c(el.n);
        graph::kosaraju(g, c);
        judge(el, R, c);
      }
      {
        note("bidirectional dynamic graph with list edges");
        BL g;
        g.load_edges(in, std::identity{}, el.n);
        std::vector<size_t> c(el.n);
        graph::kosaraju(g, c);
        judge(el, R, c);
      }
    }
  });
  return finish();
}
