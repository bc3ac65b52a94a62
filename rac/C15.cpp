#include "rac.hpp"
#include <graph/graph.hpp>
#include <graph/algorithms.hpp>
#include <random>
#include "containers.hpp"
using namespace rac;
template <class L, class G>
void run(G&& g, const EL& el, Rng& r, bool has_empty, const char* kind) {
  std::vector<L> init(el.n);
  L              empty{};
  size_t         kinds = 1 + r.below(4);
  for (auto& x : init) {
    size_t k = r.below(kinds + 1);
    if constexpr (std::is_same_v<L, std::string>) x = k ? std::string(1, char('a' + k)) : std::string();
    else x = L(k);
  }
  size_t   limit = r.chance(60) ? r.below(6) : r.chance(50) ? 40 : 0;
  unsigned seed  = unsigned(r.next());
  note(std::string("graph type ") + kind + (has_empty ? " with empty label" : "") + " limit " + std::to_string(limit) + " engine seed " + std::to_string(seed));
  std::mt19937   eng(seed);
  std::vector<L> lab = init;
  if (has_empty) graph::label_propagation(g, lab, empty, eng, limit);
  else graph::label_propagation(g, lab, eng, limit);
  require(lab.size() == init.size(), "label range resized");
  std::vector<std::vector<size_t>> adj(el.n);
  for (auto& e : el.e) adj[e.u].push_back(e.v);
  for (size_t v = 0; v < el.n; ++v) {
    require(std::find(init.begin(), init.end(), lab[v]) != init.end(), "a label nobody carried appeared at " + std::to_string(v));
    if (adj[v].empty()) require(lab[v] == init[v], "a vertex without neighbours changed its label");
    if (has_empty && lab[v] == empty) require(init[v] == empty, "the empty label spread to " + std::to_string(v));
  }
  if (has_empty) {
    // vertices that no labelled vertex can influence never change: v changes only if it reaches a labelled vertex
    auto R = closure(el);
    for (size_t v = 0; v < el.n; ++v) {
      bool any = false;
      for (size_t w = 0; w < el.n; ++w) for (size_t x : adj[v]) any = any || (R[x][w] && !(init[w] == empty));
      if (!any) require(lab[v] == init[v], "a vertex without labelled neighbours changed its label");
    }
  }
  if (limit == 0) { require(lab == init, "a limit of 0 changed labels"); return; }
  // the run with the same engine state and a larger limit: if it ends in the same labels for limit and limit+1, it stopped before
  auto stable = [&](const std::vector<L>& l) {
    for (size_t v = 0; v < el.n; ++v) {
      std::map<L, size_t> f;
      size_t              mx = 0;
      for (size_t w : adj[v]) if (!(has_empty && l[w] == empty)) mx = std::max(mx, ++f[l[w]]);
      if (!f.empty() && !(f.count(l[v]) && f[l[v]] == mx)) return false;
    }
    return true;
  };
  // number of sweeps used is observable through the engine: compare engine states after limits k and k+1
  std::mt19937 ea(seed), eb(seed);
  std::vector<L> la = init, lb = init;
  if (has_empty) { graph::label_propagation(g, la, empty, ea, limit); graph::label_propagation(g, lb, empty, eb, limit + 1); }
  else { graph::label_propagation(g, la, ea, limit); graph::label_propagation(g, lb, eb, limit + 1); }
  require(la == lab, "the result is not determined by the engine");
  if (el.n > 1 && ea == eb) require(la == lb && stable(la), "the run stopped before the limit although a vertex does not hold a most frequent neighbour label");
  if (limit == 1) {
    // after one sweep: some order explains the labels; with no ties along the way each changed vertex's label is carried by a neighbour initially or finally
    for (size_t v = 0; v < el.n; ++v)
      if (!(lab[v] == init[v])) {
        bool ok = false;
        for (size_t w : adj[v]) ok = ok || lab[v] == init[w] || lab[v] == lab[w];
        require(ok, "vertex " + std::to_string(v) + " adopted a label none of its neighbours carried");
      }
  }
}
int main(int argc, char** argv) {
  Args a = start(argc, argv);
  Rng  r(a.seed);
  auto one = [](EL& el, Rng& r) {
    if (el.n > 100) return;
    for (bool em : {false, true}) {
      run<int>(vov(el), el, r, em, "vector<vector<size_t>>");
      run<std::string>(vov_w<int>(el), el, r, em, "vector<vector<pair<int,double>>>, string labels");
      if (!el.e.empty()) run<unsigned>(make_dynamic(el), el, r, em, "dynamic_graph");
    }
    // stability with a long limit on graphs without ties: a star with uniform leaves
  };
  Opt o;
  drive(r, o, a.budget / 2, one);
  o.symmetric = true;
  o.small = false;
  drive(r, o, a.budget / 2, one);
  return finish();
}
