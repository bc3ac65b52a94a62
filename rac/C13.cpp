#include "rac.hpp"
#include <graph/graph.hpp>
#include <graph/algorithms.hpp>
#include "containers.hpp"
using namespace rac;

template <class G>
void run(G& g, const EL& el, size_t seed, const char* kind) {
  note(std::string("graph type ") + kind + " seed=" + std::to_string(seed));
  std::vector<size_t> out;
  size_t              c = graph::maximal_independent_set(g, std::back_inserter(out), static_cast<graph::vertex_id_t<G>>(seed));
  require(c == out.size(), "maximal_independent_set: return value is not the number written");
  std::vector<char> in(el.n, 0), loop(el.n, 0), nb(el.n, 0);
  for (auto v : out) {
    require(v < el.n, "written id out of range");
    require(!in[v], "vertex written twice");
    in[v] = 1;
  }
  for (auto& e : el.e) {
    if (e.u == e.v) loop[e.u] = 1;
    if (in[e.u] && e.u != e.v) nb[e.v] = 1;
    require(!(in[e.u] && in[e.v] && e.u != e.v), "two written vertices are adjacent");
  }
  for (size_t v = 0; v < el.n; ++v) {
    require(!(in[v] && loop[v]), "a written vertex has a self-loop");
    require(in[v] || loop[v] || nb[v], "not maximal: vertex " + std::to_string(v) + " could be added");
  }
  if (el.n) require(in[seed] == !loop[seed], "seed selection");
}

int main(int argc, char** argv) {
  Args a = start(argc, argv);
  Rng  r(a.seed);
  Opt  o;
  o.symmetric = true;
  drive(r, o, a.budget, [](EL& el, Rng& r) {
    size_t seed = r.below(el.n);
    auto   g1   = vov(el);
    run(g1, el, seed, "vector<vector<size_t>>");
    auto g2 = vov_w<int>(el);
    run(g2, el, seed, "vector<vector<pair<int,double>>>");
    if (!el.e.empty()) {
      auto g4 = make_dynamic(el);
      run(g4, el, seed, "dynamic_graph");
    }
  });
  return finish();
}
