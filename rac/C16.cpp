#include "rac.hpp"
#include <graph/graph.hpp>
#include <graph/algorithms.hpp>
#include <graph/container/undirected_adjacency_list.hpp>
#include "containers.hpp"
using namespace rac;
inline size_t parts(const EL& el, size_t skip) {
  std::vector<size_t> c(el.n);
  for (size_t i = 0; i < el.n; ++i) c[i] = i;
  auto find = [&](size_t x) { while (c[x] != x) x = c[x] = c[c[x]]; return x; };
  size_t k = el.n - (skip < el.n ? 1 : 0);
  for (auto& e : el.e)
    if (e.u != skip && e.v != skip) { size_t a = find(e.u), b = find(e.v); if (a != b) { c[a] = b; --k; } }
  return k;
}
template <class G>
void run(G&& g, const EL& el, const std::vector<char>& want, const char* kind) {
  note(std::string("graph type ") + kind);
  std::vector<size_t> out;
  graph::articulation_points(g, std::back_inserter(out));
  std::vector<char> got(el.n, 0);
  for (auto v : out) {
    require(v < el.n, "id out of range");
    require(!got[v], "vertex " + std::to_string(v) + " written twice");
    got[v] = 1;
  }
  for (size_t v = 0; v < el.n; ++v)
    require(got[v] == want[v], "vertex " + std::to_string(v) + (got[v] ? " was written but is no cut vertex" : " is a cut vertex but was not written"));
}
int main(int argc, char** argv) {
  Args a = start(argc, argv);
  Rng  r(a.seed);
  Opt  o;
  o.symmetric = true;
  drive(r, o, a.budget, [](EL& el, Rng&) {
    std::vector<char> want(el.n);
    size_t            base = parts(el, el.n);
    for (size_t v = 0; v < el.n; ++v) want[v] = parts(el, v) > base;
    run(vov(el), el, want, "vector<vector<size_t>>");
    run(vov_w<int>(el), el, want, "vector<vector<pair<int,double>>>");
    if (!el.e.empty()) run(make_dynamic(el), el, want, "dynamic_graph");
  });
  return finish();
}
