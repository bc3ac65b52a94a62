#include "rac.hpp"
#include <graph/graph.hpp>
#include <graph/algorithms.hpp>
#include "containers.hpp"
using namespace rac;
/// blocks by definition: two edges are in one block iff equal or on a common simple cycle
/// (pairwise test: edges e,f share a block iff no single vertex removal separates them; computed via closure of "share a cycle through a common vertex")
static std::set<std::set<size_t>> blocks(const EL& el) {
  std::vector<std::pair<size_t, size_t>> es;
  std::set<std::pair<size_t, size_t>>    seen;
  for (auto& e : el.e)
    if (e.u != e.v && seen.insert({std::min(e.u, e.v), std::max(e.u, e.v)}).second) es.push_back({std::min(e.u, e.v), std::max(e.u, e.v)});
  size_t m = es.size();
  std::vector<size_t> cls(m);
  for (size_t i = 0; i < m; ++i) cls[i] = i;
  std::vector<std::vector<size_t>> adj(el.n);
  for (auto& e : es) { adj[e.first].push_back(e.second); adj[e.second].push_back(e.first); }
  // for each vertex v: incident edges (v,a),(v,b) share a block iff a and b are connected in the graph without v
  std::vector<size_t> mark(el.n);
  for (size_t v = 0; v < el.n; ++v) {
    std::fill(mark.begin(), mark.end(), size_t(0));
    size_t k = 0;
    for (size_t s : adj[v]) {
      if (mark[s]) continue;
      ++k;
      std::vector<size_t> st{s};
      mark[s] = k;
      while (!st.empty()) {
        size_t x = st.back();
        st.pop_back();
        for (size_t y : adj[x]) if (y != v && !mark[y]) { mark[y] = k; st.push_back(y); }
      }
    }
    std::map<size_t, size_t> first;
    for (size_t i = 0; i < m; ++i)
      if (es[i].first == v || es[i].second == v) {
        size_t o = es[i].first == v ? es[i].second : es[i].first;
        auto   it = first.find(mark[o]);
        if (it == first.end()) first[mark[o]] = i;
        else { size_t a = cls[i], b = cls[it->second]; if (a != b) for (auto& c : cls) if (c == a) c = b; }
      }
  }
  std::map<size_t, std::set<size_t>> by;
  for (size_t i = 0; i < m; ++i) { by[cls[i]].insert(es[i].first); by[cls[i]].insert(es[i].second); }
  std::set<std::set<size_t>> out;
  for (auto& [c, s] : by) out.insert(s);
  for (size_t v = 0; v < el.n; ++v) if (adj[v].empty()) out.insert({v});
  return out;
}
template <class G>
void run(G&& g, const std::set<std::set<size_t>>& want, const char* kind) {
  note(std::string("graph type ") + kind);
  std::vector<std::vector<size_t>> out;
  out.push_back({999});
  graph::biconnected_components(g, out);
  require(!out.empty() && out[0] == std::vector<size_t>{999}, "what was in the container before was changed");
  std::set<std::set<size_t>> got;
  for (size_t i = 1; i < out.size(); ++i) {
    std::set<size_t> s(out[i].begin(), out[i].end());
    require(s.size() == out[i].size(), "a vertex occurs twice in one component");
    require(got.insert(s).second, "a component is reported twice");
  }
  if (got != want) {
    auto show = [](const std::set<std::set<size_t>>& x) { std::string r; for (auto& s : x) { r += "{"; for (auto v : s) r += std::to_string(v) + " "; r += "}"; } return r; };
    fail("components " + show(got).substr(0, 500) + " instead of " + show(want).substr(0, 500));
  }
}
int main(int argc, char** argv) {
  Args a = start(argc, argv);
  Rng  r(a.seed);
  Opt  o;
  o.symmetric = true;
  drive(r, o, a.budget, [](EL& el, Rng&) {
    auto want = blocks(el);
    run(vov(el), want, "vector<vector<size_t>>");
    run(vov_w<int>(el), want, "vector<vector<pair<int,double>>>");
    if (!el.e.empty()) run(make_dynamic(el), want, "dynamic_graph");
  });
  return finish();
}
