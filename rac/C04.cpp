#include "rac.hpp"
#include <graph/graph.hpp>
#include <graph/algorithms.hpp>
#include "containers.hpp"
using namespace rac;
struct Ev { char k; size_t u, v; };
struct Vis {
  std::vector<Ev>* ev;
  template <class G> void on_discover_vertex(const G&, const graph::vertex_id_t<G>& v) { ev->push_back({'d', size_t(v), 0}); }
  template <class G> void on_finish_vertex(const G&, const graph::vertex_id_t<G>& v) { ev->push_back({'f', size_t(v), 0}); }
  template <class G> void put(char k, const G& g, const graph::edge_t<G>& e) { ev->push_back({k, size_t(graph::source_id(g, e)), size_t(graph::target_id(g, e))}); }
  template <class G> void on_examine_edge(const G& g, const graph::edge_t<G>& e) { put('e', g, e); }
  template <class G> void on_tree_edge(const G& g, const graph::edge_t<G>& e) { put('t', g, e); }
  template <class G> void on_back_edge(const G& g, const graph::edge_t<G>& e) { put('b', g, e); }
  template <class G> void on_forward_or_cross_edge(const G& g, const graph::edge_t<G>& e) { put('c', g, e); }
};
static void verify(const EL& el, size_t s, const std::vector<Ev>& ev) {
  std::vector<char>   reach = reach_from(el, {s});
  std::vector<int>    d(el.n), f(el.n);
  std::vector<size_t> act;
  std::map<std::pair<size_t, size_t>, int> ec, want;
  bool                pending = false;
  size_t              pu = 0, pv = 0, tree = SIZE_MAX;
  for (auto& v : ev) {
    if (v.k == 'd') {
      require(++d[v.u] == 1, "vertex discovered twice");
      require(!pending && (act.empty() ? v.u == s : tree == v.u), "a vertex is discovered that is neither the source nor the target of the last tree edge");
      act.push_back(v.u);
      tree = SIZE_MAX;
    } else if (v.k == 'f') {
      require(!pending && tree == SIZE_MAX && !act.empty() && act.back() == v.u, "vertices are not finished in properly nested order");
      require(++f[v.u] == 1, "vertex finished twice");
      act.pop_back();
    } else if (v.k == 'e') {
      require(!pending && tree == SIZE_MAX && !act.empty() && act.back() == v.u, "edge examined out of order");
      ++ec[{v.u, v.v}];
      pending = true; pu = v.u; pv = v.v;
    } else {
      require(pending && pu == v.u && pv == v.v, "an edge is classified that was not just examined");
      pending = false;
      char want = !d[v.v] ? 't' : !f[v.v] ? 'b' : 'c';
      require(v.k == want, std::string("edge ") + std::to_string(v.u) + ">" + std::to_string(v.v) + " classified " + v.k + " instead of " + want);
      if (v.k == 't') tree = v.v;
    }
  }
  require(!pending && act.empty() && tree == SIZE_MAX, "search ended with unfinished vertices");
  for (auto& e : el.e) if (reach[e.u]) ++want[{e.u, e.v}];
  require(want == ec, "examined edges are not exactly the out-edges of reached vertices, once each");
  for (size_t v = 0; v < el.n; ++v)
    require(d[v] == (reach[v] ? 1 : 0) && f[v] == d[v], "vertex " + std::to_string(v) + (reach[v] ? " is reachable but not" : " is unreachable but") + " discovered and finished");
}
template <class G> void run(G& g, const EL& el, size_t s, const char* kind) {
  note(std::string("graph type ") + kind + " source=" + std::to_string(s));
  std::vector<Ev> ev;
  graph::depth_first_search(g, static_cast<graph::vertex_id_t<G>>(s), Vis{&ev});
  verify(el, s, ev);
}
int main(int argc, char** argv) {
  Args a = start(argc, argv);
  Rng  r(a.seed);
  Opt  o;
  drive(r, o, a.budget, [](EL& el, Rng& r) {
    if (!el.n) return;
    size_t s = r.below(el.n);
    auto   g = vov(el);
    run(g, el, s, "vector<vector<size_t>>");
    auto g2 = vov_w<unsigned>(el);
    run(g2, el, s, "vector<vector<pair<unsigned,double>>>");
    if (!el.e.empty()) {
      auto dg = make_dynamic(el);
      run(dg, el, s, "dynamic_graph");
    }
  });
  return finish();
}
