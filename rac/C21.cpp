// SHARDS 5
// C21: undirected_adjacency_list stays a consistent doubly linked multigraph over any history.
#include "rac.hpp"
#include <graph/graph.hpp>
#include <graph/container/undirected_adjacency_list.hpp>
#include <memory>
#include <optional>
using namespace rac;
inline std::string S(size_t x) { return std::to_string(x); }
struct ME { size_t u, v; int val; };
struct Model {
  std::vector<int> vv;
  std::vector<ME>  e;
  int              gv = 0;
};
template <class T> T mk(int x) { if constexpr (std::is_same_v<T, std::string>) return std::string("a value longer than the small buffer ") + std::to_string(x); else return T(x); }

#if SHARD == 0
using EV = int; using VV = int; using GV = void; using VI = uint32_t;
using UG = graph::container::undirected_adjacency_list<EV, VV, GV>;
#elif SHARD == 1
using EV = int; using VV = int; using GV = int; using VI = size_t;
using UG = graph::container::undirected_adjacency_list<EV, VV, GV, VI>;
#elif SHARD == 2
using EV = std::string; using VV = std::string; using GV = std::string; using VI = uint16_t;
using UG = graph::container::undirected_adjacency_list<EV, VV, GV, VI>;
#elif SHARD == 3
using EV = std::string; using VV = int; using GV = void; using VI = int;
using UG = graph::container::undirected_adjacency_list<EV, VV, GV, VI>;
#else
using EV = int; using VV = int; using GV = void; using VI = uint32_t;
using UG = graph::container::undirected_adjacency_list<EV, VV, GV>;
#endif

template <class UG>
void check(UG& g, const Model& m, const std::string& what) {
  using namespace graph;
  const UG& cg = g;
  size_t n = m.vv.size();
  require(num_vertices(g) == n && num_vertices(cg) == n && g.vertices().size() == n && size_t(std::ranges::distance(vertices(g))) == n, what + ": number of vertices is " + S(num_vertices(g)));
  require(num_edges(g) == m.e.size() && g.num_edges() == m.e.size(), what + ": num_edges is " + S(num_edges(g)) + " instead of " + S(m.e.size()));
  require(has_edges(g) == !m.e.empty() && g.has_edge() == !m.e.empty(), what + ": has_edge(s)");
  if constexpr (!std::is_void_v<GV>) require(graph_value(g) == mk<GV>(m.gv), what + ": graph value");
  std::map<const void*, std::vector<size_t>> where; // edge -> lists it is found in
  for (auto u : vertices(g)) {
    size_t uid = size_t(vertex_id(g, u));
    auto   at  = what + ": vertex " + S(uid);
    require(uid < n, at);
    if constexpr (!std::is_void_v<VV>) require(vertex_value(g, u) == mk<VV>(m.vv[uid]) && vertex_value(cg, u) == mk<VV>(m.vv[uid]), at + ": value");
    std::vector<std::pair<size_t, int>> want;
    for (auto& e : m.e) { if (e.u == uid) want.push_back({e.v, e.val}); else if (e.v == uid) want.push_back({e.u, e.val}); }
    std::sort(want.begin(), want.end());
    auto cmp = [&](auto&& rng, auto f, const std::string& w) {
      std::vector<std::pair<size_t, int>> got;
      for (auto&& e : rng) { require(got.size() < want.size(), at + ": " + w + " lists more than " + S(want.size()) + " edges"); got.push_back(f(e)); }
      std::sort(got.begin(), got.end());
      require(got == want, at + ": " + w + " lists " + S(got.size()) + " edges instead of " + S(want.size()) + ", or wrong ones");
    };
    auto ident = [&](const auto& x) -> int {
      if constexpr (std::is_void_v<EV>) return 0;
      else for (auto& e : m.e) if (mk<EV>(e.val) == x) return e.val;
      return -1;
    };
    auto cpo = [&](auto& gg) { return [&](auto&& e) {
      require(size_t(source_id(gg, e)) == uid, at + ": source_id");
      require(size_t(vertex_id(gg, target(gg, e))) == size_t(target_id(gg, e)) && size_t(vertex_id(gg, source(gg, e))) == uid, at + ": source/target");
      if constexpr (std::is_void_v<EV>) return std::pair<size_t, int>(target_id(gg, e), 0);
      else return std::pair<size_t, int>(target_id(gg, e), ident(edge_value(gg, e))); }; };
    cmp(edges(g, u), cpo(g), "edges(g,u)");
    cmp(edges(cg, u), cpo(cg), "edges(const g,u)");
    cmp(in_edges(g, u), cpo(g), "in_edges(g,u)");
    require(size_t(degree(g, u)) == want.size(), at + ": degree is " + S(size_t(degree(g, u))) + " instead of " + S(want.size()));
    VI   k = VI(uid);
    auto& vx = g.vertices()[k];
    const auto& cvx = cg.vertices()[k];
    require(vx.num_edges() == want.size() && vx.edges(g, k).size() == want.size(), at + ": num_edges() is " + S(vx.num_edges()));
    std::vector<const void*> fw, bw;
    auto nat = [&](auto&& e) {
      size_t o = size_t(e.other_vertex_id(g, k));
      require((size_t(e.list_owner_id()) == uid && size_t(e.list_target_id()) == o) || (size_t(e.list_target_id()) == uid && size_t(e.list_owner_id()) == o), at + ": endpoints of a stored edge");
      if constexpr (std::is_void_v<EV>) return std::pair<size_t, int>(o, 0); else return std::pair<size_t, int>(o, ident(e.value())); };
    cmp(vx.edges(g, k), nat, "vertex.edges");
    cmp(cvx.edges(cg, k), nat, "const vertex.edges");
    for (auto& e : vx.edges(g, k)) { fw.push_back(&e); where[&e].push_back(uid); }
    auto b = vx.edges_begin(g, k), en = vx.edges_end(g, k);
    require((b == en) == want.empty(), at + ": begin and end");
    if (!want.empty())
      for (auto it = en;;) {
        if (bw.size() % 2) --it; else it--;
        bw.push_back(&*it);
        require(bw.size() <= want.size(), at + ": backward iteration does not end");
        if (it == b) break;
      }
    std::reverse(bw.begin(), bw.end());
    require(fw == bw, at + ": backward iteration lists other edges than forward iteration");
  }
  size_t stored = 0;
  for (auto& [p, l] : where) {
    ++stored;
    require(l.size() <= 2, what + ": an edge is in more than two lists");
  }
  require(stored == m.e.size(), what + ": " + S(stored) + " edges are stored");
  // all edges, each at both of its vertices
  std::map<const void*, size_t> seen;
  size_t k = 0, incid = 0;
  for (auto& e : m.e) incid += e.u == e.v ? 1 : 2;
  for (typename UG::edge_iterator it(g, g.vertices().begin()), e(g, g.vertices().end()); it != e; ++it) {
    require(k < incid, what + ": the edges of the graph do not end");
    ++seen[&*it];
    ++k;
  }
  require(k == incid && seen.size() == m.e.size(), what + ": the edges of the graph");
  require((g.try_find_vertex(VI(n)) == g.vertices().end()), what + ": try_find_vertex");
}

template <class UG>
struct World_ {
  std::vector<std::unique_ptr<UG>> g;
  std::vector<Model> m;
  int                next = 1;
  std::string        log;
  void say(const std::string& s) { log += s; put_current(log); cur_case = log; }

  void add_vertex(size_t k, int form) {
    int x = next++;
    if constexpr (std::is_void_v<VV>) g[k]->create_vertex();
    else if (form == 0) { g[k]->create_vertex(); auto v = mk<VV>(x); graph::vertex_value(*g[k], *graph::find_vertex(*g[k], VI(m[k].vv.size()))) = v; }
    else if (form == 1) g[k]->create_vertex(mk<VV>(x));
    else { const auto v = mk<VV>(x); g[k]->create_vertex(v); }
    m[k].vv.push_back(x);
    say(" v" + S(k));
  }
  void add_edge(size_t k, size_t u, size_t v, int form) {
    int x = std::is_void_v<EV> ? 0 : next++;
    say(" e" + S(k) + "(" + S(u) + "," + S(v) + ")");
    auto& G = *g[k];
    auto ui = G.vertices().begin() + VI(u), vi = G.vertices().begin() + VI(v);
    auto done = [&](auto it) { require(size_t(it->list_owner_id()) == u && size_t(it->list_target_id()) == v && size_t(it.source_id()) == u, log + ": the iterator returned by create_edge"); };
    if constexpr (std::is_void_v<EV>) { if (form % 2) done(G.create_edge(VI(u), VI(v))); else done(G.create_edge(ui, vi)); }
    else {
      const auto c = mk<EV>(x);
      switch (form % 5) {
      case 0: done(G.create_edge(VI(u), VI(v), mk<EV>(x))); break;
      case 1: done(G.create_edge(VI(u), VI(v), c)); break;
      case 2: done(G.create_edge(ui, vi, mk<EV>(x))); break;
      case 3: done(G.create_edge(ui, vi, c)); break;
      default: { auto it = form % 2 ? G.create_edge(VI(u), VI(v)) : G.create_edge(ui, vi); done(it); it->value() = c; }
      }
    }
    m[k].e.push_back({u, v, x});
  }
  /// index in the model of the stored edge it refers to
  template <class Eg> size_t find(size_t k, const Eg& e) {
    for (size_t i = 0; i < m[k].e.size(); ++i) {
      auto& x = m[k].e[i];
      if (x.u != size_t(e.list_owner_id()) || x.v != size_t(e.list_target_id())) continue;
      if constexpr (!std::is_void_v<EV>) if (!(e.value() == mk<EV>(x.val))) continue;
      return i;
    }
    fail(log + ": a stored edge is not in the model");
  }
  void erase_at(size_t k, size_t u, size_t j) { // j-th edge of u
    auto& G = *g[k];
    auto& vx = G.vertices()[VI(u)];
    size_t d = vx.num_edges();
    if (!d) return;
    j %= d;
    say(" d" + S(k) + "(" + S(u) + "#" + S(j) + ")");
    auto it = vx.edges_begin(G, VI(u));
    for (size_t i = 0; i < j; ++i) ++it;
    auto nx = it;
    ++nx;
    const void* np = nx == vx.edges_end(G, VI(u)) ? nullptr : &*nx;
    size_t i = find(k, *it);
    auto r = vx.erase_edge(G, it);
    require((r == vx.edges_end(G, VI(u))) == (np == nullptr) && (!np || &*r == np), log + ": erase_edge does not return the next edge");
    m[k].e.erase(m[k].e.begin() + long(i));
  }
  void erase_range(size_t k, size_t u, size_t i, size_t j) {
    auto& G = *g[k];
    auto& vx = G.vertices()[VI(u)];
    size_t d = vx.num_edges();
    i %= d + 1; j = i + j % (d + 1 - i);
    say(" r" + S(k) + "(" + S(u) + "#" + S(i) + ".." + S(j) + ")");
    auto a = vx.edges_begin(G, VI(u));
    for (size_t x = 0; x < i; ++x) ++a;
    auto b = a;
    for (size_t x = i; x < j; ++x) { m[k].e.erase(m[k].e.begin() + long(find(k, *b))); ++b; }
    const void* np = b == vx.edges_end(G, VI(u)) ? nullptr : &*b;
    auto r = vx.erase_edge(G, a, b);
    require((r == vx.edges_end(G, VI(u))) == (np == nullptr) && (!np || &*r == np), log + ": erase_edge(first,last) does not return last");
  }
  void erase_global(size_t k, size_t j) {
    auto& G = *g[k];
    size_t incid = 0;
    for (auto& e : m[k].e) incid += e.u == e.v ? 1 : 2;
    if (!incid) return;
    j %= incid;
    say(" x" + S(k) + "(#" + S(j) + ")");
    typename UG::edge_iterator it(G, G.vertices().begin()), end(G, G.vertices().end());
    for (size_t i = 0; i < j; ++i) ++it;
    const void* me = &*it;
    auto nx = it;
    while (nx != end && &*nx == me) ++nx;
    const void* np = nx == end ? nullptr : &*nx;
    size_t i = find(k, *it);
    auto r = G.erase_edge(it);
    end = typename UG::edge_iterator(G, G.vertices().end());
    require((r == end) == (np == nullptr) && (!np || &*r == np), log + ": erase_edge(edge_iterator) does not return the next edge");
    m[k].e.erase(m[k].e.begin() + long(i));
  }
  void clear_edges(size_t k, size_t u) {
    say(" ce" + S(k) + "(" + S(u) + ")");
    g[k]->vertices()[VI(u)].clear_edges(*g[k]);
    std::erase_if(m[k].e, [&](auto& e) { return e.u == u || e.v == u; });
  }
  void clear(size_t k) { say(" clear" + S(k)); g[k]->clear(); m[k].vv.clear(); m[k].e.clear(); }
  void copy_assign(size_t a, size_t b) { say(" " + S(a) + "=copy " + S(b)); *g[a] = static_cast<const UG&>(*g[b]); m[a] = m[b]; }
  void copy_make(size_t a, size_t b) { say(" " + S(a) + "=new copy " + S(b)); auto p = std::make_unique<UG>(static_cast<const UG&>(*g[b])); auto mm = m[b]; g[a] = std::move(p); m[a] = mm; }
  void move_assign(size_t a, size_t b) {
    if (a == b) return;
    say(" " + S(a) + "=move " + S(b));
    *g[a] = std::move(*g[b]);
    m[a] = m[b];
    moved(b);
  }
  void move_make(size_t a, size_t b) {
    if (a == b) return;
    say(" " + S(a) + "=new move " + S(b));
    g[a] = std::make_unique<UG>(std::move(*g[b]));
    m[a] = m[b];
    moved(b);
  }
  void moved(size_t b) { // empty, and usable again
    m[b] = Model{};
    if constexpr (!std::is_void_v<GV>) g[b]->graph_value() = mk<GV>(0);
  }
  void swap(size_t a, size_t b) { say(" swap " + S(a) + "," + S(b)); g[a]->swap(*g[b]); std::swap(m[a], m[b]); }
  void set_gv(size_t k) { if constexpr (!std::is_void_v<GV>) { m[k].gv = next++; g[k]->graph_value() = mk<GV>(m[k].gv); } }
  void build(size_t k, size_t n, const std::vector<ME>& es, int form) { // constructors
    say(" build" + S(k) + " n=" + S(n) + " m=" + S(es.size()) + " form " + S(size_t(form)));
    Model mm;
    size_t hi = n;
    for (auto& e : es) hi = std::max(hi, std::max(e.u, e.v) + 1);
    std::vector<graph::copyable_edge_t<VI, EV>> in;
    for (auto& e : es) {
      int x = std::is_void_v<EV> ? 0 : next++;
      mm.e.push_back({e.u, e.v, x});
      if constexpr (std::is_void_v<EV>) in.push_back({VI(e.u), VI(e.v)}); else in.push_back({VI(e.u), VI(e.v), mk<EV>(x)});
    }
    if constexpr (!std::is_void_v<VV>) {
      std::vector<graph::copyable_vertex_t<VI, VV>> vs;
      for (size_t i = 0; i < n; ++i) { int x = next++; mm.vv.push_back(x); vs.push_back({VI(i), mk<VV>(x)}); }
      if (!std::is_void_v<GV> && (form == 0 || (form == 1 && n))) {
        if constexpr (!std::is_void_v<GV>) { mm.gv = next++; g[k] = std::make_unique<UG>(in, vs, std::identity{}, std::identity{}, mk<GV>(mm.gv)); }
      } else { hi = 0; for (auto& e : es) hi = std::max(hi, std::max(e.u, e.v) + 1); mm.vv.clear(); edges_only(k, in, mm); }
    } else { hi = 0; for (auto& e : es) hi = std::max(hi, std::max(e.u, e.v) + 1); edges_only(k, in, mm); }
    UG& G = *g[k];
    require(graph::num_vertices(G) == hi, log + ": constructed " + S(graph::num_vertices(G)) + " vertices instead of " + S(hi));
    for (size_t i = mm.vv.size(); i < hi; ++i) {
      int x = next++;
      if constexpr (!std::is_void_v<VV>) graph::vertex_value(G, *graph::find_vertex(G, VI(i))) = mk<VV>(x);
      mm.vv.push_back(x);
    }
    m[k] = mm;
  }
  template <class In> void edges_only(size_t k, const In& in, Model& mm) {
    if constexpr (std::is_void_v<GV>) { // the range constructors are declared but not defined; initializer list, in any order
      using T = std::tuple<VI, VI, EV>;
      auto t = [&](size_t i) { return T(in[i].source_id, in[i].target_id, in[i].value); };
      using L = std::initializer_list<T>;
      switch (in.size()) {
      case 0: g[k] = std::make_unique<UG>(); break;
      case 1: g[k] = std::make_unique<UG>(L{t(0)}); break;
      case 2: g[k] = std::make_unique<UG>(L{t(1), t(0)}); break;
      default: g[k] = std::make_unique<UG>(L{t(1), t(0), t(2)});
      }
    }
    else {
      mm.gv = next++;
      // vertices are given as an empty list of values
      g[k] = std::make_unique<UG>(in, std::vector<int>(), std::identity{}, [](int) { return graph::copyable_vertex_t<VI, VV>{VI(), VV{}}; }, mk<GV>(mm.gv));
    }
  }
  void verify() { for (size_t k = 0; k < g.size(); ++k) check(*g[k], m[k], "graph " + S(k)); }
  explicit World_(size_t n) { for (size_t i = 0; i < n; ++i) { if constexpr (std::is_void_v<GV>) g.push_back(std::make_unique<UG>()); else g.push_back(std::make_unique<UG>(mk<GV>(0))); m.push_back({}); } }
};
using World = World_<UG>;
int main(int argc, char** argv) {
  auto a = start(argc, argv);
  Rng  r(a.seed);
#if SHARD == 4
  // every history of up to 5 operations on two vertices (three edges kinds, erasures, copies)
  for (size_t len = 1; len <= 5; ++len) {
    size_t total = 1;
    for (size_t i = 0; i < len; ++i) total *= 9;
    for (size_t code = 0; code < total; ++code) {
      if (len == 5 && code % 3 != a.seed % 3) continue;
      World w(2);
      begin_case("history", true);
      w.add_vertex(0, 1);
      w.add_vertex(0, 1);
      size_t c = code;
      bool nt = false;
      for (size_t i = 0; i < len; ++i, c /= 9) {
        switch (c % 9) {
        case 0: w.add_edge(0, 0, 1, int(i)); break;
        case 1: w.add_edge(0, 1, 0, int(i)); break;
        case 2: w.add_edge(0, 0, 0, int(i)); break;
        case 3: w.erase_at(0, 0, 0); break;
        case 4: w.erase_at(0, 0, 1000 * w.m[0].e.size() + 999); break;
        case 5: w.erase_at(0, 1, 0); break;
        case 6: w.erase_global(0, 0); break;
        case 7: w.copy_assign(1, 0); break;
        default: w.move_assign(1, 0); w.swap(0, 1); break;
        }
        nt = true;
      }
      (void)nt;
      w.verify();
    }
  }
#endif
  auto t0 = std::chrono::steady_clock::now();
  long done = 0;
  while (done < 150 || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < a.budget) {
    World w(3);
    begin_case("history " + S(size_t(done)), true);
    if (r.chance(40)) {
      size_t n = r.below(6);
      std::vector<ME> es;
      size_t k = r.below(9);
      if (n) for (size_t i = 0; i < k; ++i) es.push_back({r.below(n + 1), r.below(n + 1), 0});
      if (std::is_void_v<GV> && es.size() > 3) es.resize(3);
      std::stable_sort(es.begin(), es.end(), [](auto& x, auto& y) { return x.u < y.u; });
      w.build(0, n, es, int(r.below(3)));
    } else
      for (size_t i = 0, n = 1 + r.below(5); i < n; ++i) w.add_vertex(0, int(r.below(3)));
    w.verify();
    size_t ops = 5 + r.below(done % 10 == 0 ? 200 : 40);
    for (size_t i = 0; i < ops; ++i) {
      size_t k = r.chance(75) ? 0 : r.below(3), n = w.m[k].vv.size(), o = r.below(3);
      size_t what = r.below(100);
      if (!n || what < 6) { w.add_vertex(k, int(r.below(3))); }
      else if (what < 55) w.add_edge(k, r.below(n), r.chance(15) ? 0 : r.below(n), int(r.below(10)));
      else if (what < 70) w.erase_at(k, r.below(n), r.below(50));
      else if (what < 76) w.erase_global(k, r.below(50));
      else if (what < 80) w.erase_range(k, r.below(n), r.below(20), r.below(20));
      else if (what < 84) w.clear_edges(k, r.below(n));
      else if (what < 85) w.clear(k);
      else if (what < 88) w.copy_assign(o, k);
      else if (what < 90) w.copy_make(o, k);
      else if (what < 93) w.move_assign(o, k);
      else if (what < 95) w.move_make(o, k);
      else if (what < 98) w.swap(o, k);
      else w.set_gv(k);
      if (ops < 60 || i % 16 == 0) w.verify();
    }
    w.verify();
    ++done;
  }
  return finish();
}
