// SHARDS 6
// C23: BFS, DFS and topological views traverse exactly what they promise.
#include "bidir.hpp"
#include <deque>
#include <graph/container/undirected_adjacency_list.hpp>
#include <graph/views/bfs.hpp>
#include <graph/views/dfs.hpp>
#include <graph/views/topological_sort.hpp>
using namespace rac;
namespace gv = graph::views;
inline std::string S(size_t x) { return std::to_string(x); }
using Adj = std::vector<std::vector<size_t>>; // neighbours in the direction searched

/// what a search yielded: the vertex reached, the vertex it was reached from (npos: unknown), depth() at that moment
struct Y { size_t v, from, depth; };
constexpr size_t npos = size_t(-1);
struct Plan { size_t all_at = npos; uint64_t branch = 0; bool br(size_t k) const { return branch >> (k % 64) & 1; } };

template <class V, class F>
std::vector<Y> run(V& view, size_t limit, const Plan& p, std::vector<char>& cut, F f, const std::string& what, size_t& visited_end, size_t& depth_end) {
  std::vector<Y> out;
  size_t k = 0;
  for (auto it = view.begin(); it != view.end();) {
    require(out.size() <= limit, what + ": does not end");
    Y y = f(*it);
    y.depth = view.depth();
    out.push_back(y);
    if (k == p.all_at) view.cancel(gv::cancel_search::cancel_all);
    else if (p.br(k)) { view.cancel(gv::cancel_search::cancel_branch); cut[y.v] = 1; }
    if (k % 3 == 1) it++; else ++it;
    require(k != p.all_at || it == view.end(), what + ": goes on after cancel_all");
    ++k;
  }
  visited_end = view.num_visited();
  depth_end   = view.depth();
  return out;
}
inline std::vector<size_t> dist(const Adj& a, size_t s, const std::vector<char>& cut) {
  std::vector<size_t> d(a.size(), npos), q{s};
  d[s] = 0;
  for (size_t i = 0; i < q.size(); ++i)
    if (!cut[q[i]])
      for (size_t w : a[q[i]])
        if (d[w] == npos) { d[w] = d[q[i]] + 1; q.push_back(w); }
  return d;
}
inline void judge(const std::vector<Y>& ys, const Adj& a, size_t s, const std::vector<char>& cut, const Plan& p, bool bfs, bool edges, size_t nv, size_t dend, const std::string& what) {
  size_t n = a.size();
  auto   d = dist(a, s, cut);
  std::vector<char> seen(n, 0);
  size_t k0 = 0;
  if (!edges) {
    require(!ys.empty() && ys[0].v == s, what + ": the seed is not first");
    k0 = 1;
  }
  seen[s] = 1;
  for (size_t k = k0; k < ys.size(); ++k) {
    require(ys[k].v < n && d[ys[k].v] != npos, what + ": yields " + S(ys[k].v) + ", reachable only through a cancelled branch or not at all");
    require(!seen[ys[k].v], what + ": yields " + S(ys[k].v) + " twice (or the seed)");
    seen[ys[k].v] = 1;
  }
  if (p.all_at == npos) {
    for (size_t v = 0; v < n; ++v) require(d[v] == npos || seen[v], what + ": does not yield " + S(v));
    require(nv == ys.size() - k0, what + ": num_visited() is " + S(nv) + " after " + S(ys.size()));
  }
  if (bfs) {
    size_t last = 0, mx = 0;
    for (size_t k = 0; k < ys.size(); ++k) {
      size_t x = d[ys[k].v];
      require(x >= last, what + ": depth decreases at element " + S(k));
      last = x; mx = std::max(mx, x);
      if (ys[k].from != npos) require(d[ys[k].from] + 1 == x && !cut[ys[k].from] && std::count(a[ys[k].from].begin(), a[ys[k].from].end(), ys[k].v), what + ": not a tree edge at " + S(k));
      require(edges ? ys[k].depth == x : (ys[k].depth == x || ys[k].depth == x + 1), what + ": depth() is " + S(ys[k].depth) + " at a vertex of depth " + S(x));
    }
    if (p.all_at == npos) require(dend == mx, what + ": depth() is " + S(dend) + " at the end");
  } else {
    std::vector<size_t> st;
    std::vector<char>   vis(n, 0);
    vis[s] = 1;
    st.push_back(s);
    if (!edges) require(ys[0].depth == 1, what + ": depth() of the seed");
    // cut is only known in the end, and a vertex is cut when it is yielded, before any of its neighbours
    for (size_t k = k0; k < ys.size(); ++k) {
      auto open = [&](size_t t) { if (cut[t]) return false; for (size_t w : a[t]) if (!vis[w]) return true; return false; };
      while (!st.empty() && !open(st.back())) st.pop_back();
      require(!st.empty(), what + ": nothing left to explore before element " + S(k));
      size_t t = st.back(), v = ys[k].v;
      require(std::count(a[t].begin(), a[t].end(), v) && !vis[v], what + ": " + S(v) + " is not an unvisited neighbour of " + S(t) + " (not a preorder)");
      require(ys[k].from == npos || ys[k].from == t, what + ": the edge to " + S(v) + " does not start at " + S(t));
      vis[v] = 1;
      st.push_back(v);
      require(ys[k].depth == st.size(), what + ": depth() is " + S(ys[k].depth) + " instead of " + S(st.size()));
    }
    if (p.all_at == npos) require(dend == 0, what + ": depth() at the end");
  }
}
template <class Acc, bool DEF, class G>
void searches(G& g, const Adj& a, size_t s, const Plan& p, const std::string& nm) {
  using namespace graph;
  using Id = std::remove_cvref_t<vertex_id_t<G>>;
  constexpr bool IN = std::is_same_v<Acc, gv::in_edge_accessor>;
  auto vid  = [&](auto&& u) { return size_t(vertex_id(g, u)); };
  auto to   = [&](auto&& e) { if constexpr (IN) return size_t(source_id(g, e)); else return size_t(target_id(g, e)); };
  auto from = [&](auto&& e) { if constexpr (IN) return size_t(target_id(g, e)); else return size_t(source_id(g, e)); };
  auto vvf = [](const auto& gg, auto v) { return size_t(vertex_id(gg, v)) * 5 + 2; };
  auto evf = [](const auto& gg, auto e) { return size_t(target_id(gg, e)) * 7 + size_t(source_id(gg, e)) * 1000 + 3; };
  auto fv  = [&](auto&& x) { auto&& [u] = x; return Y{vid(u), npos, 0}; };
  auto fvv = [&](auto&& x) { auto&& [u, val] = x; require(val == vid(u) * 5 + 2, nm + ": value of a vertex"); return Y{vid(u), npos, 0}; };
  auto fe  = [&](auto&& x) { auto&& [uv] = x; return Y{to(uv), from(uv), 0}; };
  auto fev = [&](auto&& x) { auto&& [uv, val] = x; require(val == size_t(target_id(g, uv)) * 7 + size_t(source_id(g, uv)) * 1000 + 3, nm + ": value of an edge"); return Y{to(uv), from(uv), 0}; };
  auto one = [&](auto view, auto f, bool bfs, bool edges, const std::string& what) {
    std::vector<char> cut(a.size(), 0);
    size_t nv = 0, de = 0;
    if (!edges || bfs) require(view.depth() == (bfs ? 0 : 1), nm + ": " + what + ": depth() before the search");
    require(view.num_visited() == 0, nm + ": " + what + ": num_visited() before the search");
    auto ys = run(view, a.size(), p, cut, f, nm + ": " + what, nv, de);
    judge(ys, a, s, cut, p, bfs, edges, nv, de, nm + ": " + what);
  };
  auto u  = *find_vertex(g, Id(s));
  auto sd = Id(s);
  std::allocator<bool> al;
  if constexpr (DEF) {
    one(gv::vertices_bfs(g, sd), fv, true, false, "vertices_bfs(g,id)");
    one(gv::vertices_bfs(g, u), fv, true, false, "vertices_bfs(g,u)");
    one(gv::vertices_bfs(g, sd, vvf), fvv, true, false, "vertices_bfs(g,id,f)");
    one(gv::vertices_bfs(g, u, vvf, al), fvv, true, false, "vertices_bfs(g,u,f,alloc)");
    one(gv::edges_bfs(g, sd), fe, true, true, "edges_bfs(g,id)");
    one(gv::edges_bfs(g, u, al), fe, true, true, "edges_bfs(g,u,alloc)");
    one(gv::edges_bfs(g, u, evf), fev, true, true, "edges_bfs(g,u,f)");
    one(gv::edges_bfs(g, sd, evf, al), fev, true, true, "edges_bfs(g,id,f,alloc)");
    one(gv::vertices_dfs(g, sd), fv, false, false, "vertices_dfs(g,id)");
    one(gv::vertices_dfs(g, u, al), fv, false, false, "vertices_dfs(g,u,alloc)");
    one(gv::vertices_dfs(g, u, vvf), fvv, false, false, "vertices_dfs(g,u,f)");
    one(gv::vertices_dfs(g, sd, vvf, al), fvv, false, false, "vertices_dfs(g,id,f,alloc)");
    one(gv::edges_dfs(g, sd), fe, false, true, "edges_dfs(g,id)");
    one(gv::edges_dfs(g, u), fe, false, true, "edges_dfs(g,u)");
    one(gv::edges_dfs(g, sd, evf), fev, false, true, "edges_dfs(g,id,f)");
    one(gv::edges_dfs(g, u, evf, al), fev, false, true, "edges_dfs(g,u,f,alloc)");
  } else {
    one(gv::vertices_bfs<Acc>(g, sd), fv, true, false, "vertices_bfs<Acc>(g,id)");
    one(gv::vertices_bfs<Acc>(g, u, vvf), fvv, true, false, "vertices_bfs<Acc>(g,u,f)");
    one(gv::edges_bfs<Acc>(g, u), fe, true, true, "edges_bfs<Acc>(g,u)");
    one(gv::edges_bfs<Acc>(g, sd, evf), fev, true, true, "edges_bfs<Acc>(g,id,f)");
    one(gv::vertices_dfs<Acc>(g, u), fv, false, false, "vertices_dfs<Acc>(g,u)");
    one(gv::vertices_dfs<Acc>(g, sd, vvf), fvv, false, false, "vertices_dfs<Acc>(g,id,f)");
    one(gv::edges_dfs<Acc>(g, sd), fe, false, true, "edges_dfs<Acc>(g,id)");
    one(gv::edges_dfs<Acc>(g, u, evf), fev, false, true, "edges_dfs<Acc>(g,u,f)");
  }
}
/// every vertex once, edges forward; edges grouped by source in that order; safe variants
template <class Acc, bool DEF, class G>
void topo(G& g, const Adj& a, const std::string& nm) {
  using namespace graph;
  constexpr bool IN = std::is_same_v<Acc, gv::in_edge_accessor>;
  size_t n = a.size();
  auto vid  = [&](auto&& u) { return size_t(vertex_id(g, u)); };
  auto to   = [&](auto&& e) { if constexpr (IN) return size_t(source_id(g, e)); else return size_t(target_id(g, e)); };
  auto from = [&](auto&& e) { if constexpr (IN) return size_t(target_id(g, e)); else return size_t(source_id(g, e)); };
  auto vvf = [](const auto& gg, auto v) { return size_t(vertex_id(gg, v)) * 5 + 2; };
  auto evf = [](const auto& gg, auto e) { return size_t(target_id(gg, e)) * 7 + size_t(source_id(gg, e)) * 1000 + 3; };
  auto fv  = [&](auto&& x) { auto&& [u] = x; return vid(u); };
  auto fvv = [&](auto&& x) { auto&& [u, val] = x; require(val == vid(u) * 5 + 2, nm + ": value of a vertex"); return vid(u); };
  using P = std::pair<size_t, size_t>;
  auto fe  = [&](auto&& x) { auto&& [uv] = x; return P{from(uv), to(uv)}; };
  auto fev = [&](auto&& x) { auto&& [uv, val] = x; require(val == size_t(target_id(g, uv)) * 7 + size_t(source_id(g, uv)) * 1000 + 3, nm + ": value of an edge"); return P{from(uv), to(uv)}; };
  EL el; el.n = n;
  for (size_t u = 0; u < n; ++u) for (size_t w : a[u]) el.e.push_back({u, w, 0});
  std::vector<std::vector<char>> r;
  bool cyc = false;
  std::vector<char> on(n, 0);
  if (n <= 40) {
    r = closure(el);
    for (auto& e : el.e) if (r[e.v][e.u]) { cyc = true; for (size_t x = 0; x < n; ++x) if (r[e.v][x] && r[x][e.u]) on[x] = 1; }
  } else {
    std::vector<size_t> deg(n, 0), q;
    for (auto& e : el.e) ++deg[e.v];
    for (size_t i = 0; i < n; ++i) if (!deg[i]) q.push_back(i);
    for (size_t i = 0; i < q.size(); ++i) for (size_t w : a[q[i]]) if (!--deg[w]) q.push_back(w);
    cyc = q.size() != n;
    for (auto& x : on) x = 1;
  }
  auto seq = [&](auto& view, auto f, const std::string& what, size_t lim) {
    std::vector<std::remove_cvref_t<decltype(f(*view.begin()))>> o;
    for (auto it = view.begin(); it != view.end();) { require(o.size() <= lim, what + ": too many elements"); o.push_back(f(*it)); if (o.size() % 2) ++it; else it++; }
    return o;
  };
  auto verts = [&](auto view, auto f, const std::string& w) {
    auto what = nm + ": " + w;
    require(view.num_visited() == 0, what + ": num_visited() before");
    auto o = seq(view, f, what, n);
    require(view.num_visited() == n, what + ": num_visited()");
    require(view.size() == n, what + ": size()");
    std::vector<size_t> pos(n, npos);
    for (size_t i = 0; i < o.size(); ++i) { require(o[i] < n && pos[o[i]] == npos, what + ": yields " + S(o[i]) + " twice"); pos[o[i]] = i; }
    require(o.size() == n, what + ": misses a vertex");
    if (!cyc) for (auto& e : el.e) require(pos[e.u] < pos[e.v], what + ": the edge " + S(e.u) + "->" + S(e.v) + " goes backward");
    require(seq(view, f, what, n) == o, what + ": a second pass differs");
    size_t k = 0, stop = n / 2;
    for (auto it = view.begin(); it != view.end(); ++it) { require(f(*it) == o[k], what + ": a third pass differs"); if (k++ == stop) view.cancel(k % 2 ? gv::cancel_search::cancel_all : gv::cancel_search::cancel_branch); require(k <= stop + 1, what + ": goes on after cancel"); }
    return o;
  };
  auto edgs = [&](auto view, auto f, const std::vector<size_t>& ord, const std::string& w) {
    auto what = nm + ": " + w;
    auto o = seq(view, f, what, el.e.size());
    size_t k = 0;
    for (size_t u : ord) for (size_t j = 0; j < a[u].size(); ++j) { require(k < o.size(), what + ": misses edges"); require(o[k] == P{u, a[u][j]}, what + ": edge " + S(k) + " is " + S(o[k].first) + "->" + S(o[k].second)); ++k; }
    require(k == o.size(), what + ": too many edges");
    size_t nz = 0;
    for (size_t u : ord) nz += !a[u].empty();
    require(view.num_visited() >= nz && view.num_visited() <= n, what + ": num_visited()");
    require(seq(view, f, what, el.e.size()) == o, what + ": a second pass differs");
    view.cancel(gv::cancel_search::cancel_all);
    require(!(view.begin() != view.end()), what + ": goes on after cancel");
  };
  auto safe = [&](auto&& ex, auto ok, const std::string& w) {
    require(bool(ex) == !cyc, nm + ": " + w + (cyc ? ": no cycle reported" : ": reports a cycle"));
    if (ex) ok(*ex); else require(vid(ex.error()) < n && on[vid(ex.error())], nm + ": " + w + ": the reported vertex is on no cycle");
  };
  std::allocator<bool> al;
  if constexpr (DEF) {
    auto o = verts(gv::vertices_topological_sort(g), fv, "vertices_topological_sort(g)");
    require(verts(gv::vertices_topological_sort(g, vvf), fvv, "vertices_topological_sort(g,f)") == o, nm + ": orders differ");
    verts(gv::vertices_topological_sort(g, al), fv, "vertices_topological_sort(g,alloc)");
    verts(gv::vertices_topological_sort(g, vvf, al), fvv, "vertices_topological_sort(g,f,alloc)");
    edgs(gv::edges_topological_sort(g), fe, o, "edges_topological_sort(g)");
    edgs(gv::edges_topological_sort(g, evf), fev, o, "edges_topological_sort(g,f)");
    edgs(gv::edges_topological_sort(g, al), fe, o, "edges_topological_sort(g,alloc)");
    edgs(gv::edges_topological_sort(g, evf, al), fev, o, "edges_topological_sort(g,f,alloc)");
    safe(gv::vertices_topological_sort_safe(g), [&](auto& v) { verts(v, fv, "vertices_topological_sort_safe(g)"); }, "vertices_topological_sort_safe(g)");
    safe(gv::vertices_topological_sort_safe(g, vvf), [&](auto& v) { verts(v, fvv, "vertices_topological_sort_safe(g,f)"); }, "vertices_topological_sort_safe(g,f)");
    safe(gv::vertices_topological_sort_safe(g, al), [&](auto& v) { verts(v, fv, "vertices_topological_sort_safe(g,alloc)"); }, "vertices_topological_sort_safe(g,alloc)");
    safe(gv::vertices_topological_sort_safe(g, vvf, al), [&](auto& v) { verts(v, fvv, "vertices_topological_sort_safe(g,f,alloc)"); }, "vertices_topological_sort_safe(g,f,alloc)");
    safe(gv::edges_topological_sort_safe(g), [&](auto& v) { edgs(v, fe, o, "edges_topological_sort_safe(g)"); }, "edges_topological_sort_safe(g)");
    safe(gv::edges_topological_sort_safe(g, evf), [&](auto& v) { edgs(v, fev, o, "edges_topological_sort_safe(g,f)"); }, "edges_topological_sort_safe(g,f)");
    safe(gv::edges_topological_sort_safe(g, al), [&](auto& v) { edgs(v, fe, o, "edges_topological_sort_safe(g,alloc)"); }, "edges_topological_sort_safe(g,alloc)");
    safe(gv::edges_topological_sort_safe(g, evf, al), [&](auto& v) { edgs(v, fev, o, "edges_topological_sort_safe(g,f,alloc)"); }, "edges_topological_sort_safe(g,f,alloc)");
  } else {
    auto o = verts(gv::vertices_topological_sort<Acc>(g), fv, "vertices_topological_sort<Acc>(g)");
    verts(gv::vertices_topological_sort<Acc>(g, vvf), fvv, "vertices_topological_sort<Acc>(g,f)");
    edgs(gv::edges_topological_sort<Acc>(g), fe, o, "edges_topological_sort<Acc>(g)");
    edgs(gv::edges_topological_sort<Acc>(g, evf), fev, o, "edges_topological_sort<Acc>(g,f)");
    safe(gv::vertices_topological_sort_safe<Acc>(g), [&](auto& v) { verts(v, fv, "vertices_topological_sort_safe<Acc>(g)"); }, "vertices_topological_sort_safe<Acc>(g)");
    safe(gv::vertices_topological_sort_safe<Acc>(g, vvf), [&](auto& v) { verts(v, fvv, "vertices_topological_sort_safe<Acc>(g,f)"); }, "vertices_topological_sort_safe<Acc>(g,f)");
    safe(gv::edges_topological_sort_safe<Acc>(g), [&](auto& v) { edgs(v, fe, o, "edges_topological_sort_safe<Acc>(g)"); }, "edges_topological_sort_safe<Acc>(g)");
    safe(gv::edges_topological_sort_safe<Acc>(g, evf), [&](auto& v) { edgs(v, fev, o, "edges_topological_sort_safe<Acc>(g,f)"); }, "edges_topological_sort_safe<Acc>(g,f)");
  }
}
template <class Acc, bool DEF, class G>
void searches_all(G& g, const Adj& a, Rng& r, const std::string& nm) {
  size_t n = a.size();
  for (size_t s = 0; s < n; s += 1 + (n > 4 ? r.below(n) : 0)) {
    std::vector<Plan> ps{{}, {npos, r.next()}, {npos, r.next() & r.next() & r.next()}, {r.below(n), r.next() & r.next()}, {npos, ~0ull}};
    if (n <= 3) for (uint64_t m = 1; m < 8; ++m) ps.push_back({npos, m});
    for (auto& p : ps) {
      note(nm + " seed " + S(s) + (p.all_at == npos ? "" : " cancel_all at " + S(p.all_at)) + " cancel_branch mask " + S(p.branch));
      searches<Acc, DEF>(g, a, s, p, nm);
    }
  }
}
template <class Acc, bool DEF, class G>
void topo_all(G& g, const Adj& a, const std::string& nm) {
  note(nm + " topological");
  topo<Acc, DEF>(g, a, nm);
}
int main(int argc, char** argv) {
  auto a0 = start(argc, argv);
  Rng  r(a0.seed);
  Opt  o;
  o.max_n = 9;
  o.byrow = (SHARD == 2);
  drive(r, o, a0.budget, [&](EL& el, Rng& r) {
    Adj out(el.n), in(el.n);
    if (SHARD >= 4 && r.chance(60)) for (auto& e : el.e) if (e.u > e.v) std::swap(e.u, e.v); // more acyclic graphs
    for (auto& e : el.e) { out[e.u].push_back(e.v); in[e.v].push_back(e.u); }
    auto iv = edge_input(el);
    using O [[maybe_unused]] = gv::out_edge_accessor;
    using I [[maybe_unused]] = gv::in_edge_accessor;
#if SHARD == 0 || SHARD == 4
    std::vector<std::vector<std::pair<uint32_t, double>>> g(el.n);
    for (auto& e : el.e) g[e.u].push_back({uint32_t(e.v), e.w});
    const auto& cg = g;
#if SHARD == 0
    searches_all<O, true>(g, out, r, "vector of vectors");
    (void)cg;
#else
    topo_all<O, true>(g, out, "vector of vectors");
    topo_all<O, true>(cg, out, "const vector of vectors");
#endif
#elif SHARD == 1 || SHARD == 5
    BG g;
    if (el.n) g.resize_vertices(el.n);
    g.load_edges(iv, std::identity{}, el.n);
    BL h;
    if (el.n) h.resize_vertices(el.n);
    h.load_edges(iv, std::identity{}, el.n);
#if SHARD == 1
    searches_all<I, false>(g, in, r, "in-edges, vectors");
    searches_all<O, false>(h, out, r, "out-edges, lists");
#else
    topo_all<I, false>(g, in, "in-edges, vectors");
    topo_all<O, false>(h, out, "out-edges, lists");
#endif
#elif SHARD == 2
    if (el.e.empty()) return;
    CG g = make_compressed(el);
    Adj c = out;
    c.resize(graph::num_vertices(g));
    searches_all<O, true>(g, c, r, "compressed_graph");
    topo_all<O, true>(g, c, "compressed_graph");
#else
    using UG = graph::container::undirected_adjacency_list<int, int>;
    UG g;
    for (size_t i = 0; i < el.n; ++i) g.create_vertex(int(i));
    Adj ua(el.n);
    for (auto& e : el.e) {
      if (e.u == e.v) continue;
      g.create_edge(uint32_t(e.u), uint32_t(e.v), int(e.w));
      ua[e.u].push_back(e.v);
      ua[e.v].push_back(e.u);
    }
    searches_all<O, true>(g, ua, r, "undirected_adjacency_list");
    DG d = make_dynamic(el);
    searches_all<O, false>(d, out, r, "dynamic_graph");
    topo_all<O, true>(d, out, "dynamic_graph");
#endif
  });
  return finish();
}
