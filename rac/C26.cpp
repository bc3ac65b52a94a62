// C26: source_id, target_id and edge_value of edge-list elements return the stored components unchanged.
#include "rac.hpp"
#include <deque>
#include <graph/edge_list/edge_list.hpp>
#include <graph/edge_list/edge_list_descriptor.hpp>
#include <graph/graph.hpp>
#include <list>
#include <string>
#include <tuple>
using namespace rac;
template <class X> X mk(uint64_t k) {
  if constexpr (std::is_same_v<X, std::string>) return "v" + std::to_string(k) + std::string(k % 40, 'x');
  else return X(k);
}
/// el: the list; S,T,V: what each element must report
template <bool HasV, class EL, class SF, class TF, class VF>
void list_is(EL&& el, size_t n, SF sf, TF tf, VF vf, const std::string& what) {
  note(what);
  static_assert(graph::edge_list::basic_sourced_edgelist<std::remove_cvref_t<EL>>);
  static_assert(graph::edge_list::has_edge_value<std::remove_cvref_t<EL>> == HasV);
  size_t k = 0;
  for (auto&& e : el) {

    require(k < n, what + ": too many elements");
    require(graph::source_id(el, e) == sf(k), what + ": source_id of element " + std::to_string(k));
    require(graph::target_id(el, e) == tf(k), what + ": target_id of element " + std::to_string(k));
    if constexpr (HasV) require(graph::edge_value(el, e) == vf(k), what + ": edge_value of element " + std::to_string(k));
    const auto& c = e;
    require(graph::source_id(std::as_const(el), c) == sf(k) && graph::target_id(std::as_const(el), c) == tf(k), what + ": const access to element " + std::to_string(k));
    if constexpr (HasV) {
      require(graph::edge_value(std::as_const(el), c) == vf(k), what + ": const edge_value of element " + std::to_string(k));
      require(std::is_same_v<graph::edge_list::edge_value_t<std::remove_cvref_t<EL>>, std::remove_cvref_t<decltype(vf(k))>>, what + ": edge_value_t");
    }
    require(std::is_same_v<graph::edge_list::vertex_id_t<std::remove_cvref_t<EL>>, std::remove_cvref_t<decltype(sf(k))>>, what + ": vertex_id_t");
    std::remove_cvref_t<decltype(e)> cp(e);
    require(graph::source_id(el, cp) == sf(k) && graph::target_id(el, cp) == tf(k), what + ": copied element " + std::to_string(k));
    ++k;
  }
  require(k == n, what + ": too few elements");
}
template <class Id, class V, template <class...> class C>
void shapes(const std::vector<std::array<uint64_t, 3>>& raw, const std::string& nm) {
  size_t n  = raw.size();
  std::vector<Id> s, t;
  std::vector<V>  v;
  for (auto& r : raw) { s.push_back(mk<Id>(r[0])); t.push_back(mk<Id>(r[1])); v.push_back(mk<V>(r[2])); }
  auto sf = [&](size_t k) -> const Id& { return s[k]; };
  auto tf = [&](size_t k) -> const Id& { return t[k]; };
  auto vf = [&](size_t k) -> const V& { return v[k]; };
  C<std::pair<Id, Id>>                         pl;
  C<std::tuple<Id, Id>>                        t2;
  C<std::tuple<Id, Id, V>>                     t3;
  C<std::tuple<Id, Id, V, int>>                t4;
  C<graph::edge_data<Id, true, void, void>>    d0;
  C<graph::edge_data<Id, true, void, V>>       d1;
  C<graph::edge_data<Id, true, int, V>>        d2;
  C<graph::edge_data<Id, true, int&, V>>       d3;
  C<graph::edge_list::edge_descriptor<Id>>     e0;
  C<graph::edge_list::edge_descriptor<Id, V>>  e1;
  std::vector<int> aux(n + 1, 7);
  for (size_t k = 0; k < n; ++k) {
    pl.push_back({s[k], t[k]});
    t2.push_back({s[k], t[k]});
    t3.push_back({s[k], t[k], v[k]});
    t4.push_back({s[k], t[k], v[k], -5});
    d0.push_back({s[k], t[k]});
    d1.push_back({s[k], t[k], v[k]});
    d2.push_back({s[k], t[k], 9, v[k]});
    d3.push_back({s[k], t[k], aux[k], v[k]});
    e0.emplace_back(s[k], t[k]);
    e1.emplace_back(s[k], t[k], v[k]);
  }
  list_is<false>(pl, n, sf, tf, vf, nm + " of pair");
  list_is<false>(t2, n, sf, tf, vf, nm + " of tuple2");
  list_is<true>(t3, n, sf, tf, vf, nm + " of tuple3");
  list_is<true>(t4, n, sf, tf, vf, nm + " of tuple4");
  list_is<false>(d0, n, sf, tf, vf, nm + " of edge_data");
  list_is<true>(d1, n, sf, tf, vf, nm + " of edge_data with value");
  list_is<true>(d2, n, sf, tf, vf, nm + " of edge_data with edge and value");
  list_is<true>(d3, n, sf, tf, vf, nm + " of edge_data with edge reference and value");
  list_is<false>(e0, n, sf, tf, vf, nm + " of edge_descriptor");
  list_is<true>(e1, n, sf, tf, vf, nm + " of edge_descriptor with value");
  for (size_t i = 0; i < n && i < 8; ++i)
    for (size_t j = 0; j < n && j < 8; ++j) {
      auto it = std::next(e1.begin(), long(i)), jt = std::next(e1.begin(), long(j));
      require((*it == *jt) == (std::tie(s[i], t[i], v[i]) == std::tie(s[j], t[j], v[j])), nm + ": equality of edge descriptors");
      if constexpr (!std::is_floating_point_v<V>) require(((*it <=> *jt) < 0) == (std::tie(s[i], t[i], v[i]) < std::tie(s[j], t[j], v[j])), nm + ": order of edge descriptors");
    }
}
/// the elements yielded by views::edgelist are edge-list elements as well
void from_graph(const EL& el) {
  std::vector<std::vector<std::pair<uint32_t, double>>> g(el.n);
  std::vector<std::array<double, 3>> want;
  for (auto& e : el.e) g[e.u].push_back({uint32_t(e.v), e.w});
  for (size_t u = 0; u < el.n; ++u) for (auto& [v, w] : g[u]) want.push_back({double(u), double(v), w});
  using ED = graph::edge_data<uint32_t, true, void, double>;
  std::vector<ED> d;
  for (auto&& [s, t, uv, val] : graph::views::edgelist(g, [](const auto& gg, const auto& uv) { return graph::edge_value(gg, uv); }))
    d.push_back({uint32_t(s), uint32_t(t), val});
  list_is<true>(d, want.size(), [&](size_t k) { return uint32_t(want[k][0]); }, [&](size_t k) { return uint32_t(want[k][1]); },
                [&](size_t k) { return want[k][2]; }, "edgelist of a graph");
}
int main(int argc, char** argv) {
  auto a = start(argc, argv);
  Rng  r(a.seed);
  Opt  o;
  o.big = false;
  drive(r, o, a.budget, [&](EL& el, Rng& r) {
    std::vector<std::array<uint64_t, 3>> raw;
    uint64_t huge = r.chance(30) ? 0xfffffff0ull : 0;
    for (auto& e : el.e) raw.push_back({e.u + huge, e.v + huge / 2, uint64_t(e.w)});
    auto small = raw;
    for (auto& x : small) for (auto& y : x) y &= 0x7f;
    shapes<uint32_t, double, std::vector>(raw, "vector<u32>");
    shapes<uint64_t, int, std::deque>(raw, "deque<u64>");
    shapes<int, double, std::list>(small, "list<int>");
    shapes<uint8_t, long, std::vector>(small, "vector<u8>");
    shapes<std::string, std::string, std::vector>(small, "vector<string>");
    from_graph(el);
  });
  return finish();
}
