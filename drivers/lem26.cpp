// C26: every access function of edge lists returns the stored component, for every element shape
#include "vcd.hpp"
#include <cstdint>
#include <graph/edge_list/edge_list.hpp>
#include <graph/edge_list/edge_list_descriptor.hpp>
#include <graph/graph.hpp>
#include <tuple>
#include <utility>
#include <vector>
namespace vcd {
struct Val { // an arbitrary value type
  long a;
  double b;
  bool operator==(const Val&) const = default;
};
template <class T, class EL> constexpr bool ids_are = std::is_same_v<graph::edge_list::vertex_id_t<EL>, T>;

template <class EL> void C26_pair(EL& el, std::ranges::range_value_t<EL>& e) {
  using graph::source_id, graph::target_id;
  ensure(source_id(el, e) == e.first, "source_id(el,e) is the stored source");
  ensure(target_id(el, e) == e.second, "target_id(el,e) is the stored target");
  const auto& ce = e;
  ensure(source_id(std::as_const(el), ce) == e.first, "source_id of a const element");
  ensure(target_id(std::as_const(el), ce) == e.second, "target_id of a const element");
}
template <class EL> void C26_tuple(EL& el, std::ranges::range_value_t<EL>& e) {
  using graph::source_id, graph::target_id, graph::edge_value;
  ensure(source_id(el, e) == std::get<0>(e), "source_id(el,e) is the stored source");
  ensure(target_id(el, e) == std::get<1>(e), "target_id(el,e) is the stored target");
  const auto& ce = e;
  ensure(source_id(std::as_const(el), ce) == std::get<0>(e), "source_id of a const element");
  ensure(target_id(std::as_const(el), ce) == std::get<1>(e), "target_id of a const element");
  if constexpr (std::tuple_size_v<std::ranges::range_value_t<EL>> > 2) {
    ensure(edge_value(el, e) == std::get<2>(e), "edge_value(el,e) is the stored value");
    ensure(edge_value(std::as_const(el), ce) == std::get<2>(e), "edge_value of a const element");
  }
}
template <class E> void C26_edge_data(std::vector<int>& el, E& e) {
  using graph::source_id, graph::target_id, graph::edge_value;
  ensure(source_id(el, e) == e.source_id, "source_id(el,e) is the stored source");
  ensure(target_id(el, e) == e.target_id, "target_id(el,e) is the stored target");
  const auto& ce = e;
  ensure(source_id(std::as_const(el), ce) == e.source_id, "source_id of a const element");
  ensure(target_id(std::as_const(el), ce) == e.target_id, "target_id of a const element");
  if constexpr (requires { e.value; }) {
    ensure(edge_value(el, e) == e.value, "edge_value(el,e) is the stored value");
    ensure(edge_value(std::as_const(el), ce) == e.value, "edge_value of a const element");
  }
}
template <class VId> void C26_descriptor(std::vector<int>& el, const VId& s, const VId& t) {
  using graph::source_id, graph::target_id;
  graph::edge_list::edge_descriptor<VId> e(s, t);
  ensure(source_id(el, e) == s, "source_id(el,e) is the referenced source");
  ensure(target_id(el, e) == t, "target_id(el,e) is the referenced target");
  graph::edge_list::edge_descriptor<VId> c(e);
  ensure(source_id(el, c) == s && target_id(el, c) == t, "a copy refers to the same edge");
  ensure(c == e, "a copy equals the original");
}
template <class VId, class EV>
void C26_descriptor_value(std::vector<int>& el, const VId& s, const VId& t, const EV& v, const VId& s2, const VId& t2, const EV& v2) {
  using graph::source_id, graph::target_id, graph::edge_value;
  graph::edge_list::edge_descriptor<VId, EV> e(s, t, v);
  ensure(source_id(el, e) == s, "source_id(el,e) is the referenced source");
  ensure(target_id(el, e) == t, "target_id(el,e) is the referenced target");
  ensure(edge_value(el, e) == v, "edge_value(el,e) is the referenced value");
  graph::edge_list::edge_descriptor<VId, EV> c(e);
  ensure(source_id(el, c) == s && target_id(el, c) == t && edge_value(el, c) == v, "a copy refers to the same edge");
  graph::edge_list::edge_descriptor<VId, EV> d(s2, t2, v2);
  ensure((e == d) == (s == s2 && t == t2 && v == v2), "equality compares source, target and value");
}
template <class VId, class EV>
void C26_descriptor_order(const VId& s, const VId& t, const EV& v, const VId& s2, const VId& t2, const EV& v2) {
  graph::edge_list::edge_descriptor<VId, EV> e(s, t, v), d(s2, t2, v2);
  ensure((e < d) == (s < s2 || (s == s2 && (t < t2 || (t == t2 && v < v2)))), "order compares source, then target, then value");
  ensure((e > d) == (d < e) && (e <= d) == !(d < e), "the order operators agree");
  graph::edge_list::edge_descriptor<VId> p(s, t), q(s2, t2);
  ensure((p < q) == (s < s2 || (s == s2 && t < t2)), "order compares source, then target");
}
template <class Id, class V> void shapes() {
  using namespace graph;
  auto lists = []<class E>(void (*f)(std::vector<E>&, E&)) { (void)f; };
  lists(C26_pair<std::vector<std::pair<Id, Id>>>);
  lists(C26_tuple<std::vector<std::tuple<Id, Id>>>);
  lists(C26_tuple<std::vector<std::tuple<Id, Id, V>>>);
  lists(C26_tuple<std::vector<std::tuple<Id, Id, V, int>>>);
  (void)&C26_edge_data<edge_data<Id, true, void, void>>;
  (void)&C26_edge_data<edge_data<Id, true, void, V>>;
  (void)&C26_edge_data<edge_data<Id, true, int, void>>;
  (void)&C26_edge_data<edge_data<Id, true, int, V>>;
  (void)&C26_edge_data<edge_data<Id, true, int&, V>>;
  (void)&C26_descriptor<Id>;
  (void)&C26_descriptor_value<Id, V>;
  if constexpr (std::is_integral_v<Id> && std::is_integral_v<V>) (void)&C26_descriptor_order<Id, V>;
}
void vc_root() {
  shapes<size_t, double>();
  shapes<uint8_t, Val>();
  shapes<int, long>();
  shapes<uint32_t, unsigned>();
  shapes<Val, Val>();
}
} // namespace vcd
