// helpers of the lemma drivers: containers used directly as graphs.  element(c,i) is element number i of a container,
// storage(c,i) what a descriptor of it stores.
#pragma once
#include "vcd.hpp"
#include <cstdint>
#include <deque>
#include <forward_list>
#include <graph/graph.hpp>
#include <iterator>
#include <list>
#include <map>
#include <tuple>
#include <vector>
namespace vcd {
template <class C> size_t count(C& c) {
  if constexpr (requires { c.size(); }) return c.size();
  else return static_cast<size_t>(std::distance(c.begin(), c.end()));
}
template <class C> auto storage(C& c, size_t i) {
  if constexpr (std::random_access_iterator<decltype(c.begin())>) return i;
  else return std::next(c.begin(), static_cast<std::ptrdiff_t>(i));
}
template <class C> decltype(auto) element(C& c, size_t i) {
  if constexpr (requires { c[i]; } && std::random_access_iterator<decltype(c.begin())>) return (c[i]);
  else return (*std::next(c.begin(), static_cast<std::ptrdiff_t>(i)));
}
template <class C> auto id_of(C& c, size_t i) {
  if constexpr (std::random_access_iterator<decltype(c.begin())>) return i;
  else return element(c, i).first;
}
/// the out-edge container of vertex number i
template <class G> auto& out_edges_of(G& g, size_t i) {
  if constexpr (requires { element(g, i).second.edges(); }) return element(g, i).second.edges();
  else if constexpr (requires { element(g, i).edges(); }) return element(g, i).edges();
  else if constexpr (requires { element(g, i).second; }) return element(g, i).second;
  else return element(g, i);
}
template <class E> decltype(auto) target_of(E& e) {
  if constexpr (std::is_integral_v<std::remove_cv_t<E>>) return (e);
  else return (std::get<0>(e));
}

template <class G, class I> bool is_vertex(G& g, I id) { return !(graph::find_vertex(g, id) == graph::vertices(g).end()); }
} // namespace vcd
