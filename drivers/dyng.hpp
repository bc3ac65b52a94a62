// dynamic graphs with chosen containers, as parameters of lemma functions
#pragma once
#include "lemg.hpp"
#include <graph/container/dynamic_graph.hpp>
namespace vcd {
/// Vs: vertex container, Es: edge container; sel: bidirectional, dir: out-edges only
template <template <class> class Vs, template <class> class Es>
struct sel {
  template <class EV, class VV, class GV, class VId>
  struct tr {
    using edge_value_type = EV; using vertex_value_type = VV; using graph_value_type = GV; using vertex_id_type = VId;
    static constexpr bool bidirectional = true;
    using edge_type     = graph::container::dynamic_out_edge<EV, VV, GV, VId, true, tr>;
    using in_edge_type  = graph::container::dynamic_in_edge<EV, VV, GV, VId, true, tr>;
    using in_edges_type = Es<in_edge_type>;
    using vertex_type   = graph::container::dynamic_vertex<EV, VV, GV, VId, true, tr>;
    using graph_type    = graph::container::dynamic_graph<EV, VV, GV, VId, true, tr>;
    using edges_type    = Es<edge_type>;
    using vertices_type = Vs<vertex_type>;
  };
  template <class EV, class VV, class GV, class VId = uint32_t> using graph_type = graph::container::dynamic_graph<EV, VV, GV, VId, true, tr<EV, VV, GV, VId>>;
};
template <template <class> class Vs, template <class> class Es>
struct dir {
  template <class EV, class VV, class GV, class VId>
  struct tr {
    using edge_value_type = EV; using vertex_value_type = VV; using graph_value_type = GV; using vertex_id_type = VId;
    static constexpr bool bidirectional = false;
    using edge_type     = graph::container::dynamic_out_edge<EV, VV, GV, VId, false, tr>;
    using vertex_type   = graph::container::dynamic_vertex<EV, VV, GV, VId, false, tr>;
    using graph_type    = graph::container::dynamic_graph<EV, VV, GV, VId, false, tr>;
    using edges_type    = Es<edge_type>;
    using vertices_type = Vs<vertex_type>;
  };
  template <class EV, class VV, class GV, class VId = uint32_t> using graph_type = graph::container::dynamic_graph<EV, VV, GV, VId, false, tr<EV, VV, GV, VId>>;
};
template <class T> using vec = std::vector<T>;
template <class T> using deq = std::deque<T>;
template <class T> using lst = std::list<T>;
template <class T> using fwl = std::forward_list<T>;
template <class T> using mp  = std::map<uint32_t, T>;
template <class R> auto nth(R&& r, size_t k) { return *std::next(r.begin(), static_cast<std::ptrdiff_t>(k)); }
template <class R> size_t len(R&& r) { return static_cast<size_t>(std::ranges::distance(r)); }
} // namespace vcd
