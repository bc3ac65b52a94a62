#pragma once
#include "containers.hpp"
#include <list>
namespace rac {
template <class EV, class VV, class GV, class VId>
struct vov_bi {
  using edge_value_type = EV; using vertex_value_type = VV; using graph_value_type = GV; using vertex_id_type = VId;
  static constexpr bool bidirectional = true;
  using edge_type     = graph::container::dynamic_out_edge<EV, VV, GV, VId, true, vov_bi>;
  using in_edge_type  = graph::container::dynamic_in_edge<EV, VV, GV, VId, true, vov_bi>;
  using vertex_type   = graph::container::dynamic_vertex<EV, VV, GV, VId, true, vov_bi>;
  using graph_type    = graph::container::dynamic_graph<EV, VV, GV, VId, true, vov_bi>;
  using edges_type    = std::vector<edge_type>;
  using in_edges_type = std::vector<in_edge_type>;
  using vertices_type = std::vector<vertex_type>;
};
template <class EV, class VV, class GV, class VId>
struct vol_bi {
  using edge_value_type = EV; using vertex_value_type = VV; using graph_value_type = GV; using vertex_id_type = VId;
  static constexpr bool bidirectional = true;
  using edge_type     = graph::container::dynamic_out_edge<EV, VV, GV, VId, true, vol_bi>;
  using in_edge_type  = graph::container::dynamic_in_edge<EV, VV, GV, VId, true, vol_bi>;
  using vertex_type   = graph::container::dynamic_vertex<EV, VV, GV, VId, true, vol_bi>;
  using graph_type    = graph::container::dynamic_graph<EV, VV, GV, VId, true, vol_bi>;
  using edges_type    = std::list<edge_type>;
  using in_edges_type = std::list<in_edge_type>;
  using vertices_type = std::vector<vertex_type>;
};
using BG = graph::container::dynamic_graph<double, void, void, uint32_t, true, vov_bi<double, void, void, uint32_t>>;
using BL = graph::container::dynamic_graph<double, void, void, uint32_t, true, vol_bi<double, void, void, uint32_t>>;
} // namespace rac
