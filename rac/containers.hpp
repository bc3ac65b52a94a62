#pragma once
#include "rac.hpp"
#include <graph/graph.hpp>
#include <graph/container/compressed_graph.hpp>
#include <graph/container/dynamic_graph.hpp>
#include <graph/container/traits/vov_graph_traits.hpp>

namespace rac {
using CG  = graph::container::compressed_graph<double, void, void, uint32_t, uint32_t>;
using DGT = graph::container::vov_graph_traits<double, void, void, uint32_t, false>;
using DG  = graph::container::dynamic_graph<double, void, void, uint32_t, false, DGT>;

inline std::vector<graph::copyable_edge_t<uint32_t, double>> edge_input(const EL& el) {
  std::vector<graph::copyable_edge_t<uint32_t, double>> v;
  for (auto& e : el.e)
    v.push_back({static_cast<uint32_t>(e.u), static_cast<uint32_t>(e.v), e.w});
  return v;
}
/// el.e grouped by source and non-empty
inline CG make_compressed(const EL& el) {
  CG   g;
  auto in = edge_input(el);
  if (!in.empty())
    g.load_edges(static_cast<const decltype(in)&>(in), std::identity{}, el.n, in.size());
  return g;
}
inline DG make_dynamic(const EL& el) {
  DG   g;
  auto in = edge_input(el);
  g.load_edges(in, std::identity{}, el.n);
  return g;
}
} // namespace rac
