#pragma once
#include "rac.hpp"
namespace rac {
struct MstRef { double w = 0; size_t edges = 0; std::vector<size_t> comp; };
/// independent reference: Boruvka-free, quadratic Kruskal by repeated relabelling
inline MstRef mst_ref(size_t n, std::vector<E> es, bool greater) {
  std::stable_sort(es.begin(), es.end(), [&](const E& a, const E& b) { return greater ? a.w > b.w : a.w < b.w; });
  MstRef r;
  r.comp.resize(n);
  for (size_t i = 0; i < n; ++i) r.comp[i] = i;
  for (auto& e : es) {
    size_t a = r.comp[e.u], b = r.comp[e.v];
    if (a == b) continue;
    for (auto& c : r.comp) if (c == b) c = a;
    r.w += e.w;
    ++r.edges;
  }
  return r;
}
} // namespace rac
