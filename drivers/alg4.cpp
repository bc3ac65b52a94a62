#include <graph/graph.hpp>
#include <graph/algorithms.hpp>
#include <graph/algorithm/connected_components.hpp>
#include <vector>
namespace vcd {
using Edge = std::pair<size_t, double>;
using G    = std::vector<std::vector<Edge>>;
void vc_root(G& g, G& gt, std::vector<size_t>& comp) {
  graph::link(size_t(0), size_t(1), comp);
  graph::compress(comp);
  graph::sample_frequent_element<size_t>(comp);
  graph::afforest(g, comp, size_t(2));
  graph::afforest(g, gt, comp, size_t(2));
}
}
