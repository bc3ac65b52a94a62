#include <graph/graph.hpp>
#include <graph/algorithms.hpp>
#include <vector>
#include <random>
namespace vcd {
using Edge = std::pair<size_t, double>;
using G    = std::vector<std::vector<Edge>>;
using edge_t = graph::adj_list::edge_t<G>;
struct Out3 { void operator()(const size_t&, const size_t&, edge_t&, double) const; };
void vc_root(G& g, Out3 out, std::vector<size_t>& label, std::mt19937& rng) {
  graph::jaccard_coefficient(g, out);
  graph::label_propagation(g, label, rng, size_t(3));
  graph::label_propagation(g, label, size_t(0), rng, size_t(3));
}
}
