// C22: views over containers used as graphs
#include "lem22.hpp"
namespace vcd {
void vc_root() {
  graph_lemmas<std::vector<std::vector<size_t>>>();
  graph_lemmas<const std::vector<std::vector<std::pair<size_t, double>>>>();
  graph_lemmas<std::vector<std::list<std::tuple<int, double, int>>>>();
  graph_lemmas<std::deque<std::vector<std::pair<uint8_t, int>>>>();
  graph_lemmas<std::map<uint32_t, std::vector<std::pair<uint32_t, double>>>>();
  (void)&C22_edge_list<std::vector<std::pair<int, int>>>;
  (void)&C22_edge_list<std::vector<std::tuple<size_t, size_t, double>>>;
  (void)&C22_edge_list<const std::vector<std::pair<size_t, size_t>>>;
}
} // namespace vcd
