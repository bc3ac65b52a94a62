#include "mstref.hpp"
#include <graph/graph.hpp>
#include <graph/algorithms.hpp>
#include <deque>
using namespace rac;
template <class V, class Id>
struct Ed { using source_id_type = Id; using target_id_type = Id; using value_type = V; Id source_id; Id target_id; V value;
  bool operator==(const Ed&) const = default; };
template <class V, class Id, class Cmp, class Cont>
void run(const EL& el, bool greater, bool inplace, bool dflt, size_t pre, Cmp cmp) {
  using X = Ed<V, Id>;
  note(std::string(inplace ? "inplace_kruskal" : "kruskal") + (dflt ? "" : greater ? " greater" : " less") + " edges already in the output: " + std::to_string(pre));
  Cont e;
  for (auto& x : el.e) e.push_back({Id(x.u), Id(x.v), V(x.w)});
  Cont           in = e;
  std::vector<X> t;
  for (size_t i = 0; i < pre; ++i) t.push_back({Id(7), Id(i), V(-3)});
  std::pair<V, size_t> res;
  auto call = [&](auto&& f) { auto r = f(); res = {V(r.first), size_t(r.second)}; };
  if (dflt) { if (inplace) call([&] { return graph::inplace_kruskal(e, t); }); else call([&] { return graph::kruskal(e, t); }); }
  else { if (inplace) call([&] { return graph::inplace_kruskal(e, t, cmp); }); else call([&] { return graph::kruskal(e, t, cmp); }); }
  if (!inplace) require(std::equal(e.begin(), e.end(), in.begin(), in.end()), "the input was modified");
  else {
    auto key = [](const X& a, const X& b) { return std::tie(a.source_id, a.target_id, a.value) < std::tie(b.source_id, b.target_id, b.value); };
    std::vector<X> a(e.begin(), e.end()), b(in.begin(), in.end());
    std::sort(a.begin(), a.end(), key); std::sort(b.begin(), b.end(), key);
    require(a == b, "the input was not merely permuted");
  }
  size_t n = 0;
  for (auto& x : el.e) n = std::max({n, x.u + 1, x.v + 1});
  if (el.e.empty()) { require(t.size() == 0 && res.first == V(0) && res.second == 0, "an empty list must yield an empty tree of weight 0"); return; }
  for (size_t i = 0; i < pre; ++i) require(t[i] == X{Id(7), Id(i), V(-3)}, "an edge already in the output was changed");
  MstRef ref = mst_ref(n, el.e, greater);
  std::vector<size_t> c(n);
  for (size_t i = 0; i < n; ++i) c[i] = i;
  std::vector<X> rest(in.begin(), in.end());
  double w = 0;
  for (size_t i = pre; i < t.size(); ++i) {
    auto it = std::find(rest.begin(), rest.end(), t[i]);
    require(it != rest.end(), "an output edge is not an input edge (or was used twice)");
    rest.erase(it);
    size_t a = c[size_t(t[i].source_id)], b = c[size_t(t[i].target_id)];
    require(a != b, "the output has a cycle");
    for (auto& x : c) if (x == b) x = a;
    w += double(t[i].value);
  }
  require(t.size() - pre == ref.edges, "the output does not connect what the input connects");
  require(w == ref.w, "total weight " + std::to_string(w) + " instead of " + std::to_string(ref.w));
  require(double(res.first) == w, "the returned weight is not the weight of the output");
  require(res.second == n - ref.edges, "returned number of trees " + std::to_string(res.second) + " instead of " + std::to_string(n - ref.edges));
}
template <class V, class Id>
void all(const EL& el, Rng& r) {
  using X = Ed<V, Id>;
  size_t pre = r.chance(20) && !el.e.empty() ? r.below(3) : 0;
  for (bool ip : {false, true}) {
    run<V, Id, std::less<V>, std::vector<X>>(el, false, ip, true, pre, {});
    run<V, Id, std::less<V>, std::vector<X>>(el, false, ip, false, pre, {});
    run<V, Id, std::greater<V>, std::deque<X>>(el, true, ip, false, pre, {});
  }
}
int main(int argc, char** argv) {
  Args a = start(argc, argv);
  Rng  r(a.seed);
  Opt  o;
  o.byrow = false;
  o.max_n = 8;
  drive(r, o, a.budget, [](EL& el, Rng& r) {
    if (r.chance(30)) for (auto& e : el.e) e.w -= 2;
    if (r.chance(10)) for (auto& e : el.e) { e.u *= 7; e.v *= 7; }   // ids with gaps
    all<double, size_t>(el, r);
    all<int, unsigned>(el, r);
    if (el.n < 100) all<int, int>(el, r);
  });
  return finish();
}
