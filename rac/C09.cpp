#include "rac.hpp"
#include <graph/graph.hpp>
#include <graph/algorithms.hpp>
using namespace rac;
/// sequences of operations on a forest against an array of class labels
template <class Id>
void one(Rng& r, size_t n, size_t ops, bool chains) {
  graph::disjoint_vector<Id> s(n);
  std::vector<size_t>        cls(n);
  for (size_t i = 0; i < n; ++i) { s[i].id = Id(i); s[i].count = 0; cls[i] = i; }
  std::string log;
  auto        same = [&](const char* what) {
    for (size_t a = 0; a < n; ++a) {
      // the representative, without compressing
      size_t x = a, steps = 0;
      while (s[x].id != Id(x)) {
        x = size_t(s[x].id);
        require(x < n, std::string(what) + ": parent out of range");
        require(++steps <= n, std::string(what) + ": the parents form a cycle");
      }
    }
    std::map<size_t, size_t> rep;
    std::set<size_t>         reps;
    for (size_t a = 0; a < n; ++a) {
      size_t x = a;
      while (s[x].id != Id(x)) x = size_t(s[x].id);
      auto it = rep.find(cls[a]);
      if (it == rep.end()) {
        require(reps.insert(x).second, std::string(what) + ": two classes were merged");
        rep[cls[a]] = x;
      } else
        require(it->second == x, std::string(what) + ": a class was split");
    }
  };
  auto merge = [&](size_t a, size_t b) {
    size_t ca = cls[a], cb = cls[b];
    for (auto& c : cls) if (c == cb) c = ca;
  };
  for (size_t k = 0; k < ops; ++k) {
    size_t a = r.below(n), b = chains ? (k + 1) % n : r.below(n);
    int    op = int(r.below(3));
    log += (op == 0 ? " find(" : op == 1 ? " union(" : " union_find(") + std::to_string(a) + "," + std::to_string(b) + ")";
    note(log.size() > 4000 ? log.substr(log.size() - 4000) : log);
    if (op == 0) {
      size_t x = a;
      while (s[x].id != Id(x)) x = size_t(s[x].id);
      auto f = graph::disjoint_find(s, Id(a));
      require(size_t(f) == x, "disjoint_find does not return the representative");
    } else if (op == 1) {
      graph::disjoint_union(s, Id(a), Id(b));
      merge(a, b);
    } else {
      bool distinct = cls[a] != cls[b];
      require(graph::disjoint_union_find(s, Id(a), Id(b)) == distinct, "disjoint_union_find returns the wrong answer");
      merge(a, b);
    }
    same("after the operation");
  }
}
/// any forest of the documented shape, built by hand (deep trees that union by rank never makes)
void deep(Rng& r, size_t n) {
  graph::disjoint_vector<unsigned> s(n);
  std::vector<size_t>              p(n);
  for (size_t i = 0; i < n; ++i) p[i] = i;
  for (size_t i = n; i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
  std::vector<size_t> root(n);
  for (size_t i = 0; i < n; ++i) {
    bool top       = i == 0 || r.chance(10);
    size_t q       = top ? i : (r.chance(70) ? i - 1 : r.below(i));
    s[p[i]].id     = unsigned(p[q]);
    s[p[i]].count  = n - i;
    root[p[i]]     = top ? p[i] : root[p[q]];
  }
  for (size_t k = 0; k < 2 * n; ++k) {
    size_t a = r.below(n);
    note("deep forest of " + std::to_string(n) + ", find(" + std::to_string(a) + ")");
    require(graph::disjoint_find(s, unsigned(a)) == root[a], "disjoint_find does not return the representative");
    for (size_t b = 0; b < n; ++b) {
      size_t x = b, c = 0;
      while (s[x].id != x) { x = s[x].id; require(++c <= n, "cycle"); }
      require(x == root[b], "disjoint_find changed a class");
    }
  }
}
int main(int argc, char** argv) {
  Args a  = start(argc, argv);
  Rng  r(a.seed);
  auto t0 = std::chrono::steady_clock::now();
  for (size_t k = 0; k < 150 || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < a.budget; ++k) {
    size_t n = 1 + r.below(k % 10 == 0 ? 60 : 9);
    begin_case("n=" + std::to_string(n) + " case " + std::to_string(k), n > 1);
    if (k % 3 == 0) one<size_t>(r, n, 3 * n, false);
    else if (k % 3 == 1) one<int>(r, n, 3 * n, k % 2);
    else deep(r, n);
  }
  return finish();
}
