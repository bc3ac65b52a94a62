// Run-time assertion checking support: concrete inputs for the real code in /repo, judged by brute-force oracles.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include <functional>
#include <chrono>
#include <limits>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace rac {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  size_t below(size_t n) { return n ? size_t(next() % n) : 0; }
  bool   chance(int pct) { return int(below(100)) < pct; }
};

struct E {
  size_t u, v;
  double w;
};
struct EL {
  size_t         n = 0;
  std::vector<E> e;
  std::string    text() const {
    std::string s = "n=" + std::to_string(n) + " edges=[";
    for (auto& x : e) {
      char b[96];
      snprintf(b, sizeof b, "(%zu,%zu,%g)", x.u, x.v, x.w);
      s += b;
    }
    return s + "]";
  }
};

inline char*       cur      = nullptr;
inline const char* curpath  = nullptr;
inline std::string cur_case, cur_note;
inline long        cases = 0, nontrivial = 0;
inline std::vector<std::string> samples;
inline std::set<uint64_t>       seen;

inline void put_current(const std::string& t) {
  if (cur) {
    size_t k = std::min<size_t>(t.size(), 65535);
    memcpy(cur, t.data(), k);
    cur[k] = 0;
  }
}
[[noreturn]] inline void fail(const std::string& msg) {
  printf("FAIL %s | input: %s %s\n", msg.c_str(), cur_case.c_str(), cur_note.c_str());
  fflush(stdout);
  _exit(1);
}
inline void require(bool c, const std::string& msg) {
  if (!c)
    fail(msg);
}
inline void note(const std::string& t) {
  cur_note = t;
  put_current(cur_case + " " + t);
}
inline void on_alarm(int) {
  const char m[] = "FAIL the call does not terminate (time limit) | input: see current case\n";
  (void)!write(1, m, sizeof m - 1);
  if (cur) {
    (void)!write(1, cur, strlen(cur));
    (void)!write(1, "\n", 1);
  }
  _exit(1);
}
inline uint64_t fnv(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ull;
  return h;
}
inline void begin_case(const std::string& t, bool nontriv) {
  cur_case = t;
  cur_note.clear();
  put_current(t);
  ++cases;
  if (nontriv && seen.insert(fnv(t)).second) {
    ++nontrivial;
    if (samples.size() < 3 && nontrivial % 97 == 5)
      samples.push_back(t);
  }
  alarm(20);
}

struct Opt {
  bool   symmetric = false;
  bool   loops     = true;
  bool   parallel  = true;
  bool   sorted    = false; // adjacency sorted by target
  bool   byrow     = true;  // edges listed grouped by source (else shuffled)
  double wlo = 0, whi = 5;  // integer weights in [wlo,whi]
  size_t max_n = 10;
  bool   small = true;      // enumerate all small graphs first
  bool   big   = true;      // a few large shapes
};

inline double rw(Rng& r, const Opt& o) { return o.wlo + double(r.below(size_t(o.whi - o.wlo) + 1)); }

inline void arrange(EL& g, Rng& r, const Opt& o) {
  if (!o.byrow) {
    for (size_t i = g.e.size(); i > 1; --i)
      std::swap(g.e[i - 1], g.e[r.below(i)]);
    return;
  }
  std::stable_sort(g.e.begin(), g.e.end(), [&](const E& a, const E& b) { return a.u != b.u ? a.u < b.u : (o.sorted && a.v < b.v); });
}
inline void add(EL& g, size_t u, size_t v, double w, const Opt& o) {
  g.e.push_back({u, v, w});
  if (o.symmetric && u != v)
    g.e.push_back({v, u, w});
}
inline EL random_graph(Rng& r, const Opt& o) {
  EL g;
  g.n      = r.below(o.max_n + 1);
  size_t m = g.n ? r.below(g.n * 2 + 2) : 0;
  if (r.chance(20) && g.n)
    m = r.below(g.n * g.n + 1);
  std::set<std::pair<size_t, size_t>> used;
  for (size_t i = 0; i < m; ++i) {
    size_t u = r.below(g.n), v = r.below(g.n);
    if (!o.loops && u == v)
      continue;
    auto key = o.symmetric ? std::make_pair(std::min(u, v), std::max(u, v)) : std::make_pair(u, v);
    if (!o.parallel && !used.insert(key).second)
      continue;
    add(g, u, v, rw(r, o), o);
  }
  // shuffle so that adjacency order is arbitrary
  for (size_t i = g.e.size(); i > 1; --i)
    std::swap(g.e[i - 1], g.e[r.below(i)]);
  arrange(g, r, o);
  return g;
}

/// all graphs given by adjacency matrices on n vertices (weights random)
inline void all_graphs(size_t n, Rng& r, const Opt& o, const std::function<void(EL&)>& f) {
  std::vector<std::pair<size_t, size_t>> slots;
  for (size_t u = 0; u < n; ++u)
    for (size_t v = o.symmetric ? u : 0; v < n; ++v)
      if (o.loops || u != v)
        slots.push_back({u, v});
  for (uint64_t m = 0; m < (1ull << slots.size()); ++m) {
    EL g;
    g.n = n;
    for (size_t i = 0; i < slots.size(); ++i)
      if (m >> i & 1)
        add(g, slots[i].first, slots[i].second, rw(r, o), o);
    if (!o.sorted && r.chance(50))
      std::reverse(g.e.begin(), g.e.end());
    arrange(g, r, o);
    f(g);
  }
}

inline EL shape(int k, size_t n, Rng& r, const Opt& o) {
  EL g;
  g.n = n;
  std::vector<size_t> p(n);
  for (size_t i = 0; i < n; ++i)
    p[i] = i;
  if (r.chance(50))
    for (size_t i = n; i > 1; --i)
      std::swap(p[i - 1], p[r.below(i)]);
  switch (k) {
  case 0: for (size_t i = 0; i + 1 < n; ++i) add(g, p[i], p[i + 1], rw(r, o), o); break;                                   // path
  case 1: for (size_t i = 0; i < n; ++i) if (n > 2) add(g, p[i], p[(i + 1) % n], rw(r, o), o); break;                     // cycle
  case 2: for (size_t i = 1; i < n; ++i) add(g, p[0], p[i], rw(r, o), o); break;                                           // star
  case 3: for (size_t i = 1; i < n; ++i) add(g, p[r.below(i)], p[i], rw(r, o), o); break;                                  // random tree
  case 4: for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n && n <= 12; ++j) add(g, p[i], p[j], rw(r, o), o); break; // clique
  default: for (size_t i = 0; i + 1 < n; ++i) { add(g, p[i], p[i + 1], rw(r, o), o); if (i + 2 < n) add(g, p[i], p[i + 2], rw(r, o), o); } break;
  }
  arrange(g, r, o);
  return g;
}

/// drives `check` over small exhaustive, shaped and random inputs until the time budget is used up
inline void drive(Rng& r, const Opt& o, double budget, const std::function<void(EL&, Rng&)>& check) {
  auto t0   = std::chrono::steady_clock::now();
  auto over = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget; };
  auto one  = [&](EL& g) {
    begin_case(g.text(), g.e.size() > 0);
    check(g, r);
  };
  if (o.small)
    for (size_t n = 0; n <= (o.symmetric ? (o.loops ? 4u : 5u) : 3u); ++n)
      all_graphs(n, r, o, [&](EL& g) { one(g); });
  for (int k = 0; k < 6; ++k)
    for (size_t n : {1, 2, 3, 5, 8, 13}) {
      EL g = shape(k, n, r, o);
      one(g);
    }
  if (o.big)
    for (int k = 0; k < 6; ++k)
      for (size_t n : {40, 300}) {
        EL g = shape(k, n, r, o);
        one(g);
      }
  long done = 0;
  while (!over() || done < 60) {
    EL g = random_graph(r, o);
    one(g);
    ++done;
  }
}

inline int finish() {
  printf("CASES %ld\nNONTRIVIAL %ld\n", cases, nontrivial);
  for (auto& s : samples)
    printf("SAMPLE %s\n", s.substr(0, 400).c_str());
  printf("OK\n");
  return 0;
}
struct Args {
  uint64_t seed   = 1;
  double   budget = 5;
};
inline Args start(int argc, char** argv) {
  Args a;
  if (argc > 1) a.seed = strtoull(argv[1], nullptr, 10);
  if (argc > 2) a.budget = atof(argv[2]);
  if (argc > 3) {
    int fd = open(argv[3], O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0 && ftruncate(fd, 65536) == 0)
      cur = static_cast<char*>(mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  }
  signal(SIGALRM, on_alarm);
  return a;
}

// ---------------------------------------------------------------- conversions to standard-library graphs
template <class T = size_t>
std::vector<std::vector<std::pair<T, double>>> vov_w(const EL& g) {
  std::vector<std::vector<std::pair<T, double>>> r(g.n);
  for (auto& e : g.e)
    r[e.u].push_back({T(e.v), e.w});
  return r;
}
template <class T = size_t>
std::vector<std::vector<T>> vov(const EL& g) {
  std::vector<std::vector<T>> r(g.n);
  for (auto& e : g.e)
    r[e.u].push_back(T(e.v));
  return r;
}
/// reach[u][v]: v reachable from u (reflexive)
inline std::vector<std::vector<char>> closure(const EL& g) {
  std::vector<std::vector<char>>   r(g.n, std::vector<char>(g.n, 0));
  std::vector<std::vector<size_t>> a(g.n);
  for (auto& e : g.e)
    a[e.u].push_back(e.v);
  for (size_t s = 0; s < g.n; ++s) {
    std::vector<size_t> st{s};
    r[s][s] = 1;
    while (!st.empty()) {
      size_t u = st.back();
      st.pop_back();
      for (size_t v : a[u])
        if (!r[s][v]) {
          r[s][v] = 1;
          st.push_back(v);
        }
    }
  }
  return r;
}
inline std::vector<char> reach_from(const EL& g, const std::vector<size_t>& src) {
  std::vector<char>                r(g.n, 0);
  std::vector<std::vector<size_t>> a(g.n);
  for (auto& e : g.e)
    a[e.u].push_back(e.v);
  std::vector<size_t> st;
  for (auto s : src)
    if (!r[s]) { r[s] = 1; st.push_back(s); }
  while (!st.empty()) {
    size_t u = st.back();
    st.pop_back();
    for (size_t v : a[u])
      if (!r[v]) { r[v] = 1; st.push_back(v); }
  }
  return r;
}
} // namespace rac
