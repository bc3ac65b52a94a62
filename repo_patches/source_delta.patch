From 7cf8b4a50bdae9f6f3898ad21bb118dd13141538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 01/24] fix: maximal_independent_set must not select vertices
 with a self-loop

---
 include/graph/algorithm/mis.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/graph/algorithm/mis.hpp b/include/graph/algorithm/mis.hpp
index 960d0b2..e75d514 100755
--- a/include/graph/algorithm/mis.hpp
+++ b/include/graph/algorithm/mis.hpp
@@ -184,6 +184,19 @@ size_t maximal_independent_set(G&&                      g,       // graph
   for (auto u : vertices(g)) {
     vertex_id_t<G> uid = vertex_id(g, u);
     if (!removed_vertices[uid]) {
+      // A vertex with a self-loop cannot be in any independent set
+      bool has_self_loop = false;
+      for (auto uv : edges(g, u)) {
+        if (target_id(g, uv) == uid) {
+          has_self_loop = true;
+          break;
+        }
+      }
+      if (has_self_loop) {
+        removed_vertices[uid] = 1;
+        continue;
+      }
+
       *mis++ = uid;
       ++count;
       removed_vertices[uid] = 1;
-- 
2.43.0


From 051ec2af6af84ce35bf1768bfe259546696d3abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:17 +0000
Subject: [PATCH 02/24] fix: bellman_ford must not relax edges of unreached
 vertices; find_negative_cycle must reach the cycle first

An edge out of a vertex whose distance is still infinite was relaxed (overflow for
integral distances, finite distances for unreachable vertices with negative weights).
The vertex returned for a negative cycle may only lead to the cycle, in which case
find_negative_cycle never terminated.
---
 .../algorithm/bellman_ford_shortest_paths.hpp    | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/graph/algorithm/bellman_ford_shortest_paths.hpp b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
index d6a6ecc..e00076e 100644
--- a/include/graph/algorithm/bellman_ford_shortest_paths.hpp
+++ b/include/graph/algorithm/bellman_ford_shortest_paths.hpp
@@ -60,11 +60,18 @@ void find_negative_cycle(G&                              g,
                          OutputIterator                  out_cycle) {
   // Does a negative weight cycle exist?
   if (cycle_vertex_id.has_value()) {
-    vertex_id_t<G> uid = cycle_vertex_id.value();
+    // The vertex may only lead to the cycle: as many steps back as there are vertices always end on it.
+    vertex_id_t<G> start = cycle_vertex_id.value();
+    for (size_t k = 0; k < num_vertices(g); ++k) {
+      start = predecessor[start];
+      if (start == cycle_vertex_id.value())
+        break;
+    }
+    vertex_id_t<G> uid = start;
     do {
       *out_cycle++ = uid;
       uid          = predecessor[uid];
-    } while (uid != cycle_vertex_id.value());
+    } while (uid != start);
   }
 }
 
@@ -193,6 +200,9 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
     const DistanceValue d_u = distances[static_cast<size_t>(uid)];
     const DistanceValue d_v = distances[static_cast<size_t>(vid)];
 
+    if (d_u == shortest_path_infinite_distance<DistanceValue>()) {
+      return false; // u hasn't been reached: no path to extend
+    }
     if (compare(combine(d_u, w_e), d_v)) {
       distances[static_cast<size_t>(vid)] = combine(d_u, w_e);
       if constexpr (!is_same_v<Predecessors, _null_range_type>) {
@@ -260,7 +270,7 @@ requires convertible_to<range_value_t<Sources>, vertex_id_t<G>> &&      //
   // Check for negative weight cycles
   if (at_least_one_edge_relaxed) {
     for (auto&& [uid, vid, uv, w] : views::edgelist(g, weight)) {
-      if (compare(combine(distances[uid], w), distances[vid])) {
+      if (distances[uid] != infinite && compare(combine(distances[uid], w), distances[vid])) {
         if constexpr (!is_same_v<Predecessors, _null_range_type>) {
           predecessor[vid] = uid; // close the cycle
         }
-- 
2.43.0


From 944af05efdf944eac1afb4474ceced770de4058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:09 +0000
Subject: [PATCH 03/24] fix: kruskal must size its disjoint sets by all edges,
 not those the sort comparator happens to see

---
 include/graph/algorithm/mst.hpp | 48 +++++++++++++++------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/include/graph/algorithm/mst.hpp b/include/graph/algorithm/mst.hpp
index 747559a..ee281d0 100644
--- a/include/graph/algorithm/mst.hpp
+++ b/include/graph/algorithm/mst.hpp
@@ -565,18 +565,19 @@ auto kruskal(IELR&&    e,      // graph
   std::ranges::transform(e, back_inserter(e_copy),
                          [](auto&& ed) { return std::make_tuple(ed.source_id, ed.target_id, ed.value); });
 
-  // Find maximum vertex ID while sorting edges by weight
-  VId  N             = 0; // Will hold the maximum vertex ID in the graph
-  auto outer_compare = [&](auto&& i, auto&& j) {
-    // Track maximum vertex ID (needed to size disjoint-set structure)
-    if (get<0>(i) > N) {
-      N = get<0>(i); // Check source vertex
+  // Find maximum vertex ID (needed to size disjoint-set structure)
+  VId N = 0;
+  for (auto&& [uid, vid, val] : e_copy) {
+    if (uid > N) {
+      N = uid; // Check source vertex
     }
-    if (get<1>(i) > N) {
-      N = get<1>(i); // Check target vertex
+    if (vid > N) {
+      N = vid; // Check target vertex
     }
-    return compare(get<2>(i), get<2>(j)); // Compare edge weights
-  };
+  }
+
+  // Sort edges by weight
+  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<2>(i), get<2>(j)); };
   std::ranges::sort(e_copy, outer_compare);
 
   // Initialize disjoint-set: each vertex starts in its own set
@@ -708,26 +709,21 @@ auto inplace_kruskal(IELR&&    e,      // graph
     return std::pair<EV, size_t>{EV{}, 0};
   }
 
-  // Find maximum vertex ID while sorting edges by weight (modifies input!)
-  VId  N             = 0; // Will hold the maximum vertex ID in the graph
-  auto outer_compare = [&](auto&& i, auto&& j) {
-    // Track maximum vertex ID (needed to size disjoint-set structure)
-    if (i.source_id > N) {
-      N = i.source_id; // Check source vertex
+  // Find maximum vertex ID (needed to size disjoint-set structure)
+  VId N = 0;
+  for (auto&& ed : e) {
+    if (ed.source_id > N) {
+      N = ed.source_id; // Check source vertex
     }
-    if (i.target_id > N) {
-      N = i.target_id; // Check target vertex
+    if (ed.target_id > N) {
+      N = ed.target_id; // Check target vertex
     }
-    return compare(i.value, j.value); // Compare edge weights
-  };
-  std::ranges::sort(e, outer_compare); // ⚠️ Modifies input edge list!
-
-  // Empty graph edge case
-  if (N == 0) {
-    t.clear();
-    return std::pair<EV, size_t>{EV{}, 0};
   }
 
+  // Sort edges by weight (modifies input!)
+  auto outer_compare = [&](auto&& i, auto&& j) { return compare(i.value, j.value); };
+  std::ranges::sort(e, outer_compare); // ⚠️ Modifies input edge list!
+
   // Initialize disjoint-set: each vertex starts in its own set
   disjoint_vector<VId> subsets(N + 1); // Size N+1 to accommodate vertices 0 through N
   for (VId uid = 0; uid <= N; ++uid) {
-- 
2.43.0


From eb328da02be544e2282ded9205e75716acbe812d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:35 +0000
Subject: [PATCH 04/24] fix: prim must take the best edge first and keep
 vertices that are already in the tree

---
 include/graph/algorithm/mst.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/graph/algorithm/mst.hpp b/include/graph/algorithm/mst.hpp
index ee281d0..11a597f 100644
--- a/include/graph/algorithm/mst.hpp
+++ b/include/graph/algorithm/mst.hpp
@@ -936,22 +936,31 @@ auto prim(G&&                   g,           // graph
 
   using weighted_vertex = tuple<vertex_id_t<G>, EV>; // (vertex_id, edge_weight)
 
-  // Priority queue comparator: compare by edge weight (second element of tuple)
-  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<1>(i), get<1>(j)); };
+  // Priority queue comparator: compare by edge weight (second element of tuple). The arguments are swapped because
+  // std::priority_queue keeps the last element of the order on top, and the best edge has to come first.
+  auto outer_compare = [&](auto&& i, auto&& j) { return compare(get<1>(j), get<1>(i)); };
 
   // Min-heap (or max-heap depending on compare) of (vertex, weight) pairs
   std::priority_queue<weighted_vertex, std::vector<weighted_vertex>, decltype(outer_compare)> Q(outer_compare);
   Q.push({seed, distance[seed]}); // Start from seed vertex
 
+  // Vertices already in the tree; their predecessor and weight are final
+  std::vector<bool> in_tree(N, false);
+
   // Main loop: grow MST by adding minimum-weight edges
   while (!Q.empty()) {
     auto uid = get<0>(Q.top()); // Extract vertex with minimum edge weight
     Q.pop();
 
+    if (in_tree[uid]) {
+      continue; // Outdated queue entry
+    }
+    in_tree[uid] = true;
+
     // Examine all edges incident to current vertex
     for (auto&& [vid, w] : views::basic_incidence(g, uid, weight_fn)) {
       // Relaxation: if edge weight is better than current distance to neighbor
-      if (compare(w, distance[vid])) {
+      if (!in_tree[vid] && compare(w, distance[vid])) {
         distance[vid] = w;            // Update minimum edge weight to reach vid
         Q.push({vid, distance[vid]}); // Add/update neighbor in priority queue
         predecessor[vid] = uid;       // Record edge uid→vid in MST
@@ -965,8 +974,8 @@ auto prim(G&&                   g,           // graph
   // Exclude seed vertex (which has no incoming edge in MST)
   EV total_weight = EV{};
   for (size_t v = 0; v < N; ++v) {
-    if (v != static_cast<size_t>(seed) && predecessor[v] != static_cast<vertex_id_t<G>>(v)) {
-      // Only count vertices in MST (predecessor points to another vertex)
+    if (v != static_cast<size_t>(seed) && in_tree[v]) {
+      // Only count vertices in MST
       total_weight += weight[v];
     }
   }
-- 
2.43.0


From 26ad958600093a027054a373eb6495df1103327d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:53 +0000
Subject: [PATCH 05/24] fix: kosaraju must mark vertices when they are taken
 from the stack, or the finish order is not depth-first

---
 include/graph/algorithm/connected_components.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index 9ab3a47..7c9f21f 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -154,7 +154,6 @@ void kosaraju(G&&        g,        // graph
   auto dfs_finish_order = [&](const vertex_id_t<G>& start) {
     std::stack<std::pair<vertex_id_t<G>, bool>> stack; // (vertex, children_visited)
     stack.push({start, false});
-    visited[start] = true;
 
     while (!stack.empty()) {
       auto [uid, children_visited] = stack.top();
@@ -164,7 +163,11 @@ void kosaraju(G&&        g,        // graph
         // All children have been visited, add to finish order (post-order)
         // This ensures children finish before parents in topological sort
         order.push_back(uid);
-      } else {
+      } else if (!visited[uid]) {
+        // A vertex is visited when it is taken from the stack (it may have been pushed by several parents before):
+        // marking it when it is pushed would not give a depth-first finish order
+        visited[uid] = true;
+
         // Mark that we'll process this vertex after its children
         // Re-push with children_visited=true to record finish time later
         stack.push({uid, true});
@@ -174,7 +177,6 @@ void kosaraju(G&&        g,        // graph
         auto uid_vertex = *find_vertex(g_ref, uid);
         for (auto&& [vid, e] : views::incidence(g_ref, uid_vertex)) {
           if (!visited[vid]) {
-            visited[vid] = true;
             stack.push({vid, false});
           }
         }
@@ -283,7 +285,6 @@ void kosaraju(G&&        g,        // bidirectional graph
   auto dfs_finish_order = [&](const vertex_id_t<G>& start) {
     std::stack<std::pair<vertex_id_t<G>, bool>> stack;
     stack.push({start, false});
-    visited[start] = true;
 
     while (!stack.empty()) {
       auto [uid, children_visited] = stack.top();
@@ -291,13 +292,13 @@ void kosaraju(G&&        g,        // bidirectional graph
 
       if (children_visited) {
         order.push_back(uid);
-      } else {
+      } else if (!visited[uid]) {
+        visited[uid] = true;
         stack.push({uid, true});
 
         auto uid_vertex = *find_vertex(g_ref, uid);
         for (auto&& [vid, e] : views::incidence(g_ref, uid_vertex)) {
           if (!visited[vid]) {
-            visited[vid] = true;
             stack.push({vid, false});
           }
         }
-- 
2.43.0


From 58b399b7d18c692722818b16dd8fadc306e20099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:31 +0000
Subject: [PATCH 06/24] fix: afforest on an empty graph must not sample from an
 empty component range

---
 include/graph/algorithm/connected_components.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/graph/algorithm/connected_components.hpp b/include/graph/algorithm/connected_components.hpp
index 7c9f21f..675a7fb 100644
--- a/include/graph/algorithm/connected_components.hpp
+++ b/include/graph/algorithm/connected_components.hpp
@@ -721,6 +721,9 @@ void afforest(G&&          g,         // graph
               Component&   component, // out: connected component assignment
               const size_t neighbor_rounds = 2) {
   size_t N(num_vertices(g));
+  if (N == 0) {
+    return; // Nothing to sample from below
+  }
   // Initialize: each vertex is its own component
   std::iota(component.begin(), component.end(), 0);
 
@@ -828,6 +831,9 @@ void afforest(G&&          g,         // graph
               Component&   component, // out: connected component assignment
               const size_t neighbor_rounds = 2) {
   size_t N(num_vertices(g));
+  if (N == 0) {
+    return; // Nothing to sample from below
+  }
   // Initialize: each vertex is its own component
   std::iota(component.begin(), component.end(), 0);
 
-- 
2.43.0


From 6a57bbf82173793606d8242152e0dcfe2ab7e241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:58 +0000
Subject: [PATCH 07/24] fix: articulation_points must not use a reference into
 the stack after pop

---
 include/graph/algorithm/articulation_points.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/graph/algorithm/articulation_points.hpp b/include/graph/algorithm/articulation_points.hpp
index 9d3b5d8..6f4ff7c 100644
--- a/include/graph/algorithm/articulation_points.hpp
+++ b/include/graph/algorithm/articulation_points.hpp
@@ -180,18 +180,19 @@ void articulation_points(G&& g, Iter cut_vertices) {
 
       if (it == it_end) {
         // All edges processed — backtrack
+        const vid_t backtrack_uid = uid; // uid refers into stk and is invalid after pop()
         stk.pop();
         if (!stk.empty()) {
           auto& [par_uid, par_edge_idx, par_skipped] = stk.top();
           // Update low-link of parent
-          if (low[uid] < low[par_uid]) {
-            low[par_uid] = low[uid];
+          if (low[backtrack_uid] < low[par_uid]) {
+            low[par_uid] = low[backtrack_uid];
           }
 
           // Check articulation point condition for non-root
           if (parent[par_uid] != NO_PARENT) {
             // Non-root rule: child v has low[v] >= disc[u]
-            if (low[uid] >= disc[par_uid] && !emitted[par_uid]) {
+            if (low[backtrack_uid] >= disc[par_uid] && !emitted[par_uid]) {
               *cut_vertices++ = par_uid;
               emitted[par_uid] = true;
             }
-- 
2.43.0


From 82bb653289c9d4653fb48378104c7a2e19f0e7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:58 +0000
Subject: [PATCH 08/24] fix: biconnected_components must report a vertex with
 only self-loops as a singleton

---
 include/graph/algorithm/biconnected_components.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/graph/algorithm/biconnected_components.hpp b/include/graph/algorithm/biconnected_components.hpp
index 46110be..5b598f9 100644
--- a/include/graph/algorithm/biconnected_components.hpp
+++ b/include/graph/algorithm/biconnected_components.hpp
@@ -262,6 +262,11 @@ void biconnected_components(G&& g, OuterContainer& components) {
         }
       }
     }
+
+    // No other vertex was reached (start has only self-loops): trivial biconnected component
+    if (timer == disc[start] + 1) {
+      components.push_back(inner_type{static_cast<typename inner_type::value_type>(start)});
+    }
   }
 }
 
-- 
2.43.0


From ad4343d550e7a34522afc627db06a66d56207a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 09/24] fix: compressed_graph: construct from an empty edge
 range

load_edges() terminated the partitions on an empty range, and the constructor
that called it terminated them again, which threw graph_error because the two
terminators are not in increasing order.
---
 include/graph/container/compressed_graph.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index a7fe21b..dd6cb3f 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -703,10 +703,8 @@ public: // Operations
     assert(row_index_.empty() && col_index_.empty() && static_cast<col_values_base&>(*this).empty());
 
     // Nothing to do?
-    if (begin(erng) == end(erng)) {
-      terminate_partitions();
-      return;
-    }
+    if (begin(erng) == end(erng))
+      return; // the partitions are terminated by the constructor
 
     // We can get the last vertex id from the list because erng is required to be ordered by
     // the source id. It's possible a target_id could have a larger id also, which is taken
@@ -767,10 +765,8 @@ public: // Operations
     assert(row_index_.empty() && col_index_.empty() && static_cast<col_values_base&>(*this).empty());
 
     // Nothing to do?
-    if (begin(erng) == end(erng)) {
-      terminate_partitions();
-      return;
-    }
+    if (begin(erng) == end(erng))
+      return; // the partitions are terminated by the constructor
 
     // We can get the last vertex id from the list because erng is required to be ordered by
     // the source id. It's possible a target_id could have a larger id also, which is taken
-- 
2.43.0


From 595688b29aa62f78ca5f9789e28ee850ac9759f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 10/24] fix: compressed_graph: loading no vertices does not add
 a vertex

---
 include/graph/container/compressed_graph.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index dd6cb3f..03a96e5 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -643,7 +643,9 @@ public: // Operations
     }
 
     // Determine required vertex count: max(provided hint, max_id + 1, existing size)
-    vertex_count = max({vertex_count, static_cast<size_type>(max_id + 1), size()});
+    vertex_count = max(vertex_count, size());
+    if (!std::ranges::empty(vrng))
+      vertex_count = max(vertex_count, static_cast<size_type>(max_id) + 1);
 
     // If graph structure doesn't exist yet, create it based on vertex count
     if (row_index_.empty() && vertex_count > 0) {
-- 
2.43.0


From a5204180d8834ecb055d3d6fdeac8d74482f1e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:24 +0000
Subject: [PATCH 11/24] fix: compressed_graph: load_edges() after
 load_vertices()

load_edges() is documented as callable before or after load_vertices(), but
it asserted that no rows exist, and without assertions it kept the rows (all
with index 0) that load_vertices() had created. Also give every vertex a value
when only one had been loaded, as the other overload does.
---
 include/graph/container/compressed_graph.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 03a96e5..4091241 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -701,8 +701,8 @@ public: // Operations
   template <class ERng, class EProj = identity>
   //requires views::copyable_edge<invoke_result_t<EProj, range_value_t<ERng>>, VId, EV>
   constexpr void load_edges(ERng&& erng, EProj eprojection = {}, size_type vertex_count = 0, size_type edge_count = 0) {
-    // should only be loading into an empty graph
-    assert(row_index_.empty() && col_index_.empty() && static_cast<col_values_base&>(*this).empty());
+    // should only be loading into a graph without edges; load_vertices() may have been called before
+    assert(col_index_.empty() && static_cast<col_values_base&>(*this).empty());
 
     // Nothing to do?
     if (begin(erng) == end(erng))
@@ -713,6 +713,8 @@ public: // Operations
     // care of at the end of this function.
     vertex_count =
           max(vertex_count, static_cast<size_type>(last_erng_id(erng, eprojection) + 1)); // +1 for zero-based index
+    vertex_count = max(vertex_count, size()); // rows created by load_vertices() are built anew below
+    row_index_.clear();
 
     // Reserve space for vertices
     row_index_.reserve(vertex_count + 1); // +1 for terminating row
@@ -754,7 +756,7 @@ public: // Operations
     // If load_vertices(vrng,vproj) has been called but it doesn't have enough values for all
     // the vertices then we extend the size to remove possibility of out-of-bounds occuring when
     // getting a value for a row.
-    if (row_values_base::size() > 1 && row_values_base::size() < vertex_count)
+    if (row_values_base::size() > 0 && row_values_base::size() < vertex_count)
       row_values_base::resize(vertex_count);
   }
 
@@ -763,8 +765,8 @@ public: // Operations
   //requires views::copyable_edge<invoke_result_t<EProj, range_value_t<ERng>>, VId, EV>
   constexpr void
   load_edges(const ERng& erng, EProj eprojection = {}, size_type vertex_count = 0, size_type edge_count = 0) {
-    // should only be loading into an empty graph
-    assert(row_index_.empty() && col_index_.empty() && static_cast<col_values_base&>(*this).empty());
+    // should only be loading into a graph without edges; load_vertices() may have been called before
+    assert(col_index_.empty() && static_cast<col_values_base&>(*this).empty());
 
     // Nothing to do?
     if (begin(erng) == end(erng))
@@ -775,6 +777,8 @@ public: // Operations
     // care of at the end of this function.
     vertex_count =
           max(vertex_count, static_cast<size_type>(last_erng_id(erng, eprojection) + 1)); // +1 for zero-based index
+    vertex_count = max(vertex_count, size()); // rows created by load_vertices() are built anew below
+    row_index_.clear();
 
     // Reserve space for vertices
     row_index_.reserve(vertex_count + 1); // +1 for terminating row
-- 
2.43.0


From b7705e5e0400766c6926e6013e6afd539026557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 12/24] fix: compressed_graph: vertices added by
 load_vertices() after load_edges() have no edges

The new rows were given index 0, so the row of the last vertex that had been
there before ended before it started.
---
 include/graph/container/compressed_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 4091241..39a0e6f 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -651,8 +651,8 @@ public: // Operations
     if (row_index_.empty() && vertex_count > 0) {
       row_index_.resize(vertex_count + 1, vertex_type{0}); // All vertices have 0 edges initially
     } else if (vertex_count > size()) {
-      // Expand existing structure if needed
-      row_index_.resize(vertex_count + 1, vertex_type{0});
+      // Expand existing structure if needed; the new rows come after all edges
+      row_index_.resize(vertex_count + 1, vertex_type{static_cast<edge_index_type>(col_index_.size())});
     }
 
     row_values_base::load_row_values(vrng, vprojection, vertex_count);
-- 
2.43.0


From dd99963671042be60ada7f628ca07cb426495c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:35 +0000
Subject: [PATCH 13/24] fix: compressed_graph: the last partition ends at the
 last vertex

The terminating partition was set to row_index_.size(), which counts the
terminating row too, so the last of several partitions listed a vertex that
does not exist. Vertices added by load_vertices() after the construction
belong to the last partition.
---
 include/graph/container/compressed_graph.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 39a0e6f..4551c75 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -913,13 +913,13 @@ protected:
       }
 
       // Additional check: all partition start ids must be valid vertex ids
-      if (!partition_.empty() && partition_.back() > static_cast<partition_id_type>(row_index_.size())) {
+      if (!partition_.empty() && partition_.back() > static_cast<partition_id_type>(size())) {
         throw graph_error(std::format("Invalid partition start id: {} exceeds number of vertices {}", partition_.back(),
-                                      row_index_.size()));
+                                      size()));
       }
     }
 
-    partition_.push_back(static_cast<partition_id_type>(row_index_.size()));
+    partition_.push_back(static_cast<partition_id_type>(size()));
   }
 
 public: // Vertex range accessors
@@ -1149,7 +1149,9 @@ public: // Friend functions
 
     // Return range [partition_[pid], partition_[pid+1])
     const auto begin_vid = static_cast<std::size_t>(g.partition_[static_cast<std::size_t>(pid)]);
-    const auto end_vid   = static_cast<std::size_t>(g.partition_[static_cast<std::size_t>(pid + 1)]);
+    // the last partition extends to the last vertex, also when load_vertices() added vertices later
+    const auto next    = static_cast<std::size_t>(pid) + 1;
+    const auto end_vid = next < num_parts ? static_cast<std::size_t>(g.partition_[next]) : static_cast<std::size_t>(g.size());
 
     return vertex_descriptor_view<vertex_iter_type>(begin_vid, end_vid);
   }
-- 
2.43.0


From 2f3741014c6723f683b193903ad88cb2be8fa83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:35 +0000
Subject: [PATCH 14/24] fix: compressed_graph: reject unordered edges in every
 load_edges() overload

The overload for rvalues and non-const lvalues only asserted that the edges
are ordered by source id; without assertions it built a corrupt row index where
the const overload throws graph_error.
---
 include/graph/container/compressed_graph.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index 4551c75..b8e3261 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -731,8 +731,11 @@ public: // Operations
     // Add edges
     vertex_id_type last_uid = 0, max_vid = 0;
     for (auto&& edge_data : erng) {
-      auto&& edge = eprojection(edge_data);                            // compressed_graph requires EV!=void
-      assert(static_cast<vertex_id_type>(edge.source_id) >= last_uid); // ordered by uid? (requirement)
+      auto&& edge = eprojection(edge_data);                         // compressed_graph requires EV!=void
+      if (static_cast<vertex_id_type>(edge.source_id) < last_uid) { // ordered by uid? (requirement)
+        throw graph_error(std::format("source id of {} is not ordered after source id of {} in the data input",
+                                      edge.source_id, last_uid));
+      }
 
       // Only resize when we encounter a new source vertex (optimization)
       if (static_cast<vertex_id_type>(edge.source_id) != last_uid || row_index_.empty()) {
-- 
2.43.0


From 4cb3d769c317dc1864f67861a7ac26b3cc243760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:55 +0000
Subject: [PATCH 15/24] fix: compressed_graph: edge_value(g,uv) does not
 truncate the edge index to the vertex id type

The edge index type may be wider than the vertex id type, and is what must be
able to count the edges; a truncated index gave the value of another edge.
---
 include/graph/container/compressed_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/compressed_graph.hpp b/include/graph/container/compressed_graph.hpp
index b8e3261..2f7da60 100644
--- a/include/graph/container/compressed_graph.hpp
+++ b/include/graph/container/compressed_graph.hpp
@@ -1383,9 +1383,9 @@ public: // Friend functions
   requires std::derived_from<std::remove_cvref_t<G>, compressed_graph_base> && (!std::is_void_v<EV>)
   [[nodiscard]] friend constexpr decltype(auto) edge_value(G&& g, const E& uv) noexcept {
     if constexpr (std::is_const_v<std::remove_reference_t<G>>) {
-      return g.edge_value(static_cast<vertex_id_type>(uv.value()));
+      return g.edge_value(static_cast<edge_id_type>(uv.value()));
     } else {
-      return g.edge_value(static_cast<vertex_id_type>(uv.value()));
+      return g.edge_value(static_cast<edge_id_type>(uv.value()));
     }
   }
 
-- 
2.43.0


From 377ce76d7b4c20d7418df0bfcd32c8b7931387dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 16/24] fix: source_id(g,uv) of an in-edge finds the stored
 source when the vertices live in a map

---
 include/graph/detail/edge_cpo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graph/detail/edge_cpo.hpp b/include/graph/detail/edge_cpo.hpp
index 80ab59f..cf9d5ca 100644
--- a/include/graph/detail/edge_cpo.hpp
+++ b/include/graph/detail/edge_cpo.hpp
@@ -339,7 +339,7 @@ namespace _cpo_impls {
             // If the vertex data doesn't expose .in_edges(), fall back to the
             // no-arg source_id() (returns the owning / queried vertex ID).
             auto&& vd = uv.source().underlying_value(std::forward<G>(g));
-            if constexpr (requires { vd.in_edges(); }) {
+            if constexpr (requires { vd.in_edges(); } || requires { vd.second.in_edges(); }) {
               return uv.source_id(vd);
             } else {
               return uv.source_id();
-- 
2.43.0


From 047bcd1086c35ba44872379f7d881c2a9c50653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 17/24] fix: source(g,uv) of an in-edge is the source vertex,
 not the owning target vertex

---
 include/graph/adj_list/detail/graph_cpo.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/graph/adj_list/detail/graph_cpo.hpp b/include/graph/adj_list/detail/graph_cpo.hpp
index d3ce56f..b947548 100644
--- a/include/graph/adj_list/detail/graph_cpo.hpp
+++ b/include/graph/adj_list/detail/graph_cpo.hpp
@@ -3186,10 +3186,12 @@ namespace _cpo_impls {
     };
 
     // Check if edge descriptor has source() member
+    // Excludes in-edge descriptors: their source() is the owning vertex, i.e. the edge's target
     template <typename E>
-    concept _has_descriptor = is_edge_descriptor_v<std::remove_cvref_t<E>> && requires(const E& uv) {
-      { uv.source() };
-    };
+    concept _has_descriptor =
+          is_edge_descriptor_v<std::remove_cvref_t<E>> && !std::remove_cvref_t<E>::is_in_edge && requires(const E& uv) {
+            { uv.source() };
+          };
 
     // Check if default implementation is available
     // Requires source_id(g, uv) and find_vertex(g, id) to work
-- 
2.43.0


From 772f75f78fe07a971a0b1f01f92197e436723a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 18/24] fix: transpose_view: num_edges(g,u) counts the reversed
 edges of u

---
 include/graph/views/transpose.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/views/transpose.hpp b/include/graph/views/transpose.hpp
index 67f7031..e64270a 100644
--- a/include/graph/views/transpose.hpp
+++ b/include/graph/views/transpose.hpp
@@ -205,12 +205,12 @@ public:
   }
 
   // ===========================================================================
-  // num_edges — forwarded
+  // num_edges — the total is forwarded, the count of a vertex is swapped
   // ===========================================================================
 
   template <typename V>
   friend constexpr auto num_edges(const transpose_view& tv, const V& v) {
-    return adj_list::num_edges(*tv.g_, v);
+    return adj_list::in_degree(*tv.g_, v);
   }
 
   friend constexpr auto num_edges(const transpose_view& tv) { return adj_list::num_edges(*tv.g_); }
-- 
2.43.0


From ed6e6d47bf8237c2d2442cedac939aaccad64ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 19/24] fix: edgelist views have no size() when num_edges(g) is
 not the number of listed edges

---
 include/graph/container/dynamic_graph.hpp     |  3 +++
 .../container/undirected_adjacency_list.hpp   |  4 ++++
 include/graph/views/edgelist.hpp              | 23 ++++++++++++++-----
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/graph/container/dynamic_graph.hpp b/include/graph/container/dynamic_graph.hpp
index cccfd1e..80863a6 100644
--- a/include/graph/container/dynamic_graph.hpp
+++ b/include/graph/container/dynamic_graph.hpp
@@ -909,6 +909,9 @@ public: // types
   using edge_allocator_type = typename edges_type::allocator_type;
   using edge_type           = dynamic_out_edge<EV, VV, GV, VId, Bidirectional, Traits>;
 
+  /// False for edge containers that drop duplicates (set, map): num_edges(g) counts the dropped edges as well.
+  static constexpr bool num_edges_counts_listed = !requires { typename edges_type::key_type; };
+
   // Detection-idiom derived aliases (Phase 1 — dead code until Phase 2).
   // For standard traits that don't define in_edge_type/in_edges_type, these fall back
   // to edge_type and edges_type respectively, keeping runtime behavior unchanged.
diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 8ae18cc..28111dd 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -786,6 +786,10 @@ public: // Type Aliases
   using edge_value_type      = EV;
   using edge_allocator_type  = typename allocator_traits<Alloc>::template rebind_alloc<edge_type>;
   using edge_id_type         = pair<vertex_id_type, vertex_id_type>; // <from,to>
+
+  /// num_edges(g) counts an edge once, although it is listed at both of its vertices.
+  static constexpr bool num_edges_counts_listed = false;
+
   using edge_size_type       = typename edge_type::edge_size_type;
   using edge_difference_type = typename edge_type::edge_difference_type;
 
diff --git a/include/graph/views/edgelist.hpp b/include/graph/views/edgelist.hpp
index e66f370..41cf745 100644
--- a/include/graph/views/edgelist.hpp
+++ b/include/graph/views/edgelist.hpp
@@ -142,6 +142,15 @@ namespace edgelist_detail {
   /// When true, edgelist_view conditionally provides size().
   template <class G>
   concept has_const_time_num_edges = _has_num_edges_member<G> || _has_num_edges_adl<G>;
+
+  /// @brief Detect if num_edges(g) may differ from the number of edges the vertices list.
+  /// True when the graph states so with a static member num_edges_counts_listed == false.
+  template <class G>
+  concept _num_edges_differs = requires { requires !std::remove_cv_t<G>::num_edges_counts_listed; };
+
+  /// @brief Detect if num_edges(g) is the number of elements of the edgelist view, in O(1).
+  template <class G>
+  concept has_const_time_size = has_const_time_num_edges<G> && !_num_edges_differs<G>;
 } // namespace edgelist_detail
 
 // Forward declarations
@@ -283,9 +292,10 @@ public:
   }
 
   /// Total number of edges in the graph. Only available when the graph
-  /// supports O(1) num_edges (via member or ADL), not the default O(V) fallback.
+  /// supports O(1) num_edges (via member or ADL), not the default O(V) fallback,
+  /// and counts every listed edge once.
   [[nodiscard]] constexpr auto size() const noexcept
-  requires edgelist_detail::has_const_time_num_edges<G>
+  requires edgelist_detail::has_const_time_size<G>
   {
     return adj_list::num_edges(*g_);
   }
@@ -425,9 +435,10 @@ public:
   }
 
   /// Total number of edges in the graph. Only available when the graph
-  /// supports O(1) num_edges (via member or ADL), not the default O(V) fallback.
+  /// supports O(1) num_edges (via member or ADL), not the default O(V) fallback,
+  /// and counts every listed edge once.
   [[nodiscard]] constexpr auto size() const noexcept
-  requires edgelist_detail::has_const_time_num_edges<G>
+  requires edgelist_detail::has_const_time_size<G>
   {
     return adj_list::num_edges(*g_);
   }
@@ -601,7 +612,7 @@ public:
   }
 
   [[nodiscard]] constexpr auto size() const noexcept
-  requires edgelist_detail::has_const_time_num_edges<G>
+  requires edgelist_detail::has_const_time_size<G>
   {
     return adj_list::num_edges(*g_);
   }
@@ -737,7 +748,7 @@ public:
   }
 
   [[nodiscard]] constexpr auto size() const noexcept
-  requires edgelist_detail::has_const_time_num_edges<G>
+  requires edgelist_detail::has_const_time_size<G>
   {
     return adj_list::num_edges(*g_);
   }
-- 
2.43.0


From 6f8be561074439f9eedb12d1b0bf0044f07d105e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 20/24] fix: edges_bfs: cancel_branch remembers more than one
 cancelled branch

---
 include/graph/views/bfs.hpp | 43 +++++++++++--------------------------
 1 file changed, 12 insertions(+), 31 deletions(-)

diff --git a/include/graph/views/bfs.hpp b/include/graph/views/bfs.hpp
index e17e109..31d1943 100644
--- a/include/graph/views/bfs.hpp
+++ b/include/graph/views/bfs.hpp
@@ -217,7 +217,6 @@ namespace bfs_detail {
     cancel_search                                               cancel_    = cancel_search::continue_search;
     std::size_t                                                 max_depth_ = 0;
     std::size_t                                                 count_     = 0;
-    std::optional<vertex_id_type> skip_vertex_id_; // Vertex to skip when processing (for cancel_branch)
 
     bfs_edge_state(G& g, vertex_type seed_vertex, std::size_t num_vertices, Alloc alloc = {})
           : queue_(std::deque<entry_type, queue_alloc>(alloc)), visited_(num_vertices, alloc) {
@@ -768,24 +767,17 @@ public:
         return;
       }
 
-      // Handle cancel_branch: mark the target of last edge to be skipped
+      // Handle cancel_branch: the target of the last edge is the newest queue entry; drop its edges
       if (state_->cancel_ == cancel_search::cancel_branch) {
-        state_->skip_vertex_id_ = current_target_id_;
-        state_->cancel_         = cancel_search::continue_search;
+        auto& last        = state_->queue_.back();
+        last.edge_current = last.edge_end;
+        state_->cancel_   = cancel_search::continue_search;
       }
 
       // Find next tree edge using BFS
       while (!state_->queue_.empty()) {
         auto& current = state_->queue_.front();
 
-        // Check if we should skip this vertex (due to cancel_branch)
-        auto current_vid = adj_list::vertex_id(*g_, current.vertex);
-        if (state_->skip_vertex_id_ && *state_->skip_vertex_id_ == current_vid) {
-          state_->skip_vertex_id_.reset();
-          state_->queue_.pop();
-          continue;
-        }
-
         // Process edges from current vertex
         while (current.edge_current != current.edge_end) {
           auto edge = *current.edge_current;
@@ -809,9 +801,8 @@ public:
             ++state_->count_;
 
             // Store and return this edge
-            current_edge_      = edge;
-            current_target_id_ = target_vid;
-            has_edge_          = true;
+            current_edge_ = edge;
+            has_edge_     = true;
             return;
           }
         }
@@ -824,7 +815,6 @@ public:
     G*                          g_ = nullptr;
     std::shared_ptr<state_type> state_;
     edge_type                   current_edge_{};
-    vertex_id_type              current_target_id_{}; // Target vertex ID of current edge
     bool                        has_edge_ = false;
   };
 
@@ -955,24 +945,17 @@ public:
         return;
       }
 
-      // Handle cancel_branch: mark the target of last edge to be skipped
+      // Handle cancel_branch: the target of the last edge is the newest queue entry; drop its edges
       if (state_->cancel_ == cancel_search::cancel_branch) {
-        state_->skip_vertex_id_ = current_target_id_;
-        state_->cancel_         = cancel_search::continue_search;
+        auto& last        = state_->queue_.back();
+        last.edge_current = last.edge_end;
+        state_->cancel_   = cancel_search::continue_search;
       }
 
       // Find next tree edge using BFS
       while (!state_->queue_.empty()) {
         auto& current = state_->queue_.front();
 
-        // Check if we should skip this vertex (due to cancel_branch)
-        auto current_vid = adj_list::vertex_id(*g_, current.vertex);
-        if (state_->skip_vertex_id_ && *state_->skip_vertex_id_ == current_vid) {
-          state_->skip_vertex_id_.reset();
-          state_->queue_.pop();
-          continue;
-        }
-
         // Process edges from current vertex
         while (current.edge_current != current.edge_end) {
           auto edge = *current.edge_current;
@@ -996,9 +979,8 @@ public:
             ++state_->count_;
 
             // Store and return this edge
-            current_edge_      = edge;
-            current_target_id_ = target_vid;
-            has_edge_          = true;
+            current_edge_ = edge;
+            has_edge_     = true;
             return;
           }
         }
@@ -1012,7 +994,6 @@ public:
     std::shared_ptr<state_type> state_;
     EVF*                        evf_ = nullptr;
     edge_type                   current_edge_{};
-    vertex_id_type              current_target_id_{}; // Target vertex ID of current edge
     bool                        has_edge_ = false;
   };
 
-- 
2.43.0


From f8f275cb108c48c77580608db9d874ff6f53d819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 21/24] fix: undirected_adjacency_list: link a self-loop once,
 so that erasing it leaves no dangling link and edge ranges have the right
 size

---
 .../container/detail/undirected_adjacency_list_impl.hpp  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index bf4bc3f..2806338 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -588,7 +588,8 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::link_front(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.link_front(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.link_front(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v) // a self-loop is listed once
+    v.edges_.link_front(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
 }
 template <typename EV,
           typename VV,
@@ -598,7 +599,8 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::link_back(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.link_back(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.link_back(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v) // a self-loop is listed once
+    v.edges_.link_back(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
 }
 
 template <typename EV,
@@ -609,7 +611,8 @@ template <typename EV,
           typename Alloc>
 void ual_edge<EV, VV, GV, VId, VContainer, Alloc>::unlink(vertex_type& u, vertex_type& v) noexcept {
   u.edges_.unlink(*this, *static_cast<vertex_edge_list_inward_link_type*>(this));
-  v.edges_.unlink(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
+  if (&u != &v) // a self-loop is listed once
+    v.edges_.unlink(*this, *static_cast<vertex_edge_list_outward_link_type*>(this));
 }
 
 template <typename EV,
-- 
2.43.0


From 54bdcd94d61c9cb9fb5ab890e07d580360ff2f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 22/24] fix: undirected_adjacency_list: a copy keeps edges
 created from the vertex with the greater id

---
 .../graph/container/detail/undirected_adjacency_list_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 2806338..7f5ad9d 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1113,8 +1113,8 @@ base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::base_undirec
          uv != src_vtx.edges_end(static_cast<const graph_type&>(other), uid); ++uv) {
       vertex_id_type src_id = uv->list_owner_id();
       vertex_id_type tgt_id = uv->list_target_id();
-      // Only copy each edge once: when uid matches source and source <= target
-      if (uid == src_id && src_id <= tgt_id) {
+      // Only copy each edge once: at the vertex it was created from
+      if (uid == src_id) {
         if constexpr (std::is_void_v<EV>) {
           g.create_edge(src_id, tgt_id);
         } else {
-- 
2.43.0


From 68a217042a05e60ce751e5a535e7d97a80ada498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 23/24] fix:
 undirected_adjacency_list::erase_edge(edge_iterator) unlinks the edge and
 skips its second visit

---
 .../detail/undirected_adjacency_list_impl.hpp          | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/graph/container/detail/undirected_adjacency_list_impl.hpp b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
index 7f5ad9d..cf52b01 100644
--- a/include/graph/container/detail/undirected_adjacency_list_impl.hpp
+++ b/include/graph/container/detail/undirected_adjacency_list_impl.hpp
@@ -1438,9 +1438,13 @@ template <typename EV,
           typename Alloc>
 typename base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::edge_iterator
 base_undirected_adjacency_list<EV, VV, GV, VId, VContainer, Alloc>::erase_edge(edge_iterator pos) {
-  edge_type* uv = &*pos;
-  ++pos;
-  uv->~edge_type(); // unlinks from vertices
+  edge_type*          uv = &*pos;
+  const edge_iterator last(static_cast<graph_type&>(*this), this->vertices_.end());
+  do {
+    ++pos;
+  } while (pos != last && &*pos == uv); // an edge is visited at both of its vertices
+  uv->unlink(this->vertices_[uv->list_owner_id()], this->vertices_[uv->list_target_id()]);
+  uv->~edge_type();
   this->edge_alloc_.deallocate(uv, 1);
   --this->edges_size_;
   return pos;
-- 
2.43.0


From 8f9d4e437d8ed8bdc25426b827979527c0929f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 24/24] fix: undirected_adjacency_list: move assignment frees
 the edges of the target, moved-from graphs have no edges

---
 .../container/undirected_adjacency_list.hpp     | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/graph/container/undirected_adjacency_list.hpp b/include/graph/container/undirected_adjacency_list.hpp
index 28111dd..daf4f97 100644
--- a/include/graph/container/undirected_adjacency_list.hpp
+++ b/include/graph/container/undirected_adjacency_list.hpp
@@ -937,7 +937,11 @@ protected: // Constructors (protected - for derived class use only)
   base_undirected_adjacency_list(const base_undirected_adjacency_list& other);
 
   // Move constructor - moves vertices and edges (derived class handles graph_value_)
-  base_undirected_adjacency_list(base_undirected_adjacency_list&& other) noexcept = default;
+  base_undirected_adjacency_list(base_undirected_adjacency_list&& other) noexcept
+        : vertices_(std::move(other.vertices_))
+        , edges_size_(std::exchange(other.edges_size_, 0))
+        , vertex_alloc_(std::move(other.vertex_alloc_))
+        , edge_alloc_(std::move(other.edge_alloc_)) {}
 
   // Destructor
   ~base_undirected_adjacency_list();
@@ -946,7 +950,16 @@ protected: // Constructors (protected - for derived class use only)
   base_undirected_adjacency_list& operator=(const base_undirected_adjacency_list& other);
 
   // Move assignment operator
-  base_undirected_adjacency_list& operator=(base_undirected_adjacency_list&& other) noexcept = default;
+  base_undirected_adjacency_list& operator=(base_undirected_adjacency_list&& other) noexcept {
+    if (this != &other) {
+      clear(); // the edges aren't owned by the vertices
+      vertices_     = std::move(other.vertices_);
+      edges_size_   = std::exchange(other.edges_size_, 0);
+      vertex_alloc_ = std::move(other.vertex_alloc_);
+      edge_alloc_   = std::move(other.edge_alloc_);
+    }
+    return *this;
+  }
 
   // Range constructors
   template <typename ERng, typename VRng, typename EProj, typename VProj>
-- 
2.43.0

