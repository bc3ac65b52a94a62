#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements stay easy to review)."""
import json, os
A="include/graph/algorithm/"; V="include/graph/views/"; C="include/graph/container/"; D="include/graph/adj_list/"
P=[]
def prop(id,title,statement,over,quant,why,files,mech,observe=(),state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=quant),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      observe_at=list(observe),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],hook_needed=None)))
I=("inputs",); IC=("inputs","configurations"); H=("inputs","histories")
prop("C01","Dijkstra returns exact shortest distances and a valid predecessor tree",
 "For every graph with non-negative edge weights and every set of source vertices, after Dijkstra the distance of each vertex reachable from a source is the minimum total weight over all walks from any source, every unreachable vertex keeps the initial 'infinite' distance, and each reached non-source vertex's predecessor is a vertex with an edge to it whose weight closes the distance exactly. A negative weight met during the search, an out-of-range source or a too-small output range is reported with std::out_of_range instead of producing a result.",
 I,"all finite directed multigraphs (self-loops, parallel edges, zero weights, disconnected parts), all source sets including empty and repeated, all non-negative weight functions",
 "Tests compare a few dozen fixed graphs against hand-computed distances; they cannot cover all graphs, tie patterns, zero-weight cycles or multi-source sets.",
 [A+"dijkstra_shortest_paths.hpp",A+"traversal_common.hpp"],
 [("dijkstra_shortest_paths","relax + re-push priority queue"),("relax_target","lambda in dijkstra_shortest_paths"),("init_shortest_paths",A+"traversal_common.hpp")],
 ["distances[]","predecessor[]","thrown exception type"])
prop("C02","Bellman-Ford returns exact shortest distances or reports a negative cycle",
 "For every graph and real edge weights, when no negative cycle is reachable from the sources Bellman-Ford returns no vertex, each reachable vertex's distance is the minimum walk weight from the sources and unreachable vertices keep the infinite distance; when a negative cycle is reachable it returns a vertex. Unreachable parts of the graph never influence the result, and argument errors (source out of range, output range too small) throw std::out_of_range. Extracting the cycle from a returned vertex yields a closed predecessor walk.",
 I,"all finite directed multigraphs and weight assignments for which walk sums are representable, all source sets",
 "Tests use a handful of graphs; early exit, number of rounds, and the treatment of infinite distances depend on edge order and graph shape over all inputs.",
 [A+"bellman_ford_shortest_paths.hpp",A+"traversal_common.hpp"],
 [("bellman_ford_shortest_paths","N rounds of relaxation plus a detection pass"),("find_negative_cycle","walk over predecessor[]")],
 ["distances[]","predecessor[]","returned optional vertex id"])
prop("C03","Breadth-first search visits exactly the reachable vertices, once, level by level",
 "For every graph and set of distinct in-range sources, breadth_first_search discovers, examines and finishes exactly the vertices reachable from the sources, each exactly once, examines every out-edge of every reached vertex exactly once, and examines vertices in non-decreasing order of hop distance from the sources.",
 I,"all finite directed multigraphs, all source sets",
 "Event sequences are only tested on small fixed graphs; the guarantee is over all graphs and all source sets.",
 [A+"breadth_first_search.hpp"],[("breadth_first_search","visited marks and FIFO queue")],["visitor event trace"])
prop("C04","Depth-first search discovers exactly the reachable set and classifies edges",
 "For every graph and in-range source, depth_first_search discovers and finishes exactly the reachable vertices, each exactly once and properly nested, and examines every out-edge of each of them exactly once. Each examined edge is reported as exactly one of tree (target undiscovered), back (target discovered and unfinished) or forward/cross (target finished), judged at the moment of examination.",
 I,"all finite directed multigraphs and all sources",
 "Edge classification is tested on small fixed graphs; the nesting and exactly-once guarantees are over all graphs.",
 [A+"depth_first_search.hpp"],[("depth_first_search","three-colour marking with an explicit stack of edge iterators")],["visitor event trace"])
prop("C05","Topological sort orders every edge forward and detects every cycle",
 "For every graph, topological_sort returns false exactly when a directed cycle (self-loops included) is reachable from the requested sources (from any vertex when no sources are given), and then writes nothing. Otherwise it returns true and writes every requested reachable vertex exactly once such that every edge goes from an earlier to a later vertex.",
 I,"all finite directed multigraphs, all source sets including repeated sources",
 "Tests sample small DAGs and cycles; all graphs and source sets cannot be enumerated.",
 [A+"topological_sort.hpp"],[("topological_sort","reverse finish order"),("detail::topological_sort_dfs_visit","grey-target test")],["output sequence","return value"])
prop("C06","connected_components labels two vertices alike iff they are connected",
 "For every symmetric (undirected) graph, connected_components gives two vertices the same label exactly when a path joins them, uses precisely the labels 0..k-1 and returns k, the number of components.",
 I,"all finite symmetric multigraphs, including isolated vertices and the empty graph",
 "Tests check a few graphs; the equivalence must hold for every pair of vertices of every graph.",
 [A+"connected_components.hpp"],[("connected_components","stack flood fill per unlabelled vertex")],["component[]","return value"])
prop("C07","kosaraju computes exactly the strongly connected components",
 "For every directed graph, both kosaraju overloads (explicit transpose, and bidirectional in-edges) assign two vertices the same label exactly when each is reachable from the other, and use contiguous labels starting at 0.",
 IC,"all finite directed multigraphs; both overloads",
 "The tests' graphs do not exercise sibling edges between vertices pushed together; correctness depends on finish order over all graphs.",
 [A+"connected_components.hpp"],[("kosaraju","finish order pass plus transpose flood fill")],["component[]"])
prop("C08","afforest labels two vertices alike iff they are connected",
 "For every symmetric graph (or directed graph plus its transpose) and every number of neighbour rounds, afforest leaves the component array with equal entries exactly for connected vertices, each entry naming a vertex of that component, and it terminates normally for the empty graph too.",
 IC,"all finite graphs, all neighbour_rounds values, both overloads",
 "Sampling and neighbour rounds make the code path depend on sizes and degree patterns that tests do not cover.",
 [A+"connected_components.hpp"],[("link","hook larger root to smaller"),("compress","pointer jumping"),("sample_frequent_element","skip the largest component")],["component[]"])
prop("C09","Disjoint-set operations keep an exact partition",
 "On every reachable disjoint-set forest, find returns the representative of the element's class and changes no class, union and union-find merge exactly the classes of their two arguments and no others, and union-find returns true exactly when the two classes were distinct. Every operation terminates.",
 H,"all sequences of find/union/union-find operations over all universes",
 "Path compression and rank updates depend on the whole operation history; tests run a few short histories.",
 [A+"mst.hpp"],[("disjoint_find","path compression"),("disjoint_union","rank link"),("disjoint_union_find","rank link with result")],["class structure of the forest"])
prop("C10","Kruskal produces a minimum spanning forest of the edge list",
 "For every non-empty list of weighted edges, kruskal and inplace_kruskal output a subset of the input edges that is acyclic and connects exactly the vertices the input connects, with minimum total weight with respect to the comparator, and return that total weight and the number of trees over ids 0..max id. An empty list yields an empty tree with weight 0; kruskal does not modify its input and inplace_kruskal only permutes it.",
 IC,"all finite edge lists (self-loops, duplicates, ties, single edge, any id order), any strict weak order",
 "Tests use a few edge lists; minimality, acyclicity and the one-edge and id-gap cases are over all lists.",
 [A+"mst.hpp"],[("kruskal","sort + union-find"),("inplace_kruskal","sort + union-find"),("disjoint_union_find","cycle test")],["output edge list","returned weight and component count"])
prop("C11","Prim grows a minimum spanning tree of the seed's component",
 "For every symmetric weighted graph and in-range seed, prim sets predecessors so that the vertices connected to the seed form a tree rooted at it using existing edges, the recorded weights are the weights of those edges, and the total weight returned is the minimum over all spanning trees of that component. An out-of-range seed or a too-small output range throws std::out_of_range.",
 I,"all finite symmetric weighted multigraphs, all seeds",
 "Tests check a few graphs; minimality and acyclicity depend on queue order and re-parenting over all inputs.",
 [A+"mst.hpp"],[("prim","priority queue and lazy relaxation")],["predecessor[]","weight[]","return value"])
prop("C12","triangle_count returns the exact number of triangles",
 "For every symmetric graph with strictly increasing adjacency lists, triangle_count returns exactly the number of unordered vertex triples that are pairwise adjacent; self-loops never contribute.",
 I,"all finite simple symmetric graphs with sorted adjacency",
 "The merge of two sorted lists has off-by-one cases that depend on list shapes beyond the sampled ones.",
 [A+"tc.hpp"],[("triangle_count","merge intersection of suffixes")],["return value"])
prop("C13","maximal_independent_set output is independent, maximal and counted",
 "For every symmetric graph and in-range seed, the vertices written are distinct, loop-free and pairwise non-adjacent, every loop-free vertex not written is adjacent to a written one, the seed is written when it has no self-loop, and the return value is the number written.",
 I,"all finite symmetric multigraphs with or without self-loops, all seeds",
 "Independence and maximality are universally quantified over vertices and graphs; the tests sample a few.",
 [A+"mis.hpp"],[("maximal_independent_set","removed_vertices marks")],["output sequence","return value"])
prop("C14","jaccard_coefficient reports the exact neighbourhood similarity per edge",
 "For every graph, jaccard_coefficient reports every non-loop edge exactly once, in iteration order, with the value |N(u) intersect N(v)| / |N(u) union N(v)| where N excludes self-loops and counts parallel edges once.",
 I,"all finite directed multigraphs",
 "Set sizes and swap of the smaller/larger set depend on arbitrary neighbourhood shapes.",
 [A+"jaccard.hpp"],[("jaccard_coefficient","neighbour sets and intersection loop")],["callback arguments"])
prop("C15","label_propagation only adopts most frequent neighbour labels",
 "For every graph, labelling, random engine and iteration limit, every label a vertex ends with was carried by some vertex (or is its own initial label), vertices without (labelled) neighbours never change, the empty label never spreads, and a run that stops before the limit ends in a state where each vertex with labelled neighbours holds a most frequent label among them; a limit of 0 changes nothing.",
 IC,"all finite graphs, labels, engines, iteration limits; both overloads",
 "Random order and tie breaking make outcomes nondeterministic; tests fix seeds and sizes.",
 [A+"label_propagation.hpp"],[("label_propagation","frequency count, max and random tie break")],["label[]"])
prop("C16","articulation_points emits exactly the cut vertices, once each",
 "For every symmetric multigraph (parallel edges and self-loops allowed), articulation_points writes exactly the vertices whose removal increases the number of connected components, each exactly once, without reading memory it no longer owns.",
 I,"all finite symmetric multigraphs, of any depth",
 "Low-link propagation depends on DFS shape; tests use small graphs, and memory errors appear only beyond internal block sizes.",
 [A+"articulation_points.hpp"],[("articulation_points","disc/low with explicit stack")],["output sequence"])
prop("C17","biconnected_components partitions the edges into maximal biconnected parts",
 "For every symmetric multigraph, biconnected_components appends one vertex set per maximal biconnected component: two vertices joined by an edge share exactly one of the sets, two sets share at most one vertex, and isolated vertices form singleton sets.",
 I,"all finite symmetric multigraphs",
 "Edge-stack flushing depends on DFS shape over all graphs; tests use small graphs.",
 [A+"biconnected_components.hpp"],[("biconnected_components","disc/low and edge stack flush")],["components container"])
prop("C18","compressed_graph stores exactly the edges and values it was loaded with",
 "For every edge sequence ordered by source id (and every vertex value sequence), loading a compressed_graph makes each vertex's edges exactly the loaded edges with that source, in order, with their targets and values, and num_vertices and num_edges agree with the input; ids, edge ranges, sizes and value access stay mutually consistent. Unordered edges are rejected with an exception, partitions cover the vertices exactly, and loading vertices and edges in either order gives the same graph.",
 H,"all ordered edge sequences (gaps, isolated and trailing vertices, empty input), all vertex sequences and load orders",
 "Row-index fill-in depends on gaps and order in the input; tests load a few lists.",
 [C+"compressed_graph.hpp"],[("load_edges","row index fill"),("load_vertices","row value fill"),("terminate_partitions","sentinel partition"),("edges/vertices/target_id friends","CSR access")],["edges(g,u)","num_edges(g)","vertex_value/edge_value"])
prop("C19","dynamic_graph stores exactly the edges and values it was loaded with",
 "For every vertex and edge sequence, loading a dynamic_graph (vector, map and other container traits) makes each vertex's out-edges exactly the loaded edges with that source subject to the edge container's ordering and uniqueness, with targets and values preserved, with vertex lookup and degrees consistent with them, and num_edges(g) counting the edges loaded (also those a set or map container drops as duplicates); later loads add to what is there.",
 ("inputs","histories","configurations"),"all edge and vertex sequences, load orders, container traits",
 "The traits matrix is tested on fixed small lists; unordered ids, growth and repeated loads are not exhausted.",
 [C+"dynamic_graph.hpp",C+"container_utility.hpp"],[("load_edges","emplace per source vertex"),("load_vertices","assign values"),("find_vertex","lookup")],["edges(g,u)","num_edges(g)","vertex_value/edge_value"])
prop("C20","Bidirectional graphs keep in-edges the exact mirror of out-edges",
 "For every loaded bidirectional dynamic_graph, v lists an in-edge from u exactly as many times as u lists an out-edge to v, source_id, target_id and edge values agree between the two directions, and degrees count both sides consistently.",
 ("inputs","histories","configurations"),"all edge sequences and container traits that support in-edges",
 "Tests check small fixed graphs; mirroring must hold for each edge of every graph.",
 [C+"dynamic_graph.hpp",D+"detail/graph_cpo.hpp"],[("load_edges","adds the reverse entry"),("in_edges","CPO")],["in_edges(g,v)","source_id(g,uv)"])
prop("C21","undirected_adjacency_list stays a consistent doubly linked multigraph",
 "After any sequence of construction, vertex and edge insertion, edge erasure, clear, copy, move and swap, every edge of an undirected_adjacency_list appears exactly in the edge lists of its two endpoints (with the other endpoint as target), degrees and the edge count match, iteration terminates and visits each incident edge once, and erased or moved-from structure is never reached. Copies are independent of the original.",
 H,"all histories of create/erase/clear/copy/move/swap over all graphs, self-loops included",
 "Intrusive link manipulation depends on history; tests run short scripts.",
 [C+"undirected_adjacency_list.hpp",C+"detail/undirected_adjacency_list_impl.hpp"],[("create_edge/link_back/unlink","intrusive list surgery"),("erase_edge","removes both links")],["edges(g,u)","num_edges"])
prop("C22","Vertex, edge, incidence and neighbour views enumerate exactly the graph",
 "For every graph, vertexlist yields each vertex once in order, incidence(u) yields exactly the out-edges of u in order, neighbors(u) the corresponding target vertices and edgelist the concatenation over all vertices, each element carrying the matching ids, descriptors and value-function result; the basic and value-function variants agree with the plain ones, and size/empty agree with iteration.",
 IC,"all graphs and vertices, all view variants (basic_, value function, in_/out_)",
 "Edge cases (empty vertices at the start, middle and end) multiply with variants; tests sample a few.",
 [V+"vertexlist.hpp",V+"incidence.hpp",V+"neighbors.hpp",V+"edgelist.hpp"],[("edgelist_view iterator","skips vertices without edges"),("incidence_view/neighbors_view iterators","wrap edge descriptor iteration"),("vertexlist_view","wraps vertices(g)")],["yielded tuples"])
prop("C23","BFS, DFS and topological views traverse exactly what they promise",
 "For every graph and seed, the BFS and DFS vertex and edge views yield every vertex reachable from the seed exactly once (edge views: exactly the tree edges, so each reachable non-seed vertex once), BFS in non-decreasing depth and DFS in preorder, with depth and count accessors matching; cancelling a branch omits only what is reachable solely through it and cancelling all ends the traversal. The topological view yields every vertex once with edges forward, and the safe variants report a cycle exactly when one exists.",
 IC,"all graphs, seeds, view variants and cancellation points",
 "Iterator state machines are tested on small graphs; cancellation at arbitrary points is not enumerated.",
 [V+"bfs.hpp",V+"dfs.hpp",V+"topological_sort.hpp",V+"search_base.hpp"],[("iterator advance","queue/stack of frames with visited tracker"),("cancel","cancel_branch/cancel_all"),("topological state","DFS post-order")],["yielded sequence","depth()","num_visited()"])
prop("C24","The transpose view is the exact reversal of the graph",
 "For every bidirectional graph with random-access edge containers (the documented scope of the view), the transpose view has the same vertices, its out-edges of v are exactly the in-edges of v in the base graph with source and target exchanged, its in-edges are the base out-edges, and transposing twice gives back the base adjacency.",
 IC,"all bidirectional graphs with index-based edge descriptors",
 "Tests check fixed graphs; the correspondence is per edge over all graphs.",
 [V+"transpose.hpp"],[("transpose_view friends","swap edges and in_edges, source_id and target_id")],["edges(t,v)","in_edges(t,v)","target_id(t,e)"])
prop("C25","Vertex and edge descriptors identify vertices and edges faithfully",
 "For every graph that the adjacency-list interface accepts, iterating vertices yields num_vertices distinct descriptors whose ids find back the same vertex, iterating a vertex's edges yields its degree many distinct descriptors that report that vertex as source and the stored target and value, and descriptor equality, ordering and hashing agree with identity. Incrementing or advancing a descriptor moves to exactly the next vertex or edge.",
 IC,"all graphs in all supported representations (random-access and map-like vertex storage, all edge element shapes)",
 "The CPO resolution matrix (representation x edge shape x operation) is tested point-wise on tiny graphs.",
 [D+"vertex_descriptor.hpp",D+"edge_descriptor.hpp",D+"vertex_descriptor_view.hpp",D+"edge_descriptor_view.hpp",D+"detail/graph_cpo.hpp","include/graph/detail/edge_cpo.hpp"],[("vertex_descriptor","index or iterator storage"),("edge_descriptor","edge storage plus source"),("descriptor views","iteration"),("CPO defaults","vertices, find_vertex, edges, target_id, source_id, degree")],["ids, equality, hash, iteration counts"])
prop("C26","Edge-list access functions agree on every supported edge representation",
 "For every edge list of pairs, tuples, edge_data objects or edge descriptors, source_id, target_id and edge_value return the stored components unchanged.",
 IC,"all edge lists over the supported element shapes",
 "Each shape is tested on a couple of values.",
 ["include/graph/edge_list/edge_list.hpp","include/graph/edge_list/edge_list_descriptor.hpp","include/graph/detail/edge_cpo.hpp"],[("edge_cpo","per-shape dispatch")],["returned ids and values"])
if __name__=="__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
        for p in P:
            assert len(p["title"])<=80,(p["id"],len(p["title"]))
            f.write(json.dumps(p)+"\n")
    print(len(P))
