import importlib
from . import common

# property -> spec modules, and the static part of its evidence
STD = "contracts of std:: containers, iterators and algorithms (cppvc/lib.py)"
ABS = "graph access functions and views behave as their abstract contracts (cppvc/lib.py); proved separately in the C22/C25 units, checked at run time here"
SZ = "container sizes are below 2^62"
REAL = "double arithmetic taken as real arithmetic; sums of finite path weights stay below infinity; weight, visitor, comparison and combination functors are pure (less, plus)"
PARTIAL = "partial correctness: termination is not proved (watchdog in the run-time check)"
INFO = {
    "C01": {"mods": ["sp"], "trusted": [STD, ABS],
            "assumptions": [SZ, REAL, PARTIAL, "distances initialised to infinity (documented precondition)",
                            "exactness follows from the proved postcondition (sources at 0, finite = weight of a walk, closed under relaxation) by induction over walks"]},
    "C02": {"mods": ["bf"], "trusted": [STD, ABS],
            "assumptions": [SZ, REAL, "distances initialised to infinity (documented precondition)",
                            "lemma: without a reachable negative cycle some walk of fewer than n edges weighs no more than a given walk",
                            "lemma: n steps in a functional graph on n vertices end on a cycle (find_negative_cycle)",
                            "that the predecessor graph of a reported vertex contains a negative cycle is checked at run time only"]},
    "C03": {"mods": ["bfs"], "trusted": [STD, ABS], "assumptions": [SZ, "sources are distinct and in range", PARTIAL,
            "reachability is the least set closed under edges: the proof shows the discovered set is closed and every discovered vertex is reached by a walk of its level's length"]},
    "C04": {"mods": ["dfs"], "trusted": [STD, ABS], "assumptions": [SZ, "the source is in range", PARTIAL,
            "reachability is the least set closed under edges: the proof shows the discovered set contains the source, is closed and contained in every closed set containing the source"]},
    "C05": {"mods": ["topo"], "trusted": [STD, ABS], "assumptions": [SZ, "sources are in range", PARTIAL,
            "reachability is the least set closed under edges; an order in which all edges go forward admits no cycle"]},
    "C06": {"mods": ["cc"], "trusted": [STD, ABS], "assumptions": [SZ, "the graph is symmetric", PARTIAL]},
    "C09": {"mods": ["dsu"], "trusted": [STD],
            "assumptions": [SZ, "element numbers fit the id type; the rank counter stays below 2^62",
                            "the forest has a rank function decreasing towards roots (every forest made by these operations from singletons has; the operations are proved to keep it)"]},
    "C10": {"mods": ["mst"], "trusted": [STD],
            "assumptions": [SZ, REAL, "ids are below 2^62",
                            "disjoint_union_find is called through its contract, proved for C09",
                            "the comparator is a strict weak order; std::ranges::sort / transform contracts",
                            "lemma: an acyclic edge set on n vertices that can still grow has fewer than n-1 edges (the tree counter does not wrap)",
                            "lemma: an acyclic edge set that joins the ends of every input edge by edges that are not worse is a minimum spanning forest"]},
    "C11": {"mods": ["prim"], "trusted": [STD, ABS],
            "assumptions": [SZ, REAL, PARTIAL, "the graph is symmetric with equal weights in both directions; init_dist is worse than every edge weight (documented)",
                            "the comparator is a strict weak order",
                            "lemma: a spanning tree that joins the ends of every edge by tree edges that are not worse is minimum"]},
    "C12": {"mods": ["tc"], "trusted": [STD, ABS],
            "assumptions": [SZ, PARTIAL, "the graph is symmetric with strictly increasing adjacency lists (documented precondition); the number of triangles is below 2^62"]},
    "C13": {"mods": ["mis"], "trusted": [STD, ABS],
            "assumptions": [SZ, "the graph is symmetric and the seed in range (documented preconditions)"]},
    "C14": {"mods": ["jac"], "trusted": [STD, ABS],
            "assumptions": [SZ, PARTIAL, "real quotients taken exactly; T is double; the output functor does not change the graph",
                            "lemma: counting the members of a second set along an injective listing of the first that covers the common members gives the cardinality of the intersection (its hypotheses are discharged obligations)"]},
    "C15": {"mods": ["lp"], "trusted": [STD, ABS],
            "assumptions": [SZ, PARTIAL, "one label per vertex; labels are integers with structural equality and hashing",
                            "std::shuffle permutes, std::uniform_int_distribution draws within its bounds (contracts); the challenger label and the label property of the contract are arbitrary, hence universal"]},
    "C18": {"mods": ["csr"], "trusted": [STD],
            "assumptions": [SZ, "proved for load_edges and load_vertices of compressed_graph with void, integral and floating edge and vertex values, before or after each other; the loaded sequence and vertex values are arbitrary",
                            "largest id + 1 fits the id type, edge counts fit the edge index type, the projection is the identity, no edges were loaded before (documented preconditions)",
                            "vertex values exist only once load_vertices was called",
                            "reading the loaded graph (vertices, edges, targets, values) is C25; partitions, constructors, single-pass ranges and copies are checked at run time only"]},
    "C19": {"mods": ["load"], "trusted": [STD],
            "assumptions": [SZ, "proved for load_edges (inferred and explicit vertex count) and load_vertices (lvalue and const ranges) of dynamic_graph over vector and deque vertex containers with vector, deque, list and forward_list edge containers, void and integral values, 32-bit ids; the prior graph value and the loaded sequence are arbitrary",
                            "the projection is the identity; edge counts stay below 2^62",
                            "each row being exactly the loaded edges of its vertex follows from the proved length (old length + number of loaded edges with that source) and the proved place of every loaded edge in it",
                            "map and unordered_map vertex containers, set and map edge containers, single-pass ranges, constructors and partitions are checked at run time only"]},
    "C20": {"mods": ["load"], "trusted": [STD],
            "assumptions": [SZ, "proved for load_edges of bidirectional dynamic_graph over vector and deque vertex containers with vector, deque, list and forward_list edge containers, and for the in- and out-edge access functions also over std::map vertex containers; graph value and sequence arbitrary",
                            "that in-rows mirror out-rows follows from the proved contract: loaded edge j is at its counted place in the out-row of its source and in the in-row of its target, both rows have no other new elements, and what was there stays",
                            "the number of vertices is representable in the id type",
                            "set edge containers, copies and clear are checked at run time only"]},
    "C22": {"mods": ["views"], "trusted": [STD],
            "assumptions": [SZ, "proved for vector and deque outer containers with vector, deque and list rows, std::map outer containers, and dynamic_graph over vector, deque, list, forward_list and map containers, with out- and in-edge accessors; the graph value, positions and value functions are arbitrary",
                            "begin/++/end/equality lemmas for every position give the whole iteration by induction over the position (that induction is not mechanised)",
                            "the number of vertices is representable in the id type and edges name vertices of the graph", "views over compressed_graph and undirected_adjacency_list, edgelist sizes, adaptors and view copies are checked at run time only"]},
    "C23": {"mods": ["trav"], "trusted": [STD, ABS],
            "assumptions": [SZ, PARTIAL, "proved for clients that walk vertices_bfs/dfs and edges_bfs/dfs views (without and with a value function) from begin to end over the abstract graph, with an arbitrary cancel decision per visited vertex or edge (each vertex comes up at most once, so decisions are functions of the vertex)",
                            "the source is in range",
                            "reachability and distance are least fixed points: the proof shows the visited set is closed under uncancelled edges and every visited vertex has a walk (of its level's length for bfs)",
                            "topological-sort views and their cycle reports, in-edge accessors and copies of iterators are checked at run time only"]},
    "C24": {"mods": ["trans"], "trusted": [STD],
            "assumptions": [SZ, "proved for bidirectional dynamic_graph over vector, deque and map vertex containers with vector and deque edge containers and void, integral and floating values; the graph value, vertex and edge numbers are arbitrary",
                            "the number of vertices is representable in the id type and the queried edge names a vertex of the graph",
                            "that in_edges(g,u) mirrors the out-edges is C20; has_edges, contains_edge, find_vertex_edge over the transpose are checked at run time only"]},
    "C25": {"mods": ["cpo"], "trusted": [STD],
            "assumptions": [SZ, "proved for vector and deque outer containers with vector, deque, list and forward_list rows and std::map outer containers, rows holding plain ids, pairs and tuples; the graph value, indices and ids are arbitrary",
                            "begin/++/end/equality lemmas for every position give the whole iteration by induction over the position (that induction is not mechanised)",
                            "descriptor hashing, user-overridden customisations, copies and moves of graphs, nested projections and the concept checks are checked at run time only"]},
    "C26": {"mods": ["cpo"], "trusted": [STD],
            "assumptions": [SZ, "proved for pair, tuple (2, 3, 4), edge_data (with and without source, value, edge; reference edge) and edge_descriptor elements over integral and class ids; the element is arbitrary",
                            "edge-list concept checks, iteration of a whole edge list and the algorithms' use of it are checked at run time only"]},
}
BOUNDED = "bounded: the property's contract is executed as assertions (brute-force oracle) on all graphs with up to 3 vertices, fixed shapes of up to a few hundred vertices and random graphs, under ASan/UBSan; not a proof"
for p, why in {
    "C07": "the two-pass argument over shared timestamps is not yet under contract",
    "C08": "the lock-free link loop over a forest of representatives is not yet under contract",
    "C16": "low-point theory (cut vertices in terms of low and discovery times) is not yet under contract",
    "C17": "low-point theory and the edge stack are not yet under contract",
    "C21": "",
}.items():
    if p not in INFO:
        INFO[p] = {"mods": [], "level": "exploration", "technique": "bounded run-time assertion checking of the contract (stand-in for deductive verification)",
                   "note": BOUNDED + ("; " + why if why else ""), "explanation": BOUNDED, "trusted": [], "assumptions": []}
NA = {}


def units_of(prop):
    for m in INFO.get(prop, {}).get("mods", []):
        importlib.import_module("specs." + m)
    return common.REG.get(prop, [])
