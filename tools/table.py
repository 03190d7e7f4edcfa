"""The properties: text, anchors, and what is not claimed."""

CA_ = "classes/_caching.py"
G1 = "every graph up to the stated size (edges, stored values, self-edges, labels chosen by the solver)"
NOTE = {}
UNCLAIMED = {}

PROPS = [
    dict(
        id="C03",
        title="Unweighted reachability queries agree with the graph's edges",
        statement="Descendants, ancestors, has_path, is_connected, is_weakly_connected, "
        "node_connected_component and transitive reachability answer exactly what following the "
        "stored edges gives, for every directed or undirected graph, every (possibly permuted or "
        "non-integer) node labelling and every start node. Stored values, a stored zero included, "
        "self-edges and the matrix type (bool, int, float, iso-valued) never change the answer.",
        over=["inputs"],
        text=G1 + " and every start node",
        why="The tests run a few fixed NetworkX graphs; a direction, mask or early-exit mistake that "
        "needs a particular edge set, label order or stored zero is not among them.",
        files=["algorithms/_bfs.py", "algorithms/dag.py", "algorithms/components/connected.py",
               "algorithms/components/weakly_connected.py", "algorithms/shortest_paths/generic.py",
               "algorithms/simple_paths.py"],
        mech=[("level-synchronous BFS with complemented masks", "algorithms/_bfs.py: _plain_bfs, _bidirectional_bfs"),
              ("descendants/ancestors", "algorithms/dag.py"),
              ("has_path", "algorithms/shortest_paths/generic.py"),
              ("connected components", "algorithms/components/*.py")],
    ),
    dict(
        id="C04",
        title="Hop distances and BFS layers are exact",
        statement="single_source_shortest_path_length, single_target_shortest_path_length, "
        "all_pairs_shortest_path_length, bfs_layers and descendants_at_distance return exactly the "
        "nodes reachable within the cutoff with their minimal number of edges, and no other node. "
        "This holds for directed and undirected graphs, every source, every cutoff, several "
        "sources for layers, and independently of stored values and self-edges.",
        over=["inputs"],
        text=G1 + ", every source (set) and cutoff",
        why="Cutoff boundaries, expanding/non-expanding pairs and chunked all-pairs runs are tried on a handful of graphs only.",
        files=["algorithms/_bfs.py", "algorithms/shortest_paths/unweighted.py",
               "algorithms/traversal/breadth_first_search.py"],
        mech=[("level BFS for one source and for a batch of sources", "algorithms/_bfs.py: _bfs_level, _bfs_levels"),
              ("cutoff handling", "algorithms/shortest_paths/unweighted.py"),
              ("layers", "algorithms/traversal/breadth_first_search.py")],
    ),
    dict(
        id="C05",
        title="Bellman-Ford lengths are exact and negative cycles are reported",
        statement="For every directed or undirected weighted graph and every source, the "
        "Bellman-Ford length functions (single source, single pair, all pairs) return the weight "
        "of a minimum-weight walk to every reachable node (and no other), for negative, zero, "
        "integer, boolean and float weights. They raise the Unbounded exception exactly when a "
        "negative cycle is reachable from the source, and NoPath for an unreachable target.",
        over=["inputs"],
        text=G1 + ", every weight within the stated range and every source/target/cutoff",
        why="Early exits, iso-valued and non-negative fast paths each need particular weights; tests check a few fixed weighted graphs.",
        files=["algorithms/shortest_paths/weighted.py", "nxapi/shortest_paths/weighted.py", CA_],
        mech=[("min-plus relaxation with early exit", "algorithms/shortest_paths/weighted.py: _bellman_ford_path_length"),
              ("iso-value and no-negative-edge fast paths", "algorithms/shortest_paths/weighted.py"),
              ("all-pairs batches", "algorithms/shortest_paths/weighted.py: bellman_ford_path_lengths")],
    ),
    dict(
        id="C06",
        title="bellman_ford_path returns a genuine shortest path",
        statement="For every weighted graph, source and target, bellman_ford_path returns a "
        "list of nodes that starts at the source, ends at the target, follows existing edges in "
        "their direction and has minimum total weight. It raises NoPath when there is no path and "
        "Unbounded when a negative cycle is reachable from the source.",
        over=["inputs"],
        text=G1 + ", every weight within the stated range and every source/target pair",
        why="Parents chosen among zero-weight ties, negative edges or self-edges break only on particular weightings.",
        files=["algorithms/shortest_paths/weighted.py", "nxapi/shortest_paths/weighted.py"],
        mech=[("parent reconstruction", "algorithms/shortest_paths/weighted.py: bellman_ford_path"),
              ("exception translation", "nxapi/shortest_paths/weighted.py")],
    ),
    dict(
        id="C07",
        title="negative_edge_cycle decides negative cycles exactly",
        statement="negative_edge_cycle answers True exactly when the graph contains a directed "
        "cycle (a self-edge, or a back-and-forth over a negative undirected edge, included) with "
        "negative total weight, in any component. The answer does not depend on labels or matrix type.",
        over=["inputs"],
        text=G1 + " and every weight within the stated range",
        why="Needs cycles in particular components and cancelling weights; tests use a few graphs.",
        files=["algorithms/shortest_paths/weighted.py"],
        mech=[("detection by n rounds of relaxation from every node", "algorithms/shortest_paths/weighted.py: negative_edge_cycle")],
    ),
    dict(
        id="C09",
        title="Triangle counts, transitivity and clustering coefficients are exact",
        statement="triangles, transitivity, clustering (directed, undirected, one node, node "
        "lists, weighted) and average_clustering equal their definitions over the graph's edges "
        "for every graph, node selection and labelling. Self-edges, stored values (unless a weight "
        "is asked for) and matrix type never contribute.",
        over=["inputs"],
        text=G1 + " and every node selection",
        why="Each of the many code paths (one node, subset mask, all nodes; self-edges present or not) needs its own graphs; tests sample few.",
        files=["algorithms/cluster.py", "nxapi/cluster.py", CA_],
        mech=[("triangle counting by masked products of the triangular parts", "algorithms/cluster.py: triangles, total_triangles"),
              ("transitivity", "algorithms/cluster.py: transitivity, transitivity_directed"),
              ("clustering", "algorithms/cluster.py: clustering, clustering_directed, single_clustering"),
              ("self-edge-free degrees", CA_)],
    ),
    dict(
        id="C10",
        title="Square clustering and generalized degree equal their definitions",
        statement="square_clustering (all nodes, one node, node lists, any chunk size) equals the "
        "fraction of possible squares at each node, with 0 for nodes without any, for every "
        "undirected graph without self-edges. generalized_degree counts, for each asked node, its "
        "edges by the number of triangles they lie in, keyed by those counts. Stored values, "
        "matrix type, labels and chunk size never change the answer.",
        over=["inputs"],
        text=G1 + ", every node selection listed and chunk size",
        why="Chunked, subset and single-node code paths differ and are tested on a few graphs with all edges equal to 1.",
        files=["algorithms/cluster.py", "nxapi/cluster.py", "nxapi/_utils.py", CA_],
        mech=[("squares by masked products of 2-paths, chunked by rows", "algorithms/cluster.py: square_clustering, _square_clustering_split"),
              ("single node", "algorithms/cluster.py: single_square_clustering"),
              ("triangle counts per edge", "algorithms/cluster.py: generalized_degree, single_generalized_degree"),
              ("row chunks", "nxapi/_utils.py: normalize_chunksize, partition")],
    ),
    dict(
        id="C11",
        title="k_truss is the largest subgraph whose edges lie in k-2 triangles",
        statement="For every undirected graph and every k, k_truss returns exactly the maximal "
        "subgraph in which every edge is in at least k-2 triangles of that subgraph, together with "
        "exactly the nodes it touches under their own labels. Self-edges and stored values never matter.",
        over=["inputs"],
        text=G1 + " and k = 0..n+1",
        why="The pruning fixpoint and the label renumbering need graphs where edges fall over several rounds; tests have three fixed graphs.",
        files=["algorithms/core.py", "nxapi/core.py", "classes/_utils.py"],
        mech=[("iterated pruning", "algorithms/core.py: k_truss"),
              ("label renumbering of the compacted result", "classes/_utils.py: renumber_key_to_id")],
    ),
    dict(
        id="C12",
        title="Boundaries, cuts, volumes and community edge counts are exact",
        statement="edge_boundary, node_boundary, cut_size, volume, normalized_cut_size, "
        "conductance, the expansions and the intra/inter community edge counts equal their "
        "definitions over the graph's edges for every graph, node set S and (disjoint or omitted) "
        "T. Without a weight argument stored values never matter, with it exactly the stored "
        "weights are used; a ratio with divisor zero raises ZeroDivisionError.",
        over=["inputs"],
        text=G1 + ", all node sets S and T, all partitions",
        why="Directed/default-T/weighted variants each need asymmetric graphs and stored weights other than 1, which the few test graphs do not have.",
        files=["algorithms/boundary.py", "algorithms/cuts.py", "nxapi/boundary.py", "nxapi/cuts.py",
               "algorithms/community/quality.py", "nxapi/community/quality.py"],
        mech=[("boundaries as submatrix/masked products", "algorithms/boundary.py"),
              ("cut sizes and volumes from cached degrees", "algorithms/cuts.py"),
              ("community edge counts", "algorithms/community/quality.py")],
    ),
    dict(
        id="C13",
        title="Graph operators combine nodes, edges and weights exactly",
        statement="union (with rename), disjoint_union, compose, intersection, difference, "
        "symmetric_difference, full_join, complement, reverse and to_undirected return exactly the "
        "nodes, edges and weights the operator defines, for every pair of graphs and every overlap "
        "and order of their labels. They reject what is not allowed (shared or different node "
        "sets, directed with undirected) and leave their arguments untouched.",
        over=["inputs"],
        text="every pair of graphs up to the stated size, every overlap and order of their labels, every stored value",
        why="Overlapping labels in different orders go through different permutation code, tested for single examples only.",
        files=["algorithms/operators/binary.py", "algorithms/operators/unary.py",
               "nxapi/operators/binary.py", "classes/digraph.py"],
        mech=[("aligned matrix operations", "algorithms/operators/binary.py"),
              ("complement/reverse", "algorithms/operators/unary.py, classes/digraph.py: reverse"),
              ("to_undirected", "classes/digraph.py: to_undirected")],
    ),
    dict(
        id="C14",
        title="Adjacency, Laplacian, modularity and Bethe Hessian matrices are exact",
        statement="adjacency_matrix, laplacian_matrix, normalized_laplacian_matrix, "
        "modularity_matrix, directed_modularity_matrix and bethe_hessian_matrix have, in the "
        "requested node order, exactly the entries their definitions give for every graph, node "
        "list, weighting and dtype. Nodes outside the list contribute only where the definition says so.",
        over=["inputs"],
        text=G1 + " and every ordered node list stated",
        why="Entries depend on the order of node lists, zero total weights and stored values, which tests fix.",
        files=["linalg/graphmatrix.py", "linalg/laplacianmatrix.py", "linalg/modularitymatrix.py",
               "linalg/bethehessianmatrix.py", "nxapi/linalg/modularitymatrix.py"],
        mech=[("adjacency", "linalg/graphmatrix.py"),
              ("Laplacians", "linalg/laplacianmatrix.py"),
              ("modularity", "linalg/modularitymatrix.py"),
              ("Bethe Hessian", "linalg/bethehessianmatrix.py")],
    ),
    dict(
        id="C08",
        title="Floyd-Warshall distances and predecessors are exact",
        statement="floyd_warshall, floyd_warshall_numpy and floyd_warshall_predecessor_and_distance "
        "return, for every ordered pair of nodes, the minimum total weight (or number of edges) of a "
        "walk, and infinity or nothing where there is none. The node order asked for is respected "
        "and following the predecessors leads back along a shortest path, for directed and "
        "undirected graphs, every dtype, self-edges included.",
        over=["inputs"],
        text=G1 + " and every node order stated",
        why="Undirected graphs only compute one triangle and permute it; this needs particular weights and orders to go wrong.",
        files=["algorithms/shortest_paths/dense.py", "nxapi/shortest_paths/dense.py"],
        mech=[("outer min-plus rounds, one triangle for undirected graphs", "algorithms/shortest_paths/dense.py"),
              ("node orders", "nxapi/shortest_paths/dense.py: floyd_warshall_numpy")],
    ),
    dict(
        id="C15",
        title="Degree centralities, predicates and local measures are exact",
        statement="degree/in_degree/out_degree centrality, isolates, is_regular, is_k_regular, "
        "dominating set, tournament questions, reciprocity, s_metric, is_simple_path, is_triad, "
        "mutual_weight and efficiency answer exactly what their definition gives. This holds for "
        "every graph, node set and path, independently of stored values where no weight is asked "
        "for (a self-edge of an undirected graph counts once).",
        over=["inputs"],
        text=G1 + ", every node set and sequence of the stated lengths",
        why="Cached degrees, self-edges, stored zeros and unusual node sequences are not combined in the tests.",
        files=["algorithms/centrality/degree_alg.py", "algorithms/isolate.py", "algorithms/regular.py",
               "algorithms/dominating.py", "algorithms/tournament.py", "algorithms/reciprocity.py",
               "algorithms/smetric.py", "algorithms/simple_paths.py", "algorithms/triads.py",
               "algorithms/structuralholes.py", "algorithms/efficiency_measures.py"],
        mech=[("cached degrees", "classes/_caching.py"),
              ("tournaments", "algorithms/tournament.py"),
              ("reciprocity from the overlap of A and its transpose", "algorithms/reciprocity.py"),
              ("simple paths", "algorithms/simple_paths.py")],
    ),
    dict(
        id="C16",
        title="PageRank, Google matrix and HITS follow their power iteration",
        statement="pagerank and hits return exactly the first iterate of the documented power "
        "iteration that is within N*tol (L1) of the one before, and report failure when there is "
        "none within max_iter. google_matrix has the corresponding entries in the requested node "
        "order. Dangling nodes, self-edges, personalization, dangling weights, starting vectors, "
        "edge weights and graphs without edges are all taken into account as documented.",
        over=["inputs"],
        text=G1 + ", every tolerance and damping factor, the stated distributions",
        why="Tests compare a few converged results on fixed graphs; dangling nodes combined with partial vectors, iso-values or node orders take separate code paths.",
        files=["algorithms/link_analysis/pagerank_alg.py", "algorithms/link_analysis/hits_alg.py",
               "algorithms/_helpers.py", "nxapi/link_analysis/pagerank_alg.py", "nxapi/link_analysis/hits_alg.py"],
        mech=[("power iteration with folded constants", "algorithms/link_analysis/pagerank_alg.py: pagerank"),
              ("dangling rows", "algorithms/link_analysis/pagerank_alg.py: google_matrix"),
              ("normalization and stopping rule", "algorithms/_helpers.py")],
    ),
    dict(
        id="C17",
        title="Eigenvector and Katz centrality follow their power iteration",
        statement="eigenvector_centrality and katz_centrality return, for every node, exactly the "
        "first iterate of the documented iteration that is within N*tol (L1) of the one before, "
        "normalized as asked for, and report failure when there is none within max_iter. This holds "
        "for every graph, edge weighting, alpha, beta (per node too) and starting vector.",
        over=["inputs"],
        text=G1 + ", every tolerance, alpha and beta, the stated starting vectors",
        why="Nodes without in-edges, iso-valued weights and early convergence only matter for particular graphs and parameters.",
        files=["algorithms/centrality/eigenvector.py", "algorithms/centrality/katz.py",
               "nxapi/centrality/eigenvector.py", "nxapi/centrality/katz.py", "algorithms/_helpers.py"],
        mech=[("eigenvector iteration", "algorithms/centrality/eigenvector.py"),
              ("Katz iteration with the iso-value folded into alpha", "algorithms/centrality/katz.py"),
              ("stopping rule", "algorithms/_helpers.py: is_converged")],
    ),
    dict(
        id="C20",
        title="Result containers obey the laws of sets and mappings",
        statement="NodeSet, NodeMap, VectorMap, VectorNodeMap and NodeNodeMap behave like the set or "
        "dict with the same content: membership, lookup, iteration, len, get, equality, set algebra "
        "and comparisons. Labels that are no nodes are simply not in there. This still holds after "
        "every sequence of add, remove, set, delete, pop, popitem, setdefault, update and clear.",
        over=["inputs", "histories"],
        text="every content up to the stated size, with and without fill value, every sequence of operations up to the stated length with every argument",
        why="Results are compared as a whole in tests; unknown labels, fill values, other node orders and sequences of mutations are not tried.",
        files=["classes/nodemap.py", "classes/nodeset.py", "classes/_utils.py"],
        mech=[("maps over a vector, with fill values", "classes/nodemap.py: NodeMap, VectorMap"),
              ("maps over a matrix with cached rows", "classes/nodemap.py: VectorNodeMap, NodeNodeMap"),
              ("sets over a vector", "classes/nodeset.py")],
    ),
    dict(
        id="C01",
        title="Answers do not depend on what was asked of the graph before",
        statement="Graphs cache what they have computed (transposes, triangles, degrees, extrema, "
        "whole results); the cache must be invisible. After any sequence of get_property requests "
        "and public calls, every property of a graph still equals its definition, every call answers "
        "as on a freshly built graph, and edges, stored values and labels are unchanged.",
        over=["inputs", "histories"],
        text="every graph up to the stated size and every history of requests and calls up to the stated length",
        why="One property is often derived from another that happens to be cached; tests build a fresh graph for nearly every call, so wrong derivations need an order of requests that no test uses.",
        files=[CA_, "classes/graph.py", "classes/digraph.py", "classes/_utils.py", "nxapi/cluster.py"],
        mech=[("reductions derived from each other", "classes/_caching.py"),
              ("triangles, self-edges, symmetric shortcuts", "classes/graph.py, classes/digraph.py"),
              ("memoised whole results", "classes/_utils.py: _cacheit; nxapi/cluster.py")],
    ),
    dict(
        id="C02",
        title="Results and arguments are independent objects",
        statement="No call changes its arguments: the edges, stored values and labels of the graph "
        "and the node sets, lists and dicts passed in are the same afterwards. Changing a returned "
        "graph, set, dict, list or map in place changes neither the graph it came from nor any later "
        "answer, and changing the arguments afterwards does not change a result.",
        over=["inputs", "histories"],
        text="every public call, every graph with two nodes (thorough three), every content of the result",
        why="Results are built around the graph's own vectors, label dicts and cached matrices; tests drop them right after comparing.",
        files=["classes/nodemap.py", "classes/nodeset.py", CA_, "classes/digraph.py", "classes/graph.py",
               "algorithms/operators/unary.py"],
        mech=[("results wrapping vectors and matrices", "classes/_utils.py: vector_to_nodemap, ..."),
              ("cached properties handed to results", CA_)],
    ),
    dict(
        id="C18",
        title="could_be_isomorphic never rejects isomorphic graphs",
        statement="fast_could_be_isomorphic and faster_could_be_isomorphic answer True for every "
        "pair of isomorphic graphs, however they are numbered, labelled, stored or typed. They "
        "answer False exactly when the number of nodes differs or the nodes' degrees (together with "
        "their triangles, for fast_ on undirected graphs) are not the same multiset.",
        over=["inputs"],
        text="every pair of graphs up to the stated size and every renumbering",
        why="Sorted invariants of two graphs with different sparsity only differ wrongly for particular pairs.",
        files=["algorithms/isomorphism/isomorph.py", CA_],
        mech=[("sorted degrees and triangles", "algorithms/isomorphism/isomorph.py")],
    ),
    dict(
        id="C19",
        title="Chunking covers every item once, in order, and never changes answers",
        statement="normalize_chunksize, partition and split_evenly divide every list into "
        "consecutive chunks of (nearly) equal size that cover each item exactly once, also for texts "
        "like '10 MiB' or '4 chunks'. Calls with a chunksize argument give for every chunk size "
        "(None, 'all', texts, numbers beyond the number of nodes included) the answer they give "
        "without chunks.",
        over=["inputs", "configurations"],
        text="every number of items up to 2**26 with up to 8 (thorough 14) chunks; every graph and chunk size stated",
        why="Off-by-one errors at chunk borders need a size, chunk count and graph that fit together.",
        files=["algorithms/cluster.py", "algorithms/shortest_paths/unweighted.py",
               "algorithms/shortest_paths/weighted.py", "nxapi/_utils.py", "nxapi/cluster.py"],
        mech=[("chunk sizes from texts", "nxapi/_utils.py: normalize_chunksize"),
              ("even splits", "nxapi/_utils.py: partition, split_evenly"),
              ("chunked algorithms", "nxapi/shortest_paths/*.py, nxapi/cluster.py")],
    ),
    dict(
        id="C21",
        title="NetworkX graphs convert to the same graph, and answers do not depend on it",
        statement="Graph/DiGraph.from_networkx, to_graph and to_networkx keep exactly the nodes, "
        "edges, directions and edge values (1 where there is none), for every label type and order. "
        "Every call gives the same answer for a NetworkX graph as for its converted graph, through "
        "the dispatcher too. Matrix results convert to the dict of their entries and infinities.",
        over=["inputs", "configurations"],
        text="NetworkX graphs up to the stated size with the stated kinds of labels and values",
        why="Self-edges, missing values, other label types and empty rows are not combined in the tests.",
        files=["classes/_utils.py", "classes/graph.py", "classes/digraph.py", "classes/nodemap.py",
               "interface.py", "nxapi/shortest_paths/dense.py"],
        mech=[("conversion", "classes/_utils.py: from_networkx, to_networkx"),
              ("dispatch", "interface.py: Dispatcher"),
              ("matrices to dicts", "classes/_utils.py: matrix_to_dicts, matrix_to_nodenodemap")],
    ),
    dict(
        id="C22",
        title="lowest_common_ancestor is a common ancestor with no lower one below it",
        statement="For every acyclic directed graph, labelling and pair of nodes, "
        "lowest_common_ancestor returns a common ancestor (a node counts as its own ancestor) from "
        "which no other common ancestor can be reached, and the default exactly when there is none.",
        over=["inputs"],
        text="every acyclic graph up to the stated size and every pair of nodes",
        why="Several candidates only appear in particular diamonds; tests use a few trees.",
        files=["algorithms/lowest_common_ancestors.py", "nxapi/lowest_common_ancestors.py"],
        mech=[("common ancestors by reverse BFS, then one leaf of them", "algorithms/lowest_common_ancestors.py")],
    ),
    dict(
        id="C23",
        title="ego_graph is the induced graph of the nodes within the radius",
        statement="ego_graph returns exactly the nodes within the given radius of the centre (in "
        "hops or in the asked distance, along or against nothing but existing edges) and exactly the "
        "edges between them with their stored values, under their own labels. The centre is left out "
        "when asked, and undirected=True follows edges in both directions.",
        over=["inputs"],
        text=G1 + ", every centre, the stated radii and distances",
        why="Limits that are hit exactly, zero distances and label permutations are not combined in the tests.",
        files=["generators/ego.py", "nxapi/generators/ego.py", "algorithms/_bfs.py",
               "algorithms/shortest_paths/weighted.py"],
        mech=[("hops or cut-off Bellman-Ford", "nxapi/generators/ego.py"),
              ("submatrix and labels", "nxapi/generators/ego.py")],
    ),
    dict(
        id="C24",
        title="Requests that make no sense are refused, never answered",
        statement="Calls about a node that is not in the graph raise a KeyError or NetworkX error "
        "(also if that node would be a valid position), calls restricted to directed or undirected "
        "graphs refuse the other kind, and a Floyd-Warshall node list must have every node once. "
        "The graph without nodes is answered or refused like NetworkX does.",
        over=["inputs"],
        text="every graph with two nodes (thorough three), unknown nodes of several types, every restricted call, the empty graph",
        why="The tests hardly ask wrong questions, and positions that are no labels only matter with other labels.",
        files=["classes/_utils.py", "nxapi/traversal/breadth_first_search.py", "nxapi/shortest_paths/generic.py",
               "nxapi/shortest_paths/weighted.py", "nxapi/cluster.py", "nxapi/dag.py"],
        mech=[("labels to positions", "classes/_utils.py: list_to_ids, list_to_vector, dict_to_vector"),
              ("not_implemented_for", "nxapi/**/*.py"),
              ("NodeNotFound", "nxapi/shortest_paths/*.py")],
    ),
    dict(
        id="C25",
        title="Labels and positions translate into each other without loss",
        statement="A graph counts, lists and knows exactly its nodes, and its labels and positions are "
        "inverse to each other. Every translation offered by graphs and result containers (labels to "
        "vectors, masks, ids; vectors and matrices to lists, sets, dicts, maps; renumbering) gives "
        "exactly the stored entries under the right labels, with the fill value exactly where asked. "
        "Several properties requested at once come in the order of their names.",
        over=["inputs", "configurations"],
        text="every list of labels, every vector and matrix over the nodes up to the stated size, int, string and mixed labels",
        why="Lists in another order than the nodes, partial masks, iso-valued matrices and the helpers of containers are not in the tests.",
        files=["classes/_utils.py", "classes/graph.py", "classes/digraph.py", "classes/nodemap.py", "classes/nodeset.py"],
        mech=[("labels to vectors, masks and ids", "classes/_utils.py: list_to_vector, list_to_mask, list_to_ids, set_to_vector, dict_to_vector"),
              ("vectors to labels", "classes/_utils.py: vector_to_dict, vector_to_list, vector_to_set, vector_to_nodemap"),
              ("matrices", "classes/_utils.py: matrix_to_dicts, matrix_to_nodenodemap, matrix_to_vectornodemap"),
              ("several properties", "classes/_utils.py: get_properties")],
    ),
]
