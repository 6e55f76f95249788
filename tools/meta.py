#!/usr/bin/env python3
"""Generates /verif/properties.jsonl and /verif/MANIFEST.json from the table below and propconf.CONF."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from propconf import CONF
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe or []))
L = "src/libscotch/"
SAMPLED = "The test suite runs each routine on a handful of fixed graphs and mostly looks at the return code; "

prop("G01", "Graph files round-trip exactly",
 "Saving any valid graph and loading it back yields the same graph: same vertex count, adjacency, vertex loads, edge loads and vertex labels, whatever the base value and memory layout of the source. Loading honours the requested base value and the flags asking to ignore vertex or edge loads, and reads exactly one graph from the stream, leaving what follows it untouched.",
 ["inputs"], "all valid graphs, all bases, compact and non-compact layouts, all optional-array combinations, all load flags",
 SAMPLED + "file I/O is only checked by loading a few committed files.", [L+"graph_io.c", L+"library_graph.c", L+"common_integer.c"],
 [("graphSave/graphLoad symmetrical encoders", L+"graph_io.c")], "property-based round-trip testing against a graph model", "Exact equality with the model on every generated graph; exploration only.")
prop("G02", "Graph consistency check accepts exactly the consistent graphs",
 "The graph checking routine returns success on every consistent graph, and failure on every graph that breaks a documented rule: an edge end out of range, a missing or duplicated reverse arc, different loads on the two arcs of an edge, a loop, wrong counts or bounds, negative loads or a load sum that overflows. It never modifies the graph.",
 ["inputs"], "all valid graphs and all single corruptions of them", SAMPLED + "no test feeds an inconsistent graph to the checker.", [L+"graph_check.c"],
 [("graphCheck", L+"graph_check.c")], "mutation-based property testing (valid graph + one corruption) against a model validator", "Decides acceptance/rejection on generated graphs and on ten corruption classes.")
prop("G03", "Graph accessors and statistics report the graph that was built",
 "For every graph built from user arrays, the size, data and statistics accessors return the values that a direct computation on those arrays gives (counts, sums, minima, maxima, averages and deviations of loads and degrees), and changing the base value shifts every index consistently and can be undone.",
 ["inputs"], "all valid graphs, layouts and bases", SAMPLED + "statistics are printed but never compared.", [L+"graph_base.c", L+"library_graph.c", L+"library_graph_base.c"],
 [("SCOTCH_graphStat, SCOTCH_graphData, graphBase", L+"library_graph.c")], "property-based differential testing against a reference computation", "Integer quantities compared exactly, averages within 1e-6.")
prop("G04", "Induced subgraphs keep exactly the selected vertices and edges between them",
 "Inducing a graph from a vertex list or from a part array yields the graph whose vertices are the selected ones, in list order (or increasing order), whose edges are exactly the original edges with both ends selected, with their loads. The result is a consistent graph in the same base, the original is left unchanged, and the same holds for graphs bound to an execution context and for graphs that were themselves induced.",
 ["inputs"], "all graphs, lists and part arrays", SAMPLED + "one test induces fixed subsets.", [L+"graph_induce.c", L+"library_graph_induce.c"],
 [("graphInduceList/graphInducePart", L+"graph_induce.c")], "property-based testing against a set-theoretic model", "Exact comparison with the model.")
prop("G05", "Coarse graphs are the exact quotient of a valid matching",
 "Any matching computed by the library pairs each vertex with itself, a neighbour or (unless forbidden) another vertex when one of the two is isolated, and respects the requested coarsening thresholds. The coarse graph built from a computed or user-provided matching has one vertex per pair, summed vertex loads, and one edge per pair of adjacent coarse vertices carrying the sum of the collapsed edge loads; the multinode array describes the pairs.",
 ["inputs", "configurations"], "all graphs, ratios, flags, user matchings, and thread counts 1 to 4", SAMPLED + "coarsening is run on one graph.", [L+"graph_coarsen.c", L+"graph_coarsen_edge.c", L+"graph_match.c", L+"graph_match_scan.c", L+"library_graph_coarsen.c"],
 [("graphMatch / graphCoarsen3", L+"graph_coarsen.c")], "property-based testing against a quotient-graph model", "Exact comparison of the coarse graph with the quotient; thread schedules are sampled by the OS.")
prop("G06", "Graph colourings are proper",
 "The colouring routine always terminates with every vertex coloured, adjacent vertices differently coloured, colours numbered from 0 with none unused, and the reported number of colours equal to the number used. The graph is left unchanged.",
 ["inputs"], "all graphs and random seeds", SAMPLED + "the test never compares neighbours' colours.", [L+"library_graph_color.c"],
 [("Luby-like rounds", L+"library_graph_color.c")], "property-based testing of the colouring invariant", "Invariant evaluated on every edge.")
prop("G07", "Pseudo-diameter is a real distance of the graph",
 "The pseudo-diameter returned for a graph is a distance actually realised between two vertices of each (or some) connected component: it never exceeds the true diameter, is never below half of it, is exact on trees, and accounts for edge loads when present.",
 ["inputs"], "all graphs", SAMPLED + "the value is never compared to a true diameter.", [L+"graph_diam.c", L+"library_graph_diam.c"],
 [("graphDiamPV", L+"graph_diam.c")], "property-based differential testing against all-pairs shortest paths", "Bounds against exact distances.")
prop("G08", "External graph formats are read and written faithfully",
 "Graphs and coordinates read from Chaco, MatrixMarket and Harwell-Boeing files are the graphs those files describe (symmetrised pattern, no loops, weights where the format has them), graphs written in a foreign format describe the same graph, and Scotch geometry files attach to each vertex the coordinates given for its label.",
 ["inputs"], "all graphs encodable in each format, with comments, blank lines and coordinate orders", SAMPLED + "only one committed file per format is read.", [L+"graph_io_chac.c", L+"graph_io_habo.c", L+"graph_io_mmkt.c", L+"graph_io_scot.c", L+"geom.c"],
 [("graphGeomLoad*/graphGeomSave*", L+"graph_io_chac.c")], "property-based round-trip and differential testing of format codecs", "Model graph encoded by an independent writer and decoded by an independent reader.")
prop("G09", "Loaders survive arbitrary file contents",
 "Loading a graph, mesh, geometry, architecture, mapping, ordering or strategy from any byte sequence either fails cleanly with an error or yields an object that passes its consistency check; it never crashes, corrupts memory or hangs. An intact object saved by the library is never rejected.",
 ["inputs"], "all byte sequences, sampled as structured mutations of valid files", "The tests load well-formed files only.", [L+"graph_io.c", L+"mesh_io.c", L+"arch.c", L+"mapping_io.c", L+"order_io.c", L+"parser_yy.y", L+"common_integer.c"],
 [("return-code checks after every read", L+"graph_io.c")], "mutational fuzzing of every text loader under AddressSanitizer", "Mutations: token edits, truncation, numeric extremes, splices.")
prop("M01", "Mesh files round-trip and mesh accessors report the mesh",
 "Saving any valid mesh and loading it back yields the same mesh (elements, nodes, adjacency, loads, labels) in the requested base; size, data and statistics accessors agree with a direct computation; the mesh check accepts every valid mesh and rejects every mesh with an out-of-range, one-sided, duplicated or same-kind adjacency.",
 ["inputs"], "all valid meshes (elements first or nodes first), bases and layouts", SAMPLED + "meshes are loaded from two files.", [L+"mesh.c", L+"mesh_io.c", L+"mesh_check.c", L+"library_mesh.c"],
 [("meshLoad/meshSave/meshCheck", L+"mesh_io.c")], "property-based round-trip and mutation testing against a mesh model", "Exact comparison.")
prop("M02", "Graphs derived from meshes link exactly the related entities",
 "The graph of a mesh has one vertex per node and an edge between two nodes exactly when some element holds both, with node loads preserved; the dual graph has one vertex per element and an edge between two elements exactly when they share at least the requested number of nodes, or, for small elements, at least one node less than the smaller of the two has.",
 ["inputs"], "all meshes, bases and share thresholds", SAMPLED + "only the return code is looked at.", [L+"mesh_graph.c", L+"mesh.c", L+"library_mesh_graph.c"],
 [("meshGraph / meshGraphDual", L+"mesh_graph.c")], "property-based testing against a set-theoretic model", "Exact comparison.")
prop("M03", "Mesh orderings are valid elimination orderings",
 "Ordering any mesh yields a permutation of its nodes and its inverse, column block ranges that partition the nodes, and a block tree whose parents come after their children, such that nodes of unrelated blocks never share an element; the mesh is left unchanged.",
 ["inputs", "configurations"], "all meshes, bases, default and explicit ordering strategies", SAMPLED + "validity of the ordering is not checked against the mesh.", [L+"hmesh_order_nd.c", L+"hmesh_order_st.c", L+"vmesh_separate_st.c", L+"library_mesh_order.c"],
 [("hmeshOrderSt", L+"hmesh_order_st.c")], "property-based invariant testing over generated meshes and strategies", "Invariant evaluated exhaustively on each result.")
prop("P01", "Every mapping assigns each vertex to a part of the target",
 "Partitioning or mapping any graph onto any target architecture, with any accepted strategy, fills the part array with valid terminal numbers of the target for every vertex, leaves the graph and target unchanged, writes nothing outside the array, and succeeds for every non-empty target, also when there are more parts than vertices or vertices of null load.",
 ["inputs", "configurations"], "all graphs, all architecture classes, all strategy strings built from the documented grammar, all seeds", SAMPLED + "few strategies and graphs are combined.", [L+"library_graph_map.c", L+"kgraph_map_st.c", L+"kgraph_map_rb.c", L+"kgraph_map_ml.c", L+"bgraph_bipart_st.c", L+"bgraph_bipart_ml.c"],
 [("kgraphMapSt", L+"kgraph_map_st.c")], "property-based testing over graphs x architectures x generated strategies", "Validity is exact.")
prop("P02", "Default mappings balance the load and do not waste communication",
 "With the default strategies, part loads stay within the requested imbalance tolerance plus what indivisible vertex loads impose, no part is left empty on unit-load connected graphs with ample vertices, and the cut is never worse than a trivial mapping of the same graph; higher-quality strategy flags remain valid mappings under the same bounds.",
 ["inputs", "configurations"], "connected unit-load graphs with many more vertices than parts, weighted graphs with small loads, part counts and tolerances", SAMPLED + "the quality of a mapping is never examined.", [L+"library_graph_map.c", L+"bgraph_bipart_fm.c", L+"kgraph_map_rb.c", L+"kgraph_map_fm.c", L+"bgraph_bipart_gg.c"],
 [("move acceptance within load bounds", L+"bgraph_bipart_fm.c")], "statistical property-based testing with calibrated bounds", "Bounds are deliberately loose: gross quality losses are detected, slight ones are not.")
prop("P03", "Fixed vertices stay where the user put them",
 "In any mapping or remapping computed with fixed vertices, every vertex given a valid terminal number keeps it in the result, every vertex marked free receives some valid terminal number, and the graph and target are left unchanged.",
 ["inputs", "configurations"], "all graphs, targets, fixed sets (none to all) and strategies", SAMPLED + "one fixed pattern is run.", [L+"library_graph_map.c", L+"kgraph_map_rb.c", L+"kgraph_map_fm.c", L+"kgraph_map_ml.c", L+"kgraph_map_rb_part.c", L+"kgraph_map_rb_map.c"],
 [("pfixtax handling in every mapping method", L+"kgraph.c")], "property-based invariant testing", "Exact.")
prop("P04", "Remapping yields valid mappings and respects migration costs",
 "Repartitioning and remapping from any old mapping (including vertices that had no old part) produce a valid mapping for any migration cost factor and any migration cost array; with an overwhelming migration cost and an old mapping that is already balanced, practically nothing moves.",
 ["inputs", "configurations"], "all graphs, targets, old mappings, costs", SAMPLED + "a single remapping is run.", [L+"library_graph_map.c", L+"kgraph_map_st.c", L+"kgraph_map_fm.c", L+"kgraph_map_rb_part.c", L+"bgraph_bipart_fm.c"],
 [("migration gains in kgraph methods", L+"kgraph_map_fm.c")], "property-based invariant and metamorphic testing", "Validity exact; movement bounded statistically.")
prop("P05", "Overlap partitions separate their parts",
 "Partitioning with overlap labels every vertex with a valid part number or as separator, and no edge links two vertices of different parts: every path between parts crosses a separator vertex. The input graph is left unchanged.",
 ["inputs", "configurations"], "all graphs, part numbers, strategies and seeds", SAMPLED + "one graph is used.", [L+"library_graph_part_ovl.c", L+"wgraph_part_st.c", L+"wgraph_part_rb.c", L+"wgraph_part_ml.c", L+"wgraph_part_fm.c", L+"vgraph_separate_st.c"],
 [("wgraphPartSt", L+"wgraph_part_st.c")], "property-based invariant testing", "Exact edge-by-edge check.")
prop("P06", "Mapping statistics are exact",
 "The statistics printed for a mapping, a remapping or an overlap partition (part loads, imbalance ratios, cut and communication cost, neighbour and distance counts, expansion, migration) equal those computed directly from the graph, the target and the part arrays.",
 ["inputs"], "all graphs, targets and part arrays, including ones the library did not compute", "The tests print these figures and never check them.", [L+"library_graph_map_view.c"],
 [("SCOTCH_graphMapView, SCOTCH_graphRemapView, SCOTCH_graphPartOvlView", L+"library_graph_map_view.c")], "property-based differential testing against a reference computation", "Integers exact; ratios to printed precision.")
prop("P07", "Mapping and tab files round-trip through vertex labels",
 "A mapping saved to a file lists, for each vertex label, its terminal number, and loading it back gives the same assignment, whatever the order of the lines, the labels used, and vertices missing from or unknown to the file.",
 ["inputs"], "all graphs with and without labels, all mappings and permutations of file lines", "The tests only load a file the same run saved.", [L+"library_graph_map_io.c", L+"mapping_io.c", L+"library_graph_map.c"],
 [("mapLoad / mapSave / graphTabLoad", L+"mapping_io.c")], "property-based round-trip testing", "Exact.")
prop("A01", "Architecture domains form a consistent bipartition hierarchy",
 "In every target architecture, repeatedly bipartitioning the whole domain yields disjoint subdomains that together cover it, each bipartition splitting the terminals and loads of the domain, until every terminal has been reached exactly once under its own number; a domain requested by terminal number is the terminal reached by bipartition, and sizes, loads and numbers of all intermediate domains are those of the terminals they hold.",
 ["inputs", "configurations"], "all architecture classes and sizes", SAMPLED + "a few architectures are partially walked.", [L+"arch_cmplt.c", L+"arch_cmpltw.c", L+"arch_hcub.c", L+"arch_tleaf.c", L+"arch_mesh.c", L+"arch_torus.c", L+"arch_deco.c", L+"arch_deco2.c", L+"arch_sub.c", L+"arch_vcmplt.c", L+"arch_vhcub.c"],
 [("arch class method tables", L+"arch.c")], "property-based testing of domain-algebra laws", "All domains of each generated architecture are visited.")
prop("A02", "Architecture sizes and distances match their topology",
 "For every target architecture, the number of terminals, their loads and the distance between any two terminals are those of the described topology (complete graph, weighted complete graph, hypercube, mesh, torus, tree-leaf, labelled tree-leaf, subset), distances between terminals are null only on the diagonal, and distances between domains of any size are symmetric.",
 ["inputs"], "all architecture parameters in range and all terminal pairs", "Distances are never checked by the tests.", [L+"arch_cmplt.c", L+"arch_hcub.c", L+"arch_tleaf.c", L+"arch_mesh.c", L+"arch_torus.c", L+"arch_sub.c", L+"arch_deco.c", L+"arch_deco2.c"],
 [("*DomDist / *DomSize / *DomWght", L+"arch_mesh.c")], "differential testing against closed-form metrics", "All pairs of terminals.")
prop("A03", "Saved or derived architectures behave like the original",
 "An architecture saved to a file and loaded back has the same name, terminals, loads, and distances; an architecture built by decomposing a graph has the graph's terminals and distances consistent with the graph; a sub-architecture keeps the selected terminals in order with their loads and distances.",
 ["inputs"], "all architecture classes, target graphs and vertex subsets", SAMPLED + "architecture files are only loaded.", [L+"arch.c", L+"arch_build.c", L+"arch_build2.c", L+"arch_deco.c", L+"arch_deco2.c", L+"arch_sub.c", L+"library_arch_build.c"],
 [("archSave / archLoad / archDecoArchBuild", L+"arch.c")], "property-based round-trip testing", "Terminals and distances compared through the public and internal interfaces.")
prop("O01", "Graph orderings are valid elimination orderings",
 "Ordering any graph, or any list of its vertices, with any accepted strategy yields a direct permutation and its inverse, column block ranges that partition the ordered vertices, and a block tree in which parents come after their children and, unless the strategy splits separators into several blocks, no edge links two vertices of unrelated blocks. The graph is left unchanged.",
 ["inputs", "configurations"], "all graphs, bases, ordering strategies of the documented grammar, seeds", SAMPLED + "only permutation validity of a few graphs is checked.", [L+"hgraph_order_st.c", L+"hgraph_order_nd.c", L+"hgraph_order_hd.c", L+"hgraph_order_hf.c", L+"hgraph_order_cp.c", L+"hgraph_order_bl.c", L+"library_graph_order.c", L+"order.c", L+"vgraph_separate_st.c"],
 [("hgraphOrderSt + orderPeri/orderRang/orderTree", L+"order.c")], "property-based invariant testing over graphs and generated strategies", "The separator property is checked edge by edge.")
prop("O02", "Ordering quality and fill statistics are trustworthy",
 "On grids and geometric graphs, default orderings produce in average less fill than the natural ordering of the graph, and a fill and operation count within a constant factor of minimum degree; the fill, operation counts and elimination tree heights reported by the ordering test tool equal those of a symbolic factorisation.",
 ["inputs"], "grid-like and random graphs", "Never compared.", [L+"hgraph_order_nd.c", L+"hgraph_order_hd.c", L+"vgraph_separate_fm.c", "src/scotch/gotst.c"],
 [("nested dissection with halo minimum degree", L+"hgraph_order_nd.c")], "differential testing against a symbolic factorisation", "Statistics compared exactly (to printed precision); quality bounds (averages over six graphs) are calibrated with a margin of 10 to 20 %.")
prop("O03", "Ordering files round-trip",
 "Saving an ordering as an ordering, mapping or tree file writes, for each vertex label, the permutation, block or parent that the ordering holds, and loading an ordering file gives back the same permutation; the ordering check accepts exactly the consistent orderings.",
 ["inputs"], "all graphs, labels, and permutations", "The tests save orderings without reading them.", [L+"order_io.c", L+"order_check.c", L+"library_graph_order.c"],
 [("orderSave / orderLoad / orderSaveMap / orderSaveTree / orderCheck", L+"order_io.c")], "property-based round-trip testing", "Exact.")
prop("S01", "Strategy strings are parsed, reproduced and enforced",
 "Every string of the documented strategy grammar is accepted by its strategy type, saving a strategy prints a string that parses back to a strategy with the same printed form and the same results, every malformed string is rejected without side effects, strategies whose sub-strategies are missing either give valid results or are refused cleanly, and strategies built from flags always yield valid results.",
 ["inputs"], "all strategy strings from a grammar-based generator, and mutations of them; all flag combinations", SAMPLED + "only a few strings are parsed.", [L+"parser.c", L+"parser_yy.y", L+"parser_ll.l", L+"library_strat.c", L+"library_graph_map.c", L+"library_graph_order.c"],
 [("stratInit / stratSave / stratEval / stratTest*", L+"parser.c")], "grammar-based generation and round-trip testing", "Behavioural equality is compared on small graphs.")
prop("R01", "Results are reproducible from the random seed",
 "With the same inputs, the same seed and the generator reset, every sequential routine returns identical results, whatever was computed before; saved and restored generator states continue the same sequence; contexts with their own generator are independent from each other and from the global one.",
 ["inputs", "histories"], "all histories of library calls, seeds and inputs", "Runs are never compared.", [L+"common_integer.c", L+"common_context.c", L+"context.c", L+"library_random.c", L+"library_context.c"],
 [("intRandReset / contextRandom*", L+"common_integer.c")], "metamorphic testing over call histories", "Byte equality of results.")
prop("C01", "Context-bound and multi-threaded runs give valid results",
 "Calling a routine on a graph or mesh bound to an execution context gives results as valid as on the object itself, for any number of threads and any context options; with the deterministic option set, results do not depend on thread scheduling from run to run, and exiting the context leaves the original object intact.",
 ["inputs", "schedules", "configurations"], "all routines accepting bound objects, 1 to 8 threads, option values", "The tests use few threads and never compare runs.", [L+"context.c", L+"common_context.c", L+"common_thread.c", L+"common_thread_system.c", L+"library_context.c", L+"library_context_graph.c", L+"graph_match_scan.c", L+"kgraph_map_df.c", L+"bgraph_bipart_df.c", L+"vgraph_separate_df.c"],
 [("contextThreadLaunch, thread barriers, reduce, scan", L+"common_thread.c")], "property-based testing with thread-count variation", "Schedules are whatever the OS produces; no systematic interleaving enumeration.")
prop("L01", "The library leaks no memory",
 "After an object is exited and freed, every byte the library allocated for it has been released, whatever sequence of successful or failing operations was applied; repeated use of the library does not grow memory.",
 ["inputs", "histories"], "all operation histories over the routines covered by the other properties", "The tests do not look at memory.", [L+"graph.c", L+"arch.c", L+"parser.c", L+"order.c", L+"common_memory.c"],
 [("*Free / *Exit routines", L+"graph.c")], "property-based testing with allocation accounting", "Bytes outstanding must not grow when the same case is repeated.")
prop("X01", "METIS compatibility routines honour the METIS contract",
 "The METIS-compatible partitioning routines return valid parts in the requested numbering with the reported objective equal to the actual edge cut or communication volume, the ordering routines return mutually inverse permutations, the mesh conversion and weights are honoured, and inputs are left unchanged.",
 ["inputs", "configurations"], "all graphs and meshes, numbering 0 and 1, weight flags, part counts", SAMPLED + "the METIS layer is run on one graph.", ["src/libscotchmetis/metis_graph_part.c", "src/libscotchmetis/metis_graph_order.c", "src/libscotchmetis/metis_graph_dual.c", "src/libscotchmetis/metis_options.c"],
 [("METIS_* wrappers", "src/libscotchmetis/metis_graph_part.c")], "property-based differential testing of objectives", "Exact.")
prop("X02", "ESMUMPS returns a valid assembly tree and permutation",
 "The ESMUMPS ordering interface returns, for any symmetric pattern, an elimination tree encoding in which every variable is either a principal or a secondary variable pointing to its parent, the column counts equal those of the symbolic factorisation of the ordering, and the compressed-graph and weighted variants agree with them.",
 ["inputs"], "all graphs with one-based numbering", SAMPLED + "one file.", ["src/esmumps/esmumps.c", "src/esmumps/graph_graph.c", "src/esmumps/symbol_fax.c", "src/esmumps/dof.c", "src/esmumps/symbol_cost.c"],
 [("esmumps2", "src/esmumps/esmumps.c")], "property-based differential testing against a symbolic factorisation", "Exact.")
prop("D01", "Distributed graphs describe one global graph on all processes",
 "A distributed graph built from any split of any graph, including empty processes and non-contiguous layouts, passes its check, reports the right local and global sizes, identifies each neighbour consistently through ghost indices, and halo exchanges deliver to each ghost vertex exactly its owner's value; the check rejects inconsistent distributed graphs on every process.",
 ["inputs", "configurations", "schedules"], "all graphs, vertex distributions, data types, 1 to 6 processes", "One file per test on a fixed process count.", [L+"dgraph_build.c", L+"dgraph_check.c", L+"dgraph_ghst.c", L+"dgraph_halo.c", L+"library_dgraph_halo.c"],
 [("dgraphGhst / dgraphHalo", L+"dgraph_ghst.c")], "property-based testing under MPI against a global model", "Message schedules are whatever MPI produces.")
prop("D02", "Scattering, gathering and distributed files preserve the graph",
 "Scattering a centralized graph and gathering it back, saving a distributed graph as a multi-file and loading it back on the same number of processes, or loading a centralized file in distributed form on any number, all preserve the global graph, its loads and its labels; malformed files are refused by every process.",
 ["inputs", "configurations"], "all graphs, distributions, 1 to 6 processes, all gather roots", "One graph per test.", [L+"dgraph_scatter.c", L+"dgraph_gather.c", L+"dgraph_gather_all.c", L+"dgraph_io_load.c", L+"dgraph_io_save.c"],
 [("dgraphScatter / dgraphGather / dgraphLoad", L+"dgraph_scatter.c")], "property-based round-trip testing under MPI", "Exact.")
prop("D03", "Distributed coarse graphs are the exact quotient of a valid matching",
 "Distributed coarsening pairs each fine vertex with itself, a neighbour or an isolated vertex, and yields on the processes a consistent distributed graph that is the quotient of the fine graph by that matching, with summed loads, for every folding option.",
 ["inputs", "configurations", "schedules"], "all graphs, distributions, ratios, flags, 1 to 6 processes", "One graph.", [L+"dgraph_coarsen.c", L+"dgraph_match.c", L+"dgraph_match_sync_ptop.c", L+"dgraph_match_sync_coll.c", L+"dgraph_fold.c", L+"dgraph_fold_comm.c", L+"dgraph_fold_dup.c"],
 [("dgraphMatch / dgraphCoarsenBuild", L+"dgraph_coarsen.c")], "property-based testing under MPI against a quotient-graph model", "Exact.")
prop("D04", "Derived distributed graphs are what their definition says",
 "Inducing by part, redistributing by a process array, extracting a band graph around vertices, growing parts by breadth-first rounds, and building three-dimensional grids in distributed form yield exactly the graph or parts that the same operation defines on the global graph, with labels pointing to the original vertices.",
 ["inputs", "configurations"], "all graphs, distributions, parts, distances, 1 to 6 processes", "One graph each.", [L+"dgraph_induce.c", L+"dgraph_redist.c", L+"dgraph_band.c", L+"dgraph_band_grow.c", L+"dgraph_build_grid3d.c", L+"library_dgraph_grow.c"],
 [("dgraphInducePart / dgraphRedist / dgraphBand / dgraphGrow", L+"dgraph_band_grow.c")], "property-based testing under MPI against a sequential model", "Exact.")
prop("D05", "Distributed mappings are valid and their statistics exact",
 "Partitioning or mapping a distributed graph assigns every vertex a valid terminal number on every process for any strategy and process count, stays within loose balance bounds with default strategies, and the distributed mapping statistics and saved mapping equal those computed on the gathered graph.",
 ["inputs", "configurations", "schedules"], "all graphs, distributions, targets, strategies, 1 to 6 processes", "One graph.", [L+"library_dgraph_map.c", L+"kdgraph_map_rb_map.c", L+"kdgraph_map_rb_part.c", L+"bdgraph_bipart_st.c", L+"bdgraph_bipart_ml.c", L+"dmapping_io.c", L+"library_dgraph_map_stat.c"],
 [("kdgraphMapSt", L+"kdgraph_map_st.c")], "property-based testing under MPI", "Validity and statistics exact, balance loose.")
prop("D06", "Distributed orderings are valid elimination orderings",
 "Ordering a distributed graph gives a global permutation whose gathered form, block ranges and tree are a valid elimination ordering of the gathered graph, and the distributed column block queries, permutation query and saved files agree with the gathered ordering.",
 ["inputs", "configurations", "schedules"], "all graphs, distributions, strategies, 1 to 6 processes", "One graph, permutation only.", [L+"library_dgraph_order.c", L+"hdgraph_order_nd.c", L+"hdgraph_order_st.c", L+"vdgraph_separate_st.c", L+"dorder_gather.c", L+"dorder_perm.c", L+"dorder_io.c", L+"dorder_tree_dist.c"],
 [("hdgraphOrderSt / dorderGather", L+"hdgraph_order_nd.c")], "property-based testing under MPI against the elimination-ordering invariant", "Exact.")
prop("D07", "ParMETIS compatibility routines honour the ParMETIS contract",
 "The ParMETIS-compatible routines return, for any distribution and numbering, valid parts with the true edge cut, and valid distributed orderings with separator sizes as documented.",
 ["inputs", "configurations"], "all graphs, distributions, numberings, 1 to 8 processes", "One graph.", ["src/libscotchmetis/parmetis_dgraph_part.c", "src/libscotchmetis/parmetis_dgraph_order.c"],
 [("ParMETIS_* wrappers", "src/libscotchmetis/parmetis_dgraph_part.c")], "property-based testing under MPI", "Exact; the balance of partitions is checked with a margin.")
prop("D08", "Distributed statistics and accessors match the global graph",
 "Size, data and statistics accessors of a distributed graph return on every process the values computed directly from the global graph.",
 ["inputs", "configurations"], "all graphs, distributions, 1 to 6 processes", "Printed only.", [L+"library_dgraph.c", L+"library_dgraph_stat.c"],
 [("SCOTCH_dgraphStat / SCOTCH_dgraphData / SCOTCH_dgraphSize", L+"library_dgraph_stat.c")], "property-based differential testing under MPI", "Integers exact.")
prop("T01", "Generator tools produce the topology they are asked for",
 "The graph, mesh and architecture generator programs write, for all parameters in range, files describing exactly the requested topology (grids, tori, hypercubes, butterflies, de Bruijn, shuffle-exchange, cube-connected cycles, FFT meshes, ...), which the library loads and finds consistent, and reject out-of-range parameters.",
 ["inputs", "configurations"], "all parameters of all generators", "Some generators are run once without looking at the output.", ["src/scotch/gmk_m2.c", "src/scotch/gmk_m3.c", "src/scotch/gmk_hy.c", "src/scotch/gmk_ub2.c", "src/scotch/amk_ccc.c", "src/scotch/amk_fft2.c", "src/scotch/amk_hy.c", "src/scotch/amk_m2.c", "src/scotch/amk_p2.c", "src/scotch/mmk_m2.c", "src/scotch/mmk_m3.c", "src/scotch/amk_grf.c"],
 [("edge enumeration loops", "src/scotch/gmk_m2.c")], "property-based differential testing of program output", "Exact.")
prop("T02", "Command-line tools agree with the library and with each other",
 "The command-line programs that test, convert, rebase, scatter, map and order graphs write what the corresponding library calls define, on plain and on compressed files alike, and return a failure status on invalid input.",
 ["inputs", "configurations"], "all graphs, options and file compressions", "Programs are run on a few files for their exit code.", ["src/scotch/gmap.c", "src/scotch/gord.c", "src/scotch/gtst.c", "src/scotch/gmtst.c", "src/scotch/gotst.c", "src/scotch/gbase.c", "src/scotch/gscat.c", "src/scotch/gcv.c", "src/scotch/acpl.c", "src/scotch/mord.c", "src/scotch/mtst.c", L+"common_file.c", L+"common_file_compress.c"],
 [("program main routines", "src/scotch/gmap.c")], "property-based differential testing of program output", "Exact up to printed precision.")

PENDING = {}
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")
            assert len(p["title"]) <= 80, p["id"]
            for x in p["files"]:
                if not os.path.exists(os.path.join("/repo", x)):
                    print("missing file", p["id"], x)
    m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
    for p in P:
        if p["id"] in CONF:
            m["checks"].append(dict(property=p["id"], quick_cmd="python3 vrun.py %s quick" % p["id"], thorough_cmd="python3 vrun.py %s thorough" % p["id"],
                technique=p["technique"], level="exploration", level_note=p["note"]))
        else:
            m["not_applicable"].append(dict(property=p["id"], reason=PENDING.get(p["id"], "check not built yet")))
    for k in CONF:
        assert k in [p["id"] for p in P], k
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties", len(m["checks"]), "checks")
if __name__ == "__main__":
    main()
