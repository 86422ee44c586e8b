p("A01", "Arguments holding plain data are never modified",
  "A dictionary, list, array or option value that a caller passes to a public function or constructor is never modified by the library, neither during the call nor by later calls on the object that was built from it. Only objects whose documented purpose is to be annotated (a code, a graph state, a plotting axis) may be changed.",
  ["inputs", "histories"], "every public entry point, every option dictionary, list and array, and every later use of the object built from it",
  "Tests pass fresh literals and never look at them again; the property needs every argument, every branch and later calls.",
  [CVF, DECF, SC, EGF, VIZF, GKP, OPS, LIN, GS], [("copying of states / defaults before writing", "noise/cv.py CVLayer.__init__"), ("option dictionaries read with get", "decoders/decoder.py correct")],
  technique="interprocedural mod/alias (access-path effect) analysis",
  note="Every write effect whose access path is rooted in a plain-data argument is a violation. Trusts that numpy, networkx and matplotlib calls modelled as pure do not write to their array arguments.")
p("A02", "Unsupported option values are rejected",
  "An option value outside the documented vocabulary (error complex, boundaries, backend, sampling order, weighting method, Clifford form, plotting backend, graph-state sizes, probabilities outside 0..1) is rejected with an error. It is never silently treated as another option or ignored.",
  ["inputs", "configurations"], "every option-taking public entry point and every value outside its documented vocabulary",
  "Tests try at most one wrong value for a few options; the property is about the whole complement of each vocabulary and every combination with the other options.",
  [SC, CVF, DECF, LIN, VIZF, GS, IIDF, EGF], [("option validation", "codes/surface_code.py, noise/cv.py, decoders/decoder.py, utils/*.py")],
  technique="abstract evaluation with the option outside its vocabulary; reachability of a normal return",
  note="The value outside the vocabulary is one fresh constant; a reachable normal return is a violation.")
p("A04", "Drawing and inspecting never change what they look at",
  "Drawing a code, graph state, decoding or matrix and calling read-only queries leaves the drawn object (vertices, edges, attributes, low and high points, syndrome, correction data) unchanged. It also leaves process-wide plotting settings as they were.",
  ["inputs", "histories"], "every drawing and inspection entry point, every option, before or after any other operation",
  "Tests check that a figure comes back, not that the code is unchanged afterwards, and never under all options and backends.",
  [VIZF, DECF, EGF, SG, SC], [("drawing on copies of the graphs", "utils/viz.py draw_dec_graph"), ("rc_context around plotting settings", "utils/viz.py")],
  technique="interprocedural write-effect analysis of the drawing and inspection entry points",
  note="Trusts that matplotlib and plotly calls only write to figures and axes. Lazily built index and adjacency caches are allowed.")
p("A05", "Independent objects and runs do not influence each other",
  "Two codes, noise layers or decodings built in one process share no mutable state: nothing computed for one can change what the other does. No public call changes import-time defaults, module globals or class-level objects.",
  ["histories", "inputs"], "every sequence of public calls in one process on independently built objects",
  "Tests build objects one at a time with the same parameters; leakage needs a particular sequence of calls with different parameters.",
  [SC, EGF, SG, ST, CVF, DECF, MAT, UFA, UFC, SIMF], [("per-instance containers, no mutable default arguments", "all classes"), ("fresh defaults", "decoders/mwpm/matching.py")],
  technique="escape and lifetime (write-effect on import-time objects) analysis",
  note="The numpy default generator shared by default arguments is the one documented process-wide object.")
p("D05", "Decoding changes only weights and corrected bit values on the code",
  "Weighting, decoding and correcting a code change nothing on it except qubit weights, the weights derived from them and, in the recovery alone, the qubits' bit values. Lattice, stabilizers, syndrome and boundary data, state labels and measurement outcomes stay as they were.",
  ["inputs", "histories"], "every decoder, backend, weighting method, error complex and flag",
  "Tests compare final verdicts; a decoder that also damages the code is seen only by a later use of the same code.",
  [DECF, ALG, MAT, UFA, UFC, SG], [("annotations written by name", "decoders/decoder.py assign_weights, recovery"), ("decoders work on their own graphs", "decoders/*")],
  technique="interprocedural write-effect confinement analysis",
  note="Trusts that networkx and rustworkx algorithms do not modify the graphs they are given.")
p("N01", "All randomness comes from the caller's generator",
  "Every random number a noise layer draws comes from the generator the caller supplied, and every random number of a Monte Carlo run comes from one generator created once per run from a seed that differs between processes. No other operation draws random numbers from process-wide state.",
  ["inputs", "configurations", "histories"], "every noise layer, sampling order, decoder, drawing flag and process count",
  "Tests compare a few seeded outcomes; a stray draw from global state changes reproducibility only in specific option combinations, and process-dependent seeding cannot be seen in one process.",
  [CVF, IIDF, OPS, GKP, SIMF, DECF, VIZF], [("generator passed down", "noise/*.py, cv/*.py, simulations.py"), ("seed sequence per rank", "simulations.py ec_monte_carlo")],
  technique="provenance (points-to) analysis of the generator of every draw",
  note="Assumes numpy generator methods, numpy.random.*, random.* and OS entropy are the only sources of randomness.")

FORMTECH = "closed-form extraction by abstract interpretation, compared with the specified form (random interpretation)"
FORMNOTE = ("The set-builder forms the code computes are extracted over symbolic dimensions and compared with an independent definition at sample "
            "dimensions that differ on every axis; forms outside the decided fragment are reported undecided, never as violations. ")
p("L01", "The lattice is the RHG lattice with the requested boundaries",
  "For any dimensions and any combination of primal, dual and periodic boundaries, the generated lattice has exactly the vertices and edges of the RHG lattice in that box, every vertex carries its type (primal or dual), and exactly the wrap-around edges are marked periodic. A surface code uses the boundaries its error complex and boundary option call for.",
  ["inputs", "configurations"], "every dimension triple (unequal axes included) and every boundary combination",
  "Tests compare sizes or a few neighbourhoods on small, mostly cubic lattices; a wrong axis or wrap shows only for unequal dimensions and particular boundary combinations.",
  [SC], [("vertex and edge generation", "codes/surface_code.py RHG_graph, dual_neighbours, str_to_bound")], technique=FORMTECH, note=FORMNOTE)
p("L02", "Stabilizers and syndrome qubits are those of the error complex",
  "A code has one stabilizer per cube of its error complex, acting on exactly the cube's face qubits present in the lattice (identified across periodic boundaries), and its parity is the XOR of the bit values of those qubits. The stored syndrome coordinates and indices are exactly the qubits in some stabilizer.",
  ["inputs", "configurations"], "every dimension triple, boundary option, error complex and backend",
  "Tests look at small cubic codes; stabilizers at corners and wrap-arounds of unequal axes are never inspected one by one.",
  [SC, ST], [("stabilizer generation", "codes/surface_code.py identify_stabilizers ff."), ("parity", "codes/stabilizer.py Stabilizer.parity")],
  technique=FORMTECH, note=FORMNOTE)
p("L03", "Edge weights follow the polarity function on every edge",
  "With a polarity function every edge of the lattice, including those wrapping around periodic boundaries, has that function's value for this edge as its weight; without one every weight is 1. The provided alternating polarity is +1 or -1, does not depend on the direction of the edge, and gives every four-valent vertex two +1 and two -1 edges.",
  ["inputs", "configurations"], "every polarity function, dimension triple and boundary combination",
  "Tests use one polarity function on one lattice and look at no wrap-around edge.",
  [SC], [("edge weights", "codes/surface_code.py RHG_graph, alternating_polarity")], technique=FORMTECH, note=FORMNOTE)
p("L04", "The stabilizer graph joins exactly the nodes that share a qubit",
  "In both backends the stabilizer graph has one node per stabilizer and boundary qubit plus the two connectors low and high; stabilizers and boundary qubits are joined exactly when they share a qubit, and the edge is labelled with a shared qubit. Low and high are joined to exactly the boundary qubits on the side with smaller and larger coordinates, and conversion to the networkx backend preserves all of this, including the current weights.",
  ["inputs", "configurations"], "every dimension triple, boundary option, error complex, backend and node",
  "Tests compare counts and a few neighbourhoods of small cubic codes.",
  [SG, SC], [("graph construction", "codes/graphs/stabilizer_graph.py StabilizerGraph"), ("boundary points", "codes/surface_code.py identify_boundary")],
  technique=FORMTECH, note=FORMNOTE + "Trusts the networkx and rustworkx containers.")

p("D01", "Weights follow the documented weighting rules",
  "After weight assignment every qubit entering a parity check carries the weight its options call for: with uniform weights 1 for matching and, for union-find, -1 if two or more neighbours are p-squeezed and 2 otherwise; with blueprint weights minus the logarithm of its error probability, which two, three or four p-squeezed neighbours fix to 1/4, 1/3 or 2/5, multiplied and rounded if integers are requested. Every edge of the stabilizer graph carries the current weight of the qubit its ends share, and edges to the connectors weigh zero, also when weights are assigned anew.",
  ["inputs", "configurations", "histories"], "every code, decoder, option set, squeezing pattern and error probability",
  "Tests check one small code and mostly uniform weights; rare counts of p-squeezed neighbours, probabilities of zero and repeated assignments are not covered.",
  [DECF, SGF if "SGF" in globals() else SG], [("weight rules", "decoders/decoder.py assign_weights"), ("edge weights", "codes/graphs/stabilizer_graph.py StabilizerGraph.assign_weights")],
  technique=FORMTECH, note=FORMNOTE + "The analytic error probability is an uninterpreted function of its arguments.")
p("D02", "Path queries return the lightest paths for the current weights",
  "For every stabilizer graph, path queries return for every node reachable from the source, except the source itself, the smallest total weight over all paths and a path attaining it, for the weights assigned last. Queries from a connector start at that connector; queries between other nodes never pass through the connectors low and high.",
  ["inputs", "configurations", "histories"], "every code, backend, weight assignment, repeated assignment and source",
  "Tests compare a few path lengths on small codes with uniform weights, where most paths weigh the same and stale results go unnoticed.",
  [SG], [("path queries", "codes/graphs/stabilizer_graph.py shortest_paths_from_low ff.")], technique=FORMTECH,
  note=FORMNOTE + "Trusts the shortest path routines of networkx and rustworkx for the graph, source and weight function they are handed.")
p("D03", "The matching problem mirrors the odd stabilizers",
  "The matching graph of a code joins every two stabilizers of odd parity by an edge carrying the weight and the nodes of a lightest path between them that avoids the connectors. With open boundaries every odd stabilizer also has one virtual point of its own, joined to it with the weight and path to the nearest boundary point on either side, and all virtual points are joined with weight zero; otherwise there are no virtual points. Without odd stabilizers the graph is empty.",
  ["inputs", "configurations"], "every code, backend, positive weighting and pattern of outcomes",
  "Tests compare backends with one another on a few syndromes, so an error shared by all of them passes, and matchings that are merely too heavy still clear the syndrome.",
  ["flamingpy/decoders/mwpm/matching.py", "flamingpy/decoders/mwpm/algos.py"], [("construction", "decoders/mwpm/matching.py with_edges_from")], technique=FORMTECH,
  note=FORMNOTE + "Decided for the networkx-backed graphs; the rustworkx graph shares the construction (checked) and its own add_edge and queries are decided in D07.")
p("D04", "The verdict is the parity of the logical planes",
  "After recovery the verdict of a code is that every correlation plane a logical operator can cross has even parity: the first plane along the open direction for open boundaries, along both periodic directions for toric ones and along all three for periodic ones. The sanity report lists the parity of every parallel plane and displays exactly the stabilizers the recovery leaves odd, and correction flips exactly the qubits of the recovery set.",
  ["inputs", "configurations"], "every code, dimension triple, pattern of outcomes, decoder and recovery set",
  "Tests compare verdicts of a few random trials on small cubic codes, where a skipped direction or plane rarely shows.",
  [DECF], [("verdict", "decoders/decoder.py check_correction, correct"), ("flips", "decoders/decoder.py recovery")], technique=FORMTECH, note=FORMNOTE)
p("D06", "The matching decoder flips the qubits on the matched paths",
  "For any matching, the recovery set of the matching decoder consists of exactly the qubits that lie on an odd number of the edges of the matched pairs' paths. Pairs of virtual points contribute nothing, whatever the order of the pair.",
  ["inputs", "configurations"], "every code, backend, matching and set of paths",
  "Tests look at decodings whose paths hardly ever share a qubit.",
  [MWA if "MWA" in globals() else "flamingpy/decoders/mwpm/algos.py"], [("recovery set", "decoders/mwpm/algos.py mwpm_decoder")], technique=FORMTECH, note=FORMNOTE)
p("D07", "Every matching backend stores and matches the same graph",
  "Whatever edges are added to a matching graph, in whatever order and however often an edge is added again, every backend reports for each edge the weight and path given last, for either order of its ends, totals add the weight of every listed pair, and conversion to the networkx backend keeps edges, weights, paths, virtual points and the error complex. Each backend returns a perfect matching of least total weight over exactly these edges, as pairs of nodes of the graph, and each backend name selects its own class.",
  ["inputs", "histories"], "every sequence of added edges and every backend",
  "Tests match a few random complete graphs with small integer weights whose edges are added once.",
  ["flamingpy/decoders/mwpm/matching.py", "flamingpy/decoders/mwpm/lemon.py", "flamingpy/decoders/mwpm/algos.py"],
  [("backends", "decoders/mwpm/matching.py"), ("adjacency", "decoders/mwpm/lemon.py")], technique=FORMTECH,
  note=FORMNOTE + "The matching routines of networkx, rustworkx and lemon are represented by a reference matcher; the rustworkx backend takes integer weights only, as documented.")
p("C01", "The native matcher sees every weight and returns every pair",
  "For every square symmetric matrix the native extension hands the solver one node per row and every entry above the diagonal as the weight of its pair, without losing precision, and reads and writes only inside its arrays. It returns each matched pair of row numbers exactly once, and rejects arrays that are not two-dimensional or not square.",
  ["inputs"], "every matrix size and content",
  "Tests call the extension through one class with small integer weights, which single precision represents exactly.",
  ["flamingpy/cpp/lemonpy.cpp"], [("native function", "cpp/lemonpy.cpp mwpm, py_mwpm")],
  technique="Evaluation of clang's syntax tree of the bound function over models of lemon, pybind11 and the standard library (bounds, element types, initialisation, pairs), compared with the specified matching at sample matrices; nothing is compiled or run",
  note="Trusts lemon's solver for the graph and weights it is handed. Constructs outside the modelled C++ fragment leave the property undecided.")

NOISENOTE = ("The values a layer writes are extracted as closed forms over symbolic draws and compared with the specified random variables at sample graphs, "
             "codes and parameters (random interpretation); forms outside the decided fragment are reported undecided, never as violations. "
             "Draws of the supplied generator are taken as independent variables of their documented distribution. ")
p("N02", "States are distributed as requested on every application",
  "In noise on single-mode nodes every mode is labelled momentum-squeezed or GKP: exactly the modes at the requested positions when positions are given, all or none at swap probability one or zero, and otherwise a number drawn from the binomial law at positions drawn without replacement. Each application distributes the states afresh, and the listed mode indices always agree with the labels.",
  ["inputs", "configurations", "histories"], "every swap probability, states dictionary, graph and number of earlier applications",
  "Tests count states on one lattice after one application with fixed seeds.",
  [CVF], [("state distribution", "noise/cv.py CVLayer.populate_states")], technique=FORMTECH, note=NOISENOTE)
p("N03", "Measured outcomes follow the noise model",
  "In noise on single-mode nodes the momentum outcome of a mode is its own momentum noise plus the weighted sum of the positions of its neighbours, with the variances and grids of the sampling order used: Gaussian states of the given width when sampled initially; ideal positions followed by momentum noise when sampled in two steps. Modes marked perfect carry no noise, and no other mode contributes.",
  ["inputs", "configurations"], "every graph, edge weight, state assignment, noise strength and sampling order",
  "Tests compare shapes and a few seeded averages; a missing neighbour, a wrong variance or a wrong correlation needs the joint distribution.",
  [CVF, OPS], [("entangling and measuring", "noise/cv.py CVLayer.entangle_states, measure_hom; cv/ops.py SCZ_apply")], technique=FORMTECH, note=NOISENOTE)
p("N04", "Outcomes are written on exactly the measured modes",
  "Applying noise to a code gives every syndrome qubit, and no other mode, a momentum outcome and a bit value; measuring chosen modes in one quadrature writes that quadrature of those modes only. Queries return the recorded values in the order of the modes asked for, with nothing for modes that were not measured.",
  ["inputs", "histories"], "every subset of modes, quadrature, sampling order, boundary and error complex",
  "Tests measure all modes of one lattice in order.",
  [CVF, EGF], [("measurement and getters", "noise/cv.py CVLayer.measure_hom, hom_outcomes, bit_values")], technique=FORMTECH, note=NOISENOTE)
p("N05", "Outcomes are translated to bits by nearest-multiple binning",
  "The default translator gives the parity of the multiple of the square root of pi nearest to the outcome, for positive and negative outcomes, single values and arrays, together with the signed distance to that multiple when asked for. The bit value of a mode is the chosen translator's value of the current outcome of that same mode, and the integer and fractional part of a number always recombine to it.",
  ["inputs", "histories"], "every outcome, translator, sampling order and earlier application",
  "Tests bin random numbers in a small range; sign and rounding errors need particular outcomes.",
  [CVF, GKP], [("binning", "cv/gkp.py GKP_binner, integer_fractional"), ("translation", "noise/cv.py CVLayer.inner_decoder")], technique=FORMTECH, note=NOISENOTE)
p("N06", "Independent noise flips each qubit with the given probability",
  "Each application of the independent noise model gives every qubit of the code a fresh bit that is one with exactly the given error probability, never at probability zero and always at probability one. Bits of different qubits and of different applications come from different draws, and nothing is left over from an earlier application.",
  ["inputs", "histories"], "every error probability, code and number of earlier applications",
  "Tests look at the fraction of flips on one code after one application.",
  [IIDF], [("bit flips", "noise/iid.py IidNoise.apply_noise")], technique=FORMTECH, note=NOISENOTE)
p("N07", "Macronode noise reduces to one bit and error rate per qubit",
  "In noise on a macronode lattice the centre of a macronode is its first GKP mode, or its first mode if it has none; the modes are entangled along the edges and mixed in the four-splitter of each macronode, centres are then measured in momentum and the others in position, and the reduced qubit is labelled GKP exactly when one of its modes is. The outcome of a reduced qubit is twice its centre's momentum minus the processed position outcomes of its momentum-squeezed neighbours; its bit is the parity of that outcome and of the processed outcomes of its GKP neighbours, all binned, and its error probability is the sum of the corresponding conditional probabilities, kept between zero and one half. All of it is redone with fresh draws on every application.",
  ["inputs", "histories"], "every macronode lattice, state assignment, noise width, beam-splitter network and number of earlier applications",
  "Tests only run the reduction; none compares its results with the outcomes it started from.",
  [CVF], [("macronode reduction", "noise/cv.py CVMacroLayer")], technique=FORMTECH, note=NOISENOTE)
p("V01", "Entangling transformations are the documented matrices",
  "The matrix of a network of CZ gates keeps all positions and adds to every momentum the positions of its neighbours times the edge weights; applying it in one go or block by block to a vector or matrix gives the same documented result, whatever format the adjacency is stored in. The four-splitter is the same balanced network on both quadratures of every macronode in both orderings, and inverting a permutation undoes it.",
  ["inputs", "configurations"], "every adjacency matrix, storage format and quadrature vector or matrix",
  "Tests compare the two application strategies with each other on random graphs of unit weight.",
  [OPS], [("symplectic matrices", "cv/ops.py SCZ_mat, SCZ_apply, splitter_symp, invert_permutation")], technique=FORMTECH, note=FORMNOTE)
p("V02", "Error probabilities match the analytic GKP noise model",
  "The phase error probability given an outcome is the total weight of the peaks of the opposite bit divided by that of all peaks, from the fractional part or from the whole outcome as asked for, for single values and arrays alike. Where that ratio is undefined the requested replacement is returned, and without an outcome the probability is one minus the weight of the zero bins.",
  ["inputs", "configurations"], "every outcome, variance, number of terms and replacement",
  "Tests check the limits of very small and very large noise.", [GKP], [("probabilities", "cv/gkp.py Z_err, Z_err_cond")], technique=FORMTECH,
  note="The truncated sums are extracted as closed forms and compared with the noise model at sample outcomes within four bins of the origin (random interpretation). ")

p("S01", "Every trial counts exactly once",
  "A Monte Carlo run applies the noise afresh and then decodes the code with the requested decoder and options exactly once per trial, and reports the number of trials whose decoding failed. With several processes every trial runs on exactly one of them and the first process reports the failures of all.",
  ["inputs", "schedules"], "every number of trials and processes, decoder, options and outcome of the trials",
  "Tests run one process with noise so weak that no trial fails; miscounts need failures or several processes.",
  [SIMF], [("trial loop", "simulations.py ec_mc_trial, ec_monte_carlo")],
  technique="Extraction of the reported count as a closed form over uninterpreted verdicts of the trials and its comparison with the specified count for sample numbers of trials and processes",
  note="Trusts the sum of an MPI reduction. Equality of forms is tested at sample points (random interpretation). ")
p("S02", "Each run adds one complete row to the results file",
  "A simulation builds the code and the noise from the given arguments and appends exactly one row with the arguments, the decoder, failures, trials, times and number of processes to the requested file, or to the default one; a header naming every value in order precedes it exactly when the file is new. Earlier results are kept, values containing commas are quoted, and only the first process writes.",
  ["inputs", "configurations", "histories"], "every set of arguments, file name, existing content and process",
  "Tests read one file after one or two runs with plain values in one process.",
  [SIMF], [("results file", "simulations.py run_ec_simulation")],
  technique="Abstract evaluation of the file accesses, their conditions and the rows written, decided in every situation (new or existing file, given or default name, first or other process)",
  note="The simulation itself is uninterpreted. Text written without the csv module is decided only when it joins values by commas without quoting. ")

p("G01", "Graph indices and adjacency follow every qubit addition and removal",
  "After any sequence of index generation, adjacency generation, qubit additions and qubit removals, the point-to-index and index-to-point maps are inverse bijections on exactly the qubits present, a qubit keeps its index while it is in the graph, and the adjacency matrix (in the requested dense or sparse format) has its rows and columns in index order with the current edges. In a macronized graph the macronode map keeps partitioning the qubits. A call that is refused leaves qubits, edges and maps as they were.",
  ["inputs", "histories"], "every graph, qubit, neighbour list and interleaving of the operations",
  "Tests add or remove one qubit of small fixed graphs and compare a few entries; stale caches and colliding indices need particular sequences.",
  [EGF], [("indexing and adjacency", "codes/graphs/egraph.py EGraph.index_generator, adj_generator"), ("modification", "codes/graphs/egraph.py EGraph.add_qubit, remove_qubit")],
  technique=FORMTECH, note=FORMNOTE + "Histories are a fixed family of up to five operations with symbolic arguments; refusals are decided for explicit exceptions only.")

p("G02", "Named graph states are the named graphs",
  "For every size from one up to at least a thousand nodes the generators of star, linear and ring graph states return a graph with exactly that many vertices at distinct coordinate triples, and complete graphs likewise for the sizes that fit: the star joins one centre to all others, the linear cluster is a path along its coordinates, the ring a single cycle and the complete graph joins every pair. The Bell pair is the two-node linear cluster, and no vertex is joined to itself.",
  ["inputs"], "every number of nodes", "Tests build one or two small sizes of each family.",
  ["flamingpy/utils/graph_states.py"], [("generators", "utils/graph_states.py")],
  technique=FORMTECH, note=FORMNOTE + "The written vertices and edges are compared at a fixed set of sizes.")

p("G03", "Converting a graph to macronodes keeps its structure",
  "Converting a graph state to its macronode form yields, for every edge, exactly one edge between two new modes placed next to its two endpoints (displaced along the edge by the requested displacement, in the opposite direction for periodic edges), and the macronode of each vertex lists exactly its own modes: distinct, as many as the vertex has edges, padded to at least four where padding is requested, and all rounding to the vertex. Attributes of graph, vertices and edges carry over, perfect points become all modes of their macronodes, modes are indexed macronode by macronode in vertex order, and the converted graph itself is left as it was.",
  ["inputs"], "every graph of coordinate triples without isolated vertices, displacement and padding choice", "Tests convert code lattices of a few sizes with the default displacement.",
  [EGF], [("macronode conversion", "codes/graphs/egraph.py macronize, EGraph.macronize, EGraph.index_generator")],
  technique=FORMTECH, note=FORMNOTE + "Sample graphs have no two edges leaving a vertex in the same direction; padding is decided for vertices of degree one to four.")

p("C02", "Local-Clifford equivalence is decided correctly",
  "Two graph states on the same number of qubits are reported locally Clifford equivalent exactly when a local Clifford unitary maps the first to the second (graphs of different size and empty graphs are reported not equivalent). When they are equivalent, the Clifford returned is a product of one-qubit Cliffords that maps the stabilizer of the first graph state to that of the second, in the form asked for: a list of 2x2 binary matrices [[a, b], [c, d]] in qubit order, or one 2n x 2n matrix whose four blocks are diagonal.",
  ["inputs"], "every pair of graph states with unit edge weights, connected or not, and both output forms", "Tests check a few small connected pairs.",
  [LIN, EGF], [("constraint system, null space and search", "utils/linalg.py"), ("EGraph.is_lc_equivalent", "codes/graphs/egraph.py")],
  technique=FORMTECH, note=FORMNOTE + "The oracle is the orbit of the first graph under local complementation, so sample graphs have at most six qubits (seven in the thorough tier).")

p("U01", "Union-find clusters keep count of parity, size and boundary",
  "The clusters union-find decoding starts from are the connected components of the erased edges, each with its size, the joint parity of its stabilizers and a boundary point if it has one, and those of odd parity are the ones to grow. Merging two clusters adds their sizes and parities, keeps a boundary point, and hangs the smaller below the larger (the second below the first when equal); growing takes an edge from empty to half grown to grown and reports it exactly when it becomes grown, and pruning keeps the boundary nodes with an edge not yet grown. The spanning forest connects what the grown edges connect, without cycles and with the qubit of every edge, and gives each stabilizer its parity and every tree with a boundary point an even total.",
  ["inputs", "histories"], "every erasure, syndrome, support table and pair of clusters",
  "Tests decode whole codes under light noise, where clusters seldom merge twice, touch both boundaries or hold several odd stabilizers.",
  [UFA, UFC], [("merging and initial clusters", "decoders/unionfind/algos.py union, initialize_cluster_trees"), ("support table, pruning, forest", "decoders/unionfind/uf_classes.py"), ("parities", "decoders/unionfind/algos.py obtain_spanning_forest")],
  technique=FORMTECH, note=FORMNOTE + "The spanning tree and component routines of rustworkx are represented by reference ones; the growth loop and root finding are not decided.")
p("U02", "Peeling a forest recovers the edges that cut off an odd part",
  "Peeling a spanning forest whose trees have an even number of odd nodes recovers exactly the qubits whose edges separate an odd number of odd nodes from the others, whatever the shape of the trees and the order of the leaves. A leaf loses its only edge; the qubit of that edge is recovered and the other end changes parity when the leaf is odd, and nothing else changes otherwise; peeling continues from the other end as long as that is left with one edge, and a node without edges is passed over.",
  ["inputs"], "every spanning forest and assignment of parities",
  "The unit tests of the peeling step are in a class that is not collected, and the decoding of whole codes is checked by its verdict only.",
  [UFA], [("a step of the trimming", "decoders/unionfind/algos.py trim_forest"), ("the leaves it starts from", "decoders/unionfind/algos.py peeling")],
  technique=FORMTECH, note=FORMNOTE + "One step of the recursion is extracted; the recursion is followed by a reference peeling from the state the step leaves behind.")
# ---- declined -----------------------------------------------------------
p("D10", "Minimum-weight matching is optimal",
  "The matching found by the minimum-weight perfect matching decoder has the smallest total weight among all perfect matchings of the syndrome graph.",
  ["inputs"], "every weighted matching graph", "Tests compare backends on small random graphs.", [MAT, LEM, "flamingpy/cpp/lemonpy.cpp"],
  [("external matching algorithms", "networkx, rustworkx, lemon")],
  na="Optimality is a property of blossom algorithms inside networkx, rustworkx and lemon on run-time weights; no rule over this repository's source bounds it. The structural part (same objective in every backend) is claimed separately.")
p("D11", "Union-find recovery always clears the syndrome",
  "After a union-find decoding every cluster has even parity or touches a boundary, and the recovery set reproduces the measured syndrome exactly.",
  ["inputs"], "every syndrome pattern and erasure", "Tests sample random errors.", [UFA, UFC], [("cluster growth and peeling", "decoders/unionfind/algos.py")],
  na="Needs an inductive invariant over cluster growth on unbounded run-time graphs; not decidable from the shape of the code. The bookkeeping of clusters is claimed separately.")
p("S03", "Below threshold the logical error rate falls with distance",
  "For noise below the threshold of the code the estimated logical error rate decreases as the code distance grows.",
  ["inputs", "configurations"], "every noise strength below threshold", "Statistical; tests run a few trials.", [SIMF], [("ec_monte_carlo", "simulations.py")],
  na="A statistical statement about run-time sampling.")
p("D12", "Decoding terminates",
  "Decoding terminates for every code, boundary condition and noise outcome.",
  ["inputs"], "every code and syndrome", "Tests run to completion on samples.", [UFA, MAT], [("cluster growth loop", "decoders/unionfind/algos.py")],
  na="Termination of cluster growth depends on a ranking argument over run-time graph contents that no static rule in reach establishes.")
