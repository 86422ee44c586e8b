From d6a364fee9b92e701809c6c6875338cebd49de5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 01/27] fix: do not treat GKP indices of an earlier noise run
 as occupied by non-GKP states

---
 flamingpy/noise/cv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 1103b05..0352762 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -307,7 +307,9 @@ class CVLayer:
         """Associate all indices not in self.states with GKP states."""
         used_inds = np.empty(0, dtype=int)
         for psi in self.states:
-            used_inds = np.concatenate([used_inds, self.states[psi]])
+            # The GKP indices of a previous run are not user-supplied: recompute them.
+            if psi != "GKP":
+                used_inds = np.concatenate([used_inds, self.states[psi]])
         remaining_inds = list(set(range(self._N)) - set(used_inds))
         self.states["GKP"] = np.array(remaining_inds, dtype=int)
 
-- 
2.43.0


From 9e285ae3f1c9b64bcc763694f637d2a305e1aab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 02/27] fix: store the user-supplied beamsplitter network in
 CVMacroLayer

---
 flamingpy/noise/cv.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 0352762..72e4014 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -376,8 +376,7 @@ class CVMacroLayer(CVLayer):
         # Instantiate the CVLayer parent class with the right noise model.
         super().__init__(macro_graph, delta=delta, sampling_order="two-step", **kwargs)
         self.reduced_graph = code.graph
-        if bs_network is None:
-            self.bs_network = splitter_symp()
+        self.bs_network = splitter_symp() if bs_network is None else bs_network
 
     def apply_noise(self, rng=default_rng()):
         """Reduce the macronode code lattice to the canonical code lattice.
-- 
2.43.0


From 19f3ebf36e0466bf995f6574bf65d121fc123ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 03/27] fix: do not modify the states dictionary supplied by
 the caller of CVLayer

---
 flamingpy/noise/cv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 72e4014..0c023fb 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -92,7 +92,8 @@ class CVLayer:
         # Set some noise model parameters.
         self.delta = delta
         self.p_swap = kwargs.get("p_swap")
-        self.states = supplied_states or {"p": np.empty(0, dtype=int)}
+        # Copy the supplied dictionary, as state labels are added to it later.
+        self.states = dict(supplied_states or {"p": np.empty(0, dtype=int)})
         self._sampling_order = kwargs.get("sampling_order") or "initial"
         self._translator = kwargs.get("translator") or GKP_binner
 
-- 
2.43.0


From 2052a39d284997e3a6b48ea18f621a113c8866e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 04/27] fix: accept the documented list of boundaries in
 RHG_graph

---
 flamingpy/codes/surface_code.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flamingpy/codes/surface_code.py b/flamingpy/codes/surface_code.py
index 0750d83..148b60e 100644
--- a/flamingpy/codes/surface_code.py
+++ b/flamingpy/codes/surface_code.py
@@ -167,6 +167,8 @@ def RHG_graph(
     # Dealing with boundaries.
     if isinstance(boundaries, str):
         boundaries = str_to_bound(boundaries)
+    # The comparisons below are element-wise, so lists need to be converted.
+    boundaries = np.asarray(boundaries)
 
     # Locations of all primal vertices.
     max_dict = {"primal": 1, "dual": 0, "periodic": 0}
-- 
2.43.0


From 04a6264a94a8732b73612f283222b77dece96515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 05/27] fix: return the adjacency matrix in the requested
 format even if cached in the other

---
 flamingpy/codes/graphs/egraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index cd9b80e..b502308 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -164,7 +164,7 @@ class EGraph(nx.Graph):
         self.index_generator(). This function demands that the indices
         match.
         """
-        if self.adj_mat is not None:
+        if self.adj_mat is not None and isinstance(self.adj_mat, np.ndarray) != sparse:
             return self.adj_mat
         if self.to_points is None:
             self.index_generator()
-- 
2.43.0


From 3fa9099d7f07a926d9b01d6d42dbf18bd5d58c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 06/27] fix: generate the adjacency matrix of an EGraph after
 removing a qubit

---
 flamingpy/codes/graphs/egraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index b502308..2cfdd64 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -168,7 +168,8 @@ class EGraph(nx.Graph):
             return self.adj_mat
         if self.to_points is None:
             self.index_generator()
-        sorted_nodes = [self.to_points[i] for i in range(self.order())]
+        # The indices need not be contiguous after qubits have been removed.
+        sorted_nodes = [self.to_points[i] for i in sorted(self.to_points)]
         # TODO: Reconsider data type for more intricate weights.
         if sparse:
             adj = nx.to_scipy_sparse_array(self, nodelist=sorted_nodes, dtype=np.int8)
-- 
2.43.0


From 8adf3ca97a0e3900639162bbb165c13328922025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 07/27] fix: do not remove the 'low' and 'high' nodes of the
 stabilizer graph when drawing it

---
 flamingpy/utils/viz.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index b685e12..fe42adf 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -728,11 +728,11 @@ def draw_dec_graph(graph, label_edges=False, node_labels=None, title=""):
     if not isinstance(graph.graph, nx.Graph):
         raise ValueError("The graph must be implemented with the networkx backend.")
 
-    # Remove 'low' and 'high' nodes, which are not important for visualization.
-    if graph.__class__.__name__ == "NxStabilizerGraph":
-        graph.graph.remove_nodes_from({"low", "high"})
-
-    graph = graph.graph
+    # Exclude 'low' and 'high' nodes, which are not important for visualization,
+    # without removing them from the graph to draw.
+    exclude = {"low", "high"} if graph.__class__.__name__ == "NxStabilizerGraph" else set()
+    graph = graph.graph.copy()
+    graph.remove_nodes_from(exclude)
     layout = nx.circular_layout(graph)
 
     fig, ax = plt.subplots()
-- 
2.43.0


From 2970119689bd0645f2a68a8328e9d268bc4c132e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 08/27] fix: leave the EGraph untouched when add_qubit rejects
 the neighbors

---
 flamingpy/codes/graphs/egraph.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index 2cfdd64..50a8077 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -267,29 +267,35 @@ class EGraph(nx.Graph):
                 "Cannot add a qubit to macronode because current EGraph is not macronized."
             )
 
-        # Add node
-        self.add_node(qubit)
-
-        # Update dictionaries when adding qubit
-        self._update_attributes_add_qubit(qubit, add_to_macronode)
-
-        # Update neighbors
+        # Resolve the neighbors before modifying the graph, so that a call with
+        # unsupported neighbors leaves it untouched.
+        neighbor_points = []
         if neighbors is not None:
             if len(neighbors) != 0:
                 if isinstance(neighbors[0], int):
                     if self.to_points is None:
                         self.index_generator()
-                    neighborhood = [(self.to_points[ind], qubit) for ind in neighbors]
+                    neighbor_points = [self.to_points[ind] for ind in neighbors]
                 elif isinstance(neighbors[0], tuple):
-                    neighborhood = [(tup, qubit) for tup in neighbors]
+                    neighbor_points = list(neighbors)
                 else:
                     raise TypeError(
                         "Unsupported type of neighbors. Expected tuples but"
                         f" {type(neighbors[0])} was given. Type int can only be used when "
                         "macro is False."
                     )
+        for point in neighbor_points:
+            if point not in self:
+                raise ValueError(f"There is no neighbor in position {point}.")
 
-                self.add_edges_from(neighborhood)
+        # Add node
+        self.add_node(qubit)
+
+        # Update dictionaries when adding qubit
+        self._update_attributes_add_qubit(qubit, add_to_macronode)
+
+        # Update neighbors
+        self.add_edges_from((point, qubit) for point in neighbor_points)
 
         self.adj_mat = None
 
-- 
2.43.0


From d58561c2b6dce61fcabe15d0d440cca729c0eeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 09/27] fix: write tuple-valued simulation parameters as single
 fields of the results file

---
 flamingpy/simulations.py | 52 +++++++++++++---------------------------
 1 file changed, 17 insertions(+), 35 deletions(-)

diff --git a/flamingpy/simulations.py b/flamingpy/simulations.py
index 30852a0..1026115 100644
--- a/flamingpy/simulations.py
+++ b/flamingpy/simulations.py
@@ -16,6 +16,7 @@
 # pylint: disable=wrong-import-position,consider-using-with,unused-import
 
 import argparse
+import csv
 import sys
 import warnings
 import logging
@@ -155,44 +156,25 @@ def run_ec_simulation(
         # Create a CSV file if it doesn't already exist.
         try:
             file = open(file_name, "x", newline="", encoding="utf8")
-            file.write("code,")
-            for key in code_args:
-                file.write("%s," % (key))
-            file.write("noise,")
-            for key in noise_args:
-                file.write("%s," % (key))
-            file.write("decoder,")
-            for key in decoder_args:
-                file.write("%s," % (key))
-            file.write("errors,trials,current_time,simulation_time,mpi_size\n")
+            new_file = True
         # Open the file for appending if it already exists.
         except FileExistsError:
             file = open(file_name, "a", newline="", encoding="utf8")
-            # writer = csv.writer(file)
-        file.write("%s," % (code.__name__))
-        for value in code_args.values():
-            file.write("%s," % (value))
-        file.write("%s," % (noise.__name__))
-        for value in noise_args.values():
-            file.write("%s," % (value))
-        file.write("%s," % (decoder))
-        for key, value in decoder_args.items():
-            if key == "weight_opts":
-                file.write('"%s",' % (value))
-            else:
-                file.write("%s," % (value))
-        current_time = datetime.now().time().strftime("%H:%M:%S")
-        file.write(
-            "%i,%i,%s,%f,%i\n"
-            % (
-                errors,
-                trials,
-                current_time,
-                (simulation_stop_time - simulation_start_time),
-                mpi_size,
-            )
-        )
-        file.close()
+            new_file = False
+        with file:
+            # The writer quotes the values containing commas (e.g. tuples).
+            writer = csv.writer(file, lineterminator="\n")
+            if new_file:
+                header = ["code", *code_args, "noise", *noise_args, "decoder", *decoder_args]
+                header += ["errors", "trials", "current_time", "simulation_time", "mpi_size"]
+                writer.writerow(header)
+            row = [code.__name__, *code_args.values()]
+            row += [noise.__name__, *noise_args.values()]
+            row += [decoder, *decoder_args.values()]
+            current_time = datetime.now().time().strftime("%H:%M:%S")
+            simulation_time = "%f" % (simulation_stop_time - simulation_start_time)
+            row += [errors, trials, current_time, simulation_time, mpi_size]
+            writer.writerow(row)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 3f48f5dfbba46430ea9ca1fad9989d076968c84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 10/27] fix: reject unsupported weight assignment methods
 instead of keeping old weights

---
 flamingpy/decoders/decoder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flamingpy/decoders/decoder.py b/flamingpy/decoders/decoder.py
index 37f8ec2..09b2bf4 100644
--- a/flamingpy/decoders/decoder.py
+++ b/flamingpy/decoders/decoder.py
@@ -91,7 +91,7 @@ def assign_weights(code, decoder, **kwargs):
                     else:
                         weight = -np.log(err_prob)
                     G.nodes[node]["weight"] = weight
-        elif decoder == "UF":
+        else:
             raise Exception("Incompatible decoder & weight options combination.")
     # Naive weight assignment, unity weights.
     elif weight_options.get("method") == "uniform":
@@ -114,6 +114,8 @@ def assign_weights(code, decoder, **kwargs):
         else:
             for node in qubit_coords:
                 G.nodes[node]["weight"] = 1
+    else:
+        raise ValueError("Invalid weight method; options are 'uniform' and 'blueprint'.")
     # Also assign the weights to the stabilizer graph edges.
     for ec in code.ec:
         getattr(code, f"{ec}_stab_graph").assign_weights(code)
-- 
2.43.0


From 8ee370fd9bf4e3b432bfbec2e3fc31c876e6d8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 11/27] fix: reject unsupported sampling orders instead of
 sampling noiseless outcomes

---
 flamingpy/noise/cv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 0c023fb..204fe1c 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -95,6 +95,8 @@ class CVLayer:
         # Copy the supplied dictionary, as state labels are added to it later.
         self.states = dict(supplied_states or {"p": np.empty(0, dtype=int)})
         self._sampling_order = kwargs.get("sampling_order") or "initial"
+        if self._sampling_order not in ("initial", "two-step"):
+            raise ValueError("Invalid sampling order; options are 'initial' and 'two-step'.")
         self._translator = kwargs.get("translator") or GKP_binner
 
         if self.p_swap is not None and supplied_states is not None:
-- 
2.43.0


From ede96061bbe0bb8e5a59cda4ee6fdf7c9899ff7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 12/27] fix: reject unsupported boundary names in str_to_bound

---
 flamingpy/codes/surface_code.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flamingpy/codes/surface_code.py b/flamingpy/codes/surface_code.py
index 148b60e..9ba41b9 100644
--- a/flamingpy/codes/surface_code.py
+++ b/flamingpy/codes/surface_code.py
@@ -109,7 +109,12 @@ def str_to_bound(bound_name):
         "periodic_dual": ["periodic", "periodic", "dual"],
     }
 
-    return np.array(boundary_mapping_dict.get(bound_name))
+    if bound_name not in boundary_mapping_dict:
+        raise ValueError(
+            f"Invalid boundary '{bound_name}'; options are {list(boundary_mapping_dict)}."
+        )
+
+    return np.array(boundary_mapping_dict[bound_name])
 
 
 def RHG_graph(
-- 
2.43.0


From 9146ca34870620960b7bdbb0d7160a0f468f68e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 13/27] fix: reject distances that are neither an integer nor
 three integers in SurfaceCode

---
 flamingpy/codes/surface_code.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flamingpy/codes/surface_code.py b/flamingpy/codes/surface_code.py
index 9ba41b9..e306f50 100644
--- a/flamingpy/codes/surface_code.py
+++ b/flamingpy/codes/surface_code.py
@@ -326,7 +326,8 @@ class SurfaceCode:
             self.dims = (distance,) * 3
         elif np.size(distance) == 3:
             self.dims = tuple(distance)
-
+        else:
+            raise ValueError("distance must be an integer or a sequence of three integers.")
         self.ec = [ec]
         # self.ec = ["primal", "dual"] if ec == "both" else [ec]
 
-- 
2.43.0


From 0486b503d840082d20be21a4b2c6604aae959d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 14/27] fix: reject unsupported Clifford forms in
 are_lc_equivalent

---
 flamingpy/utils/linalg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flamingpy/utils/linalg.py b/flamingpy/utils/linalg.py
index cf76e24..1f52d36 100644
--- a/flamingpy/utils/linalg.py
+++ b/flamingpy/utils/linalg.py
@@ -241,6 +241,9 @@ def are_lc_equivalent(graph1, graph2, clifford_form="tensor"):
         (bool, numpy.array): whether the states are LC equivalent, and if they are, the local
             Clifford output according to 'clifford_form' specification.
     """
+    if clifford_form not in ("tensor", "global"):
+        raise ValueError("Invalid clifford_form; options are 'tensor' and 'global'.")
+
     # get adjacency matrices of input graphs
     graph1.adj_generator(sparse=False)
     G = graph1.adj_mat
-- 
2.43.0


From 0406b73d48dc5b486412dd2fe523ed1d23188627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 15/27] fix: do not share a mutable default path between the
 edges of matching graphs

---
 flamingpy/decoders/mwpm/matching.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/flamingpy/decoders/mwpm/matching.py b/flamingpy/decoders/mwpm/matching.py
index 15f6065..74ddf9a 100644
--- a/flamingpy/decoders/mwpm/matching.py
+++ b/flamingpy/decoders/mwpm/matching.py
@@ -18,7 +18,7 @@
 from abc import ABC
 from dataclasses import dataclass
 import itertools as it
-from typing import Iterable, List, Tuple, TypeVar, Union
+from typing import Iterable, List, Optional, Tuple, TypeVar, Union
 
 import networkx as nx
 import numpy as np
@@ -55,7 +55,7 @@ class MatchingGraph(ABC):
         if code is not None:
             self.with_edges_from(code, ec)
 
-    def add_edge(self, edge: Edge, weight: Weight, path: List[Node] = []):
+    def add_edge(self, edge: Edge, weight: Weight, path: Optional[List[Node]] = None):
         """Add an edge into the graph.
 
         Args:
@@ -197,7 +197,8 @@ class NxMatchingGraph(MatchingGraph):
         self.graph = nx.Graph()
         MatchingGraph.__init__(self, ec, code)
 
-    def add_edge(self, edge: Edge, weight: Weight, path: List[Node] = []):
+    def add_edge(self, edge: Edge, weight: Weight, path: Optional[List[Node]] = None):
+        path = [] if path is None else path
         self.graph.add_edge(edge[0], edge[1], weight=weight, inverse_weight=-weight, path=path)
 
     def edge_weight(self, edge: Edge):
@@ -270,7 +271,8 @@ class RxMatchingGraph(MatchingGraph):
         self.index_to_node[index] = node
         return index
 
-    def add_edge(self, edge: Edge, weight: Weight, path: List[Node] = []):
+    def add_edge(self, edge: Edge, weight: Weight, path: Optional[List[Node]] = None):
+        path = [] if path is None else path
         self.graph.add_edge(
             self.node_index(edge[0]),
             self.node_index(edge[1]),
-- 
2.43.0


From 2c6426c1547fbe2c66f4553d0a5856b4212da192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 16/27] fix: keep the virtual points when converting matching
 graphs to networkx

---
 flamingpy/decoders/mwpm/matching.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flamingpy/decoders/mwpm/matching.py b/flamingpy/decoders/mwpm/matching.py
index 74ddf9a..d437aa4 100644
--- a/flamingpy/decoders/mwpm/matching.py
+++ b/flamingpy/decoders/mwpm/matching.py
@@ -225,6 +225,7 @@ class LemonMatchingGraph(NxMatchingGraph):
         """
         nx = NxMatchingGraph(self.ec)
         nx.graph = self.graph
+        nx.virtual_points = list(self.virtual_points)
         return nx
 
 
@@ -303,4 +304,5 @@ class RxMatchingGraph(MatchingGraph):
         for idx0, idx1 in iter(self.graph.edge_list()):
             edge = (self.graph.nodes()[idx0], self.graph.nodes()[idx1])
             nx_graph.add_edge(edge, self.edge_weight(edge), self.edge_path(edge))
+        nx_graph.virtual_points = list(self.virtual_points)
         return nx_graph
-- 
2.43.0


From ee6c4dbd370a9a6c24f46fc436174f4e178fd05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 17/27] fix: keep the stabilizers and boundary points when
 converting stabilizer graphs to networkx

---
 flamingpy/codes/graphs/stabilizer_graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flamingpy/codes/graphs/stabilizer_graph.py b/flamingpy/codes/graphs/stabilizer_graph.py
index f1c4761..41b9c10 100644
--- a/flamingpy/codes/graphs/stabilizer_graph.py
+++ b/flamingpy/codes/graphs/stabilizer_graph.py
@@ -341,6 +341,9 @@ class StabilizerGraph(ABC):
             nx_graph.add_edge(*edge, self.edge_data(*edge)["common_vertex"])
             if "weight" in self.edge_data(*edge):
                 nx_graph.edge_data(*edge)["weight"] = self.edge_data(*edge)["weight"]
+        nx_graph.stabilizers = list(self.stabilizers)
+        nx_graph.low_bound_points = list(self.low_bound_points)
+        nx_graph.high_bound_points = list(self.high_bound_points)
         return nx_graph
 
     def draw(self, **kwargs):
-- 
2.43.0


From 76bcbf07b1c478792145314f9d52df874084399e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 18/27] fix: do not consume numpy's global random stream when
 drawing a recovery

---
 flamingpy/utils/viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index fe42adf..387297c 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -1026,7 +1026,7 @@ def add_recovery_drawing(ax, **kwargs):
                     ylist,
                     zlist,
                     "o-",
-                    c=np.random.rand(3),
+                    c=np.random.default_rng().random(3),
                     linewidth=plot_params.get("lines.linewidth", None) * 0.9,
                 )
 
-- 
2.43.0


From 66acbaeab7a122dacaecc10ff8e54a594a85fdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 19/27] fix: apply two-step sampled noise to the measured modes
 only

---
 flamingpy/noise/cv.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 204fe1c..6025b2a 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -190,6 +190,9 @@ class CVLayer:
         # Determine which means and covs to use for the probability distribution
         if updated_means is None:
             means = self._means_sampler(propagate=propagate, rng=rng)
+            # The two-step covariances are those of the measured modes only.
+            if self._sampling_order == "two-step":
+                means = means[:N][inds] if quad == "q" else means[N:][inds]
         else:
             if quad == "q":
                 means = updated_means[:N][inds]
@@ -298,11 +301,7 @@ class CVLayer:
             N_inds = len(inds)
             covs = np.full(N_inds, (self.delta / 2) ** 0.5, dtype=np.float32)
             if self._perfect_inds:
-                inds_to_0 = set(inds).intersection(self._perfect_inds)
-                ind_arr = np.empty(len(inds_to_0), dtype=np.int64)
-                for i, perfect_ind in enumerate(inds_to_0):
-                    ind_arr[i] = (inds == perfect_ind).nonzero()[0][0]
-                covs[ind_arr] = 0
+                covs[np.isin(inds, self._perfect_inds)] = 0
 
         return covs
 
-- 
2.43.0


From a67c3f90e55bebe5369068cb058e1b7ecb9cdac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 20/27] fix: allow applying CVLayer noise to an EGraph without
 a code

---
 flamingpy/noise/cv.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 6025b2a..8182c99 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -69,6 +69,7 @@ class CVLayer:
 
     def __init__(self, code, *, delta, **kwargs):
         # Point to the EGraph (if supplied directly) or to code.egraph (if not).
+        self.code = None
         if isinstance(code, EGraph):
             self.egraph = code
         else:
@@ -145,7 +146,9 @@ class CVLayer:
     def measure_syndrome(self, rng=default_rng()):
         """Measure the syndrome for memory-mode error correction of the grpah
         states."""
-        return self.measure_hom(quad="p", inds=self.code.all_syndrome_inds, rng=rng)
+        # Without a code, all the modes are measured.
+        inds = None if self.code is None else self.code.all_syndrome_inds
+        return self.measure_hom(quad="p", inds=inds, rng=rng)
 
     def inner_decoder(self):
         """Convert homodyne outcomes to bit values according to translator.
@@ -155,10 +158,11 @@ class CVLayer:
 
         This method modifies self.egraph.
         """
-        for point in self.code.all_syndrome_coords:
-            hom_val = self.code.graph.nodes[point]["hom_val_p"]
+        points = self.egraph.nodes if self.code is None else self.code.all_syndrome_coords
+        for point in points:
+            hom_val = self.egraph.nodes[point]["hom_val_p"]
             bit_val = self._translator([hom_val])[0]
-            self.code.graph.nodes[point]["bit_val"] = bit_val
+            self.egraph.nodes[point]["bit_val"] = bit_val
 
     # Public CV manipulation methods.
     def measure_hom(
-- 
2.43.0


From 8b84235a301bacc0dc59cfd8f2a630612fdd916d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 21/27] fix: reject non-square adjacency matrices in lemonpy
 instead of reading out of bounds

---
 flamingpy/cpp/lemonpy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flamingpy/cpp/lemonpy.cpp b/flamingpy/cpp/lemonpy.cpp
index 0af41eb..e55fa70 100644
--- a/flamingpy/cpp/lemonpy.cpp
+++ b/flamingpy/cpp/lemonpy.cpp
@@ -52,6 +52,8 @@ py::array py_mwpm(py::array_t<float, py::array::c_style | py::array::forcecast>
   // check input dimensions
   if ( array.ndim()     != 2 )
     throw std::runtime_error("Input should be 2-D NumPy array");
+  if ( array.shape()[0] != array.shape()[1] )
+    throw std::runtime_error("Input should be a square NumPy array");
 
   // allocate std::vector (to pass to the C++ function)
   std::vector<float> pos(array.size());
-- 
2.43.0


From 4eb4e7b3d5f056d5e5c8ffe0413ff0ee923a3b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:20 +0000
Subject: [PATCH 22/27] fix: match in double precision in lemonpy so large or
 close weights are not rounded

---
 flamingpy/cpp/lemonpy.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flamingpy/cpp/lemonpy.cpp b/flamingpy/cpp/lemonpy.cpp
index e55fa70..50909ba 100644
--- a/flamingpy/cpp/lemonpy.cpp
+++ b/flamingpy/cpp/lemonpy.cpp
@@ -7,10 +7,10 @@
 #include <vector>
 
 typedef lemon::ListGraph Graph;
-typedef Graph::EdgeMap<float> Weights;
+typedef Graph::EdgeMap<double> Weights;
 typedef lemon::MaxWeightedPerfectMatching<Graph,Weights> MWPM;
 
-std::vector<int> mwpm(const std::vector<float> & adjacency, int num_nodes)
+std::vector<int> mwpm(const std::vector<double> & adjacency, int num_nodes)
 {
   Graph g;
   Weights w(g);
@@ -47,7 +47,7 @@ std::vector<int> mwpm(const std::vector<float> & adjacency, int num_nodes)
 namespace py = pybind11;
 
 // wrap C++ function with NumPy array IO
-py::array py_mwpm(py::array_t<float, py::array::c_style | py::array::forcecast> array)
+py::array py_mwpm(py::array_t<double, py::array::c_style | py::array::forcecast> array)
 {
   // check input dimensions
   if ( array.ndim()     != 2 )
@@ -56,10 +56,10 @@ py::array py_mwpm(py::array_t<float, py::array::c_style | py::array::forcecast>
     throw std::runtime_error("Input should be a square NumPy array");
 
   // allocate std::vector (to pass to the C++ function)
-  std::vector<float> pos(array.size());
+  std::vector<double> pos(array.size());
 
   // copy py::array -> std::vector
-  std::memcpy(pos.data(),array.data(),array.size()*sizeof(float));
+  std::memcpy(pos.data(),array.data(),array.size()*sizeof(double));
 
   // call pure C++ function
   std::vector<int> result = mwpm(pos, array.shape()[0]);
-- 
2.43.0


From 83bcb617eba5a09e84bc2850edb43ec0e50a5888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:53 +0000
Subject: [PATCH 23/27] fix: SCZ_mat(sparse=False) returned a sparse matrix for
 scipy.sparse matrix inputs

---
 flamingpy/cv/ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flamingpy/cv/ops.py b/flamingpy/cv/ops.py
index 225545a..be38a10 100644
--- a/flamingpy/cv/ops.py
+++ b/flamingpy/cv/ops.py
@@ -29,8 +29,8 @@ def invert_permutation(p):
 
 
 def issparse(array):
-    """Check if an array is sparse. Backwards-compatible with old SciPy versions."""
-    return isinstance(array, getattr(sp, "sparray", sp.coo_matrix))
+    """Check if an array is sparse, whichever sparse format it is stored in."""
+    return sp.issparse(array)
 
 
 def SCZ_mat(adj, sparse=True):
-- 
2.43.0


From 42efd45f09ab4d4ea7dc505707e01bd107f063ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:29 +0000
Subject: [PATCH 24/27] fix: Z_err_cond ignored or mis-shaped the bin_location
 replacement for undefined probabilities

---
 flamingpy/cv/gkp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flamingpy/cv/gkp.py b/flamingpy/cv/gkp.py
index 4cac738..ad48a81 100644
--- a/flamingpy/cv/gkp.py
+++ b/flamingpy/cv/gkp.py
@@ -129,6 +129,8 @@ def Z_err_cond(var, hom_val, var_num=10, replace_undefined=0, use_hom_val=False)
         denominator = np.sum(ex_val(np.arange(-n_max, n_max)))
         if denominator != 0:
             return numerator / denominator
+        elif replace_undefined == "bin_location":
+            return np.abs(frac) / np.sqrt(np.pi)
         else:
             return replace_undefined
     else:
@@ -147,7 +149,8 @@ def Z_err_cond(var, hom_val, var_num=10, replace_undefined=0, use_hom_val=False)
         # For 0 denominator, populate error according to replace_undefined
         if len(where_0):
             if replace_undefined == "bin_location":
-                zero_dem_result = np.abs(val) / np.sqrt(np.pi)
+                fracs = np.broadcast_to(frac, np.shape(denominator))
+                zero_dem_result = np.abs(fracs[where_0]) / np.sqrt(np.pi)
             else:
                 zero_dem_result = replace_undefined
             error[where_0] = np.full(len(where_0), zero_dem_result)
-- 
2.43.0


From afc88e88562e87e4b7a0f8eac26fdb529e9415c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:57 +0000
Subject: [PATCH 25/27] fix: padding a macronode never reuses the position of
 another micronode

The padding micronodes were always placed 0.05 away from the vertex, so with
disp=0.05 they coincided with displaced micronodes and the macronode kept
fewer than four distinct modes.
---
 flamingpy/codes/graphs/egraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index 50a8077..5abd2ed 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -89,7 +89,8 @@ def macronize(can_graph, pad_boundary=False, disp=0.1):
                 n_new = 4 - macro_size
                 for i in range(n_new):
                     new_node = list(node)
-                    new_node[i] = new_node[i] + 0.05
+                    # Half the displacement, so as not to coincide with another micronode.
+                    new_node[i] = new_node[i] + disp / 2
                     new_node_tup = tuple(new_node)
                     macro_graph.add_node(new_node_tup, **can_graph.nodes[node])
                     macro_dict[node].append(new_node_tup)
-- 
2.43.0


From 0c11b2bde99c1a9f64792d753d3e207080872b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:18 +0000
Subject: [PATCH 26/27] fix: find every local Clifford when searching the null
 space

search_nullspace only looked at sums of two basis vectors, so for null spaces
of dimension one (e.g. the ring of five nodes compared with itself) and some
others no solution was found for locally equivalent graphs.
---
 flamingpy/utils/linalg.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/flamingpy/utils/linalg.py b/flamingpy/utils/linalg.py
index 1f52d36..5aad103 100644
--- a/flamingpy/utils/linalg.py
+++ b/flamingpy/utils/linalg.py
@@ -1,5 +1,7 @@
 """Helper functions for linear algebra used for testing LC equivalence."""
 
+import itertools
+
 import numpy as np
 
 
@@ -103,10 +105,12 @@ def nullspace_basis(M):
 def search_nullspace(basis):
     """Check if the nullspace satisfies the determinant constraints.
 
-     Search through sums of pairs of basis vectors of the nullspace and
-     see if any satisfy the determinant constraints. If no solution is found,
-     output None. If a solution is found, return a vector specifying the local
-     Clifford in the form:
+     Search through sums of pairs of basis vectors of the nullspace and the
+     basis vectors themselves -- or, if there are at most four of them, through
+     all of the nullspace -- and see if any satisfy the determinant constraints.
+     For connected graphs, this finds a solution whenever there is one. If no
+     solution is found, output None. If a solution is found, return a vector
+     specifying the local Clifford in the form:
 
         (a_1, a_2, ..., a_n, b_1, b_2, ..., b_n, c_1, c_2, ..., c_n, d_1, d_2, ..., d_n),
 
@@ -125,13 +129,13 @@ def search_nullspace(basis):
     equivalent = False
     # array to store potential solutions
     sols = []
-    # search through distinct pairs of basis vectors
-    for i in range(d):
-        for j in range(i):
+    # search through sums of distinct basis vectors
+    for size in (2, 1) if d > 4 else (2, 1, 3, 4):
+        for subset in itertools.combinations(range(d), size):
             # boolean for checking solution constraints
             sat = True
-            # potential solution as sum (modulo 2) of basis pair
-            sol = np.vectorize(lambda x: x % 2)(np.add(basis[i], basis[j]))
+            # potential solution as sum (modulo 2) of basis vectors
+            sol = np.vectorize(lambda x: x % 2)(np.sum(basis[list(subset)], axis=0))
             # store potential solution
             sols.append(sol)
             for k in range(n):
-- 
2.43.0


From fd2297ed34a95bf590b4c352fc90277d51859929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:32 +0000
Subject: [PATCH 27/27] fix: compare disconnected graphs component by component
 for local Clifford equivalence

Searching sums of two basis vectors of the null space is only sufficient for
connected graphs; disconnected graphs were often reported not to be locally
Clifford equivalent, even to themselves.
---
 flamingpy/utils/linalg.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/flamingpy/utils/linalg.py b/flamingpy/utils/linalg.py
index 5aad103..cfe1afc 100644
--- a/flamingpy/utils/linalg.py
+++ b/flamingpy/utils/linalg.py
@@ -3,6 +3,7 @@
 import itertools
 
 import numpy as np
+from scipy.sparse.csgraph import connected_components
 
 
 def reduce_RREform_mod2(M, max_cols=None):
@@ -277,12 +278,28 @@ def are_lc_equivalent(graph1, graph2, clifford_form="tensor"):
 
     # perform algorithm to search for solution
     #
-    # construct system of constraints for two adjacency matrices G and H
-    system = lc_constraint_system(G, H)
-    # construct nullspace basis of system of constraints
-    nullspace = nullspace_basis(system)
-    # search nullspace for solution vector
-    solution_vector = search_nullspace(nullspace)
+    # the connected components can be treated separately, since local Cliffords
+    # neither join nor split them
+    n = np.shape(G)[0]
+    n_components, labels = connected_components(G)
+    solution_vector = np.zeros(4 * n, dtype=int)
+    for component in range(n_components):
+        nodes = np.nonzero(labels == component)[0]
+        if H[np.ix_(nodes, np.nonzero(labels != component)[0])].any():
+            solution_vector = None
+            break
+        block = np.ix_(nodes, nodes)
+        # construct system of constraints for two adjacency matrices G and H
+        system = lc_constraint_system(G[block], H[block])
+        # construct nullspace basis of system of constraints
+        nullspace = nullspace_basis(system)
+        # search nullspace for solution vector
+        solution = search_nullspace(nullspace)
+        if solution is None:
+            solution_vector = None
+            break
+        for k in range(4):
+            solution_vector[nodes + k * n] = solution[k * nodes.size : (k + 1) * nodes.size]
 
     # if graphs are not equivalent set clifford_output to None
     if solution_vector is None:
-- 
2.43.0

