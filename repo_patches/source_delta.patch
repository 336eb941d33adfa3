From c6d0193aae7f3908f91ee234347745d98eed0b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:44 +0000
Subject: [PATCH 01/49] fix: order task graph inputs and outputs by port, not
 by edge listing

---
 qermit/clifford_noise_characterisation/ccl.py | 12 ++++++++++
 qermit/taskgraph/task_graph.py                | 22 ++++++++++++-------
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index 259daf9..a3df2f5 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -586,6 +586,18 @@ def gen_CDR_MitEx(
         )
     )
     _experiment_taskgraph.append(_post_task_graph)
+
+    def order_task(
+        obj, noisy_expectation: List[QubitPauliOperator], calibration_complete: bool
+    ) -> Tuple[bool, List[QubitPauliOperator]]:
+        return (calibration_complete, noisy_expectation)
+
+    # the correction task takes the confirmation of calibration first
+    _experiment_taskgraph.append(
+        MitTask(
+            _label="CDROrderWires", _n_in_wires=2, _n_out_wires=2, _method=order_task
+        )
+    )
     _experiment_taskgraph.append(cdr_correction_task_gen())
 
     return MitEx(device_backend).from_TaskGraph(_experiment_taskgraph)
diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index ae65a9d..fca9227 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -178,10 +178,8 @@ class TaskGraph:
         # schemes so fine
         task_copy = copy(task)
 
-        for i, edge in enumerate(list(self._task_graph.out_edges(self._i, keys=True))):
-            self._task_graph.add_edge(
-                task_copy, edge[1], key=(i, edge[2][1]), data=None
-            )
+        for edge in list(self._task_graph.out_edges(self._i, keys=True)):
+            self._task_graph.add_edge(task_copy, edge[1], key=edge[2], data=None)
             self._task_graph.remove_edge(edge[0], edge[1])
 
         for port in range(task_copy.n_in_wires):
@@ -353,10 +351,15 @@ class TaskGraph:
 
         :return: Data from input edges to output vertex, assigned as wires.
         """
+        # edges are listed grouped by neighbour, so must be ordered by port
         for edge, wire in zip(
-            self._task_graph.out_edges(self._i, data=True), input_wires
+            sorted(
+                self._task_graph.out_edges(self._i, data=True, keys=True),
+                key=lambda edge: edge[2][0],
+            ),
+            input_wires,
         ):
-            edge[2]["data"] = wire
+            edge[3]["data"] = wire
 
         # topological_sort fixes any dependency issues so can iterate and assume
         # input wires all realised before a task is reached
@@ -400,8 +403,11 @@ class TaskGraph:
                 o_data["data"] = outputs[ports[0]]
 
         output_wire = [
-            edge[2]["data"]
-            for edge in list(self._task_graph.in_edges(self._o, data=True))
+            edge[3]["data"]
+            for edge in sorted(
+                self._task_graph.in_edges(self._o, data=True, keys=True),
+                key=lambda edge: edge[2][1],
+            )
         ]
         return cast(Tuple[List[Wire]], tuple(output_wire))
 
-- 
2.43.0


From d20638afb873defdb7f9248f141074168a7ff3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:21 +0000
Subject: [PATCH 02/49] fix: list every task of a graph, whatever order its
 vertices were added in

---
 qermit/taskgraph/task_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index fca9227..3775bcf 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -76,7 +76,7 @@ class TaskGraph:
         Returns a list of all tasks with both input and output ports
         in the TaskGraph.
         """
-        return list(self._task_graph)[2:]
+        return [task for task in self._task_graph if task not in (self._i, self._o)]
 
     def __call__(self, input_wires: List[Wire]) -> Tuple[List[Wire]]:
         return self.run(input_wires)
-- 
2.43.0


From b47667f82ba0a5933848cb8fddc2eef5d03d66e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:40 +0000
Subject: [PATCH 03/49] fix: decompose nested task graphs by port, and copy
 building blocks rather than share them

---
 qermit/taskgraph/mittask.py    | 14 +++++++++
 qermit/taskgraph/task_graph.py | 56 ++++++++++++++++++++++++++++------
 2 files changed, 60 insertions(+), 10 deletions(-)

diff --git a/qermit/taskgraph/mittask.py b/qermit/taskgraph/mittask.py
index 65d1c14..6c38403 100644
--- a/qermit/taskgraph/mittask.py
+++ b/qermit/taskgraph/mittask.py
@@ -14,6 +14,7 @@
 
 
 from collections import namedtuple
+from copy import copy
 from enum import Enum
 from types import MethodType
 from typing import Callable, Dict, List, Optional, Union
@@ -86,6 +87,19 @@ class MitTask:
             self.run = MethodType(_method, self)
         self.characterisation: dict = {}
 
+    def __copy__(self) -> "MitTask":
+        """
+        Copies of a MitTask run the same method, but do not share characterisation
+        with the original.
+        """
+        new_task = self.__class__.__new__(self.__class__)
+        new_task.__dict__.update(self.__dict__)
+        new_task.characterisation = copy(self.characterisation)
+        run = self.__dict__.get("run")
+        if isinstance(run, MethodType) and run.__self__ is self:
+            new_task.run = MethodType(run.__func__, new_task)
+        return new_task
+
     @property
     def label(self) -> str:
         return self._label
diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index 3775bcf..1712961 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -57,6 +57,28 @@ class TaskGraph:
         # if requested, all data is held in cache and can be accessed after running
         self._cache: OrderedDict[str, Tuple[MitTask, List[Wire]]] = OrderedDict()
 
+    def __copy__(self) -> "TaskGraph":
+        """
+        Copies of a TaskGraph have the same tasks and wires, but share neither with
+        the original. Data held on wires is not copied.
+        """
+        new_task_graph = self.__class__.__new__(self.__class__)
+        new_task_graph.__dict__.update(self.__dict__)
+        new_task_graph.characterisation = copy(self.characterisation)
+        new_task_graph._cache = copy(self._cache)
+
+        new_nodes = {
+            node: node if isinstance(node, IOTask) else copy(node)
+            for node in self._task_graph
+        }
+        new_task_graph._task_graph = nx.MultiDiGraph()
+        new_task_graph._task_graph.add_nodes_from(new_nodes.values())
+        for source, target, key in self._task_graph.edges(keys=True):
+            new_task_graph._task_graph.add_edge(
+                new_nodes[source], new_nodes[target], key=key, data=None
+            )
+        return new_task_graph
+
     def from_TaskGraph(self, task_graph: "TaskGraph"):
         """
         Returns a new TaskGraph object from another TaskGraph object.
@@ -220,20 +242,34 @@ class TaskGraph:
             for task in node_list:
                 # => TaskGraph object with _task_graph attribute for decomposition
                 if hasattr(task, "_task_graph"):
+                    # work on a copy, as the TaskGraph held in the node may also be
+                    # used elsewhere
+                    sub_graph = copy(task)._task_graph
+
                     # relabel task names for ease of viewing wit visualisation methods
-                    for sub_task in list(task._task_graph.nodes):
+                    for sub_task in list(sub_graph.nodes):
                         # in practice only IOTask
                         if hasattr(sub_task, "_label"):
                             sub_task._label = task._label + sub_task._label
 
-                    task_in_edges = list(self._task_graph.in_edges(task, keys=True))
-                    task_out_edges = list(self._task_graph.out_edges(task, keys=True))
+                    # edges are listed grouped by neighbour, so must be ordered by
+                    # port of the node to be decomposed to be matched
+                    task_in_edges = sorted(
+                        self._task_graph.in_edges(task, keys=True),
+                        key=lambda edge: edge[2][1],
+                    )
+                    task_out_edges = sorted(
+                        self._task_graph.out_edges(task, keys=True),
+                        key=lambda edge: edge[2][0],
+                    )
 
-                    task_input_out_edges = list(
-                        task._task_graph.out_edges(task._i, keys=True)
+                    task_input_out_edges = sorted(
+                        sub_graph.out_edges(task._i, keys=True),
+                        key=lambda edge: edge[2][0],
                     )
-                    task_output_in_edges = list(
-                        task._task_graph.in_edges(task._o, keys=True)
+                    task_output_in_edges = sorted(
+                        sub_graph.in_edges(task._o, keys=True),
+                        key=lambda edge: edge[2][1],
                     )
 
                     if (
@@ -274,7 +310,7 @@ class TaskGraph:
                     for outside_edge, inside_edge in zip(
                         task_in_edges, task_input_out_edges
                     ):
-                        task._task_graph.remove_edge(inside_edge[0], inside_edge[1])
+                        sub_graph.remove_edge(inside_edge[0], inside_edge[1])
                         self._task_graph.remove_edge(outside_edge[0], outside_edge[1])
                         self._task_graph.add_edge(
                             outside_edge[0],
@@ -286,7 +322,7 @@ class TaskGraph:
                     for outside_edge, inside_edge in zip(
                         task_out_edges, task_output_in_edges
                     ):
-                        task._task_graph.remove_edge(inside_edge[0], inside_edge[1])
+                        sub_graph.remove_edge(inside_edge[0], inside_edge[1])
                         self._task_graph.remove_edge(outside_edge[0], outside_edge[1])
                         self._task_graph.add_edge(
                             inside_edge[0],
@@ -296,7 +332,7 @@ class TaskGraph:
                         )
 
                     # add all remaining edges, filling the rest of the subsituted graph
-                    self._task_graph.add_edges_from(task._task_graph.edges)
+                    self._task_graph.add_edges_from(sub_graph.edges)
                     self._task_graph.remove_node(task)
                     check_for_decompose = True
                     break
-- 
2.43.0


From 0877416feecd8cb3b61322703c9b57f3f0a87895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 04/49] fix: copy characterisation when copying a task graph

---
 qermit/taskgraph/task_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index 1712961..8e4a543 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -89,7 +89,7 @@ class TaskGraph:
         """
         self._task_graph = deepcopy(task_graph._task_graph)
         self._label = task_graph._label
-        self.characterisation = task_graph.characterisation
+        self.characterisation = copy(task_graph.characterisation)
         return self
 
     @property
-- 
2.43.0


From a10a5ab5bfc3cadffd85b31b1a4c18b4aaecf785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 05/49] fix: do not drop circuits whose shots equal the maximum
 when splitting shots

---
 qermit/taskgraph/mitres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/taskgraph/mitres.py b/qermit/taskgraph/mitres.py
index 74c473c..bf7d5d0 100644
--- a/qermit/taskgraph/mitres.py
+++ b/qermit/taskgraph/mitres.py
@@ -344,7 +344,7 @@ def split_shots_task_gen(max_shots: int) -> MitTask:
         for i, circ_shots in enumerate(circuit_wires):
             div_val = circ_shots.Shots // max_shots
             # Divide into jobs of size max_shots
-            if circ_shots.Shots > max_shots:
+            if div_val > 0:
                 split_circuit_wires.extend(
                     [
                         CircuitShots(circ_shots.Circuit, max_shots)
-- 
2.43.0


From 7775f5839ebf8c9b30f124cfe5a3ff16b2cf52b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 06/49] fix: merge split shots when there are no circuits

---
 qermit/taskgraph/mitres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/taskgraph/mitres.py b/qermit/taskgraph/mitres.py
index bf7d5d0..3b0bf4e 100644
--- a/qermit/taskgraph/mitres.py
+++ b/qermit/taskgraph/mitres.py
@@ -397,7 +397,7 @@ def group_shots_task_gen() -> MitTask:
         # to the circuit of the same index.
         grouped_results = [
             [result for result, i in zip(results_wires, split_index) if i == j]
-            for j in range(split_index[-1] + 1)
+            for j in range(max(split_index, default=-1) + 1)
         ]
 
         # For each circuit, combine the results.
-- 
2.43.0


From 1fdb67725b2efcf192a83a9a53548cebf874798c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:58 +0000
Subject: [PATCH 07/49] fix: keep the values of each bit when merging results
 whose bits are not sorted

---
 qermit/frame_randomisation/frame_randomisation.py |  9 +++------
 qermit/taskgraph/mitres.py                        | 14 +++++++-------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/qermit/frame_randomisation/frame_randomisation.py b/qermit/frame_randomisation/frame_randomisation.py
index 6a2f01e..2020953 100644
--- a/qermit/frame_randomisation/frame_randomisation.py
+++ b/qermit/frame_randomisation/frame_randomisation.py
@@ -135,18 +135,15 @@ def frame_randomisation_result_task_gen(samples: int) -> MitTask:
         ]
         results = []
         for chunk in chunked_results:
-            all_counts = [result.get_counts() for result in chunk]
+            c_bits = cast(Sequence[Bit], list(chunk[0].c_bits))
+            all_counts = [result.get_counts(cbits=c_bits) for result in chunk]
             combined_counts = reduce(operator.add, all_counts)
             outcome_array = {
                 OutcomeArray.from_readouts([key]): val
                 for key, val in combined_counts.items()
             }
             outcome_counts = Counter(outcome_array)
-            results.append(
-                BackendResult(
-                    counts=outcome_counts, c_bits=cast(Sequence[Bit], chunk[0].c_bits)
-                )
-            )
+            results.append(BackendResult(counts=outcome_counts, c_bits=c_bits))
         return (results,)
 
     return MitTask(
diff --git a/qermit/taskgraph/mitres.py b/qermit/taskgraph/mitres.py
index 3b0bf4e..0d02b09 100644
--- a/qermit/taskgraph/mitres.py
+++ b/qermit/taskgraph/mitres.py
@@ -402,14 +402,14 @@ def group_shots_task_gen() -> MitTask:
 
         # For each circuit, combine the results.
         for chunk in grouped_results:
-            # Concatenate shots from all results
-            combined_shots = np.concatenate([result.get_shots() for result in chunk])
-            outcome_array = OutcomeArray.from_readouts(combined_shots)
-            merged_results.append(
-                BackendResult(
-                    shots=outcome_array, c_bits=cast(Sequence[Bit], chunk[0].c_bits)
-                )
+            # Concatenate shots from all results, with the bits of each in the
+            # same order
+            c_bits = cast(Sequence[Bit], list(chunk[0].c_bits))
+            combined_shots = np.concatenate(
+                [result.get_shots(cbits=c_bits) for result in chunk]
             )
+            outcome_array = OutcomeArray.from_readouts(combined_shots)
+            merged_results.append(BackendResult(shots=outcome_array, c_bits=c_bits))
 
         return (merged_results,)
 
-- 
2.43.0


From ee20b87f238bb8b4b0729f11f68f741cf131b6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:04 +0000
Subject: [PATCH 08/49] fix: do not share operators or bookkeeping between
 observable trackers

---
 qermit/taskgraph/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qermit/taskgraph/utils.py b/qermit/taskgraph/utils.py
index 8c88520..ae822e0 100644
--- a/qermit/taskgraph/utils.py
+++ b/qermit/taskgraph/utils.py
@@ -231,7 +231,8 @@ class ObservableTracker:
         :param qubit_pauli_operator: QubitPauliOperator for which given ObservableTracker is expected
             to retain measurement circuits all QubitPauliString keys for before any Backend execution.
         """
-        self._qubit_pauli_operator = qubit_pauli_operator
+        # copied, as the operator held here is modified by methods below
+        self._qubit_pauli_operator = QubitPauliOperator(qubit_pauli_operator._dict)
         # indices being index in measurement circuits
         self._qps_to_indices: Dict[
             QubitPauliString, List[Tuple[int, List[Bit], bool]]
@@ -252,11 +253,13 @@ class ObservableTracker:
         # these variables could be mutated in the first ObservableTracker and effect
         # this one
         # To fix, copy everything
-        new_obj = ObservableTracker(copy(to_copy._qubit_pauli_operator))
+        new_obj = ObservableTracker(to_copy._qubit_pauli_operator)
 
-        new_obj._qps_to_indices = copy(to_copy._qps_to_indices)
+        new_obj._qps_to_indices = {
+            qps: copy(indices) for qps, indices in to_copy._qps_to_indices.items()
+        }
         new_obj._measurement_circuits = copy(to_copy._measurement_circuits)
-        new_obj._partitions = copy(to_copy._partitions)
+        new_obj._partitions = [copy(p) for p in to_copy._partitions]
         return new_obj
 
     def __str__(self):
-- 
2.43.0


From 99c4d8bb9acfeeeb33e78dce0b41152362689f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:04 +0000
Subject: [PATCH 09/49] fix: track the strings an observable tracker's operator
 is extended by

---
 qermit/taskgraph/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qermit/taskgraph/utils.py b/qermit/taskgraph/utils.py
index ae822e0..1949615 100644
--- a/qermit/taskgraph/utils.py
+++ b/qermit/taskgraph/utils.py
@@ -305,6 +305,8 @@ class ObservableTracker:
         :param new_operator: Each QubitPauliString and coefficient added to held operator.
         """
         self._qubit_pauli_operator += new_operator
+        for qps in new_operator._dict:
+            self._qps_to_indices.setdefault(qps, list())
 
     def remove_strings(self, strings: List[QubitPauliString]):
         """
-- 
2.43.0


From c81314f9685b0690da4377962e4d918ba68be1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:04 +0000
Subject: [PATCH 10/49] fix: forget the qubits of strings removed from an
 observable tracker

---
 qermit/taskgraph/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qermit/taskgraph/utils.py b/qermit/taskgraph/utils.py
index 1949615..25c0070 100644
--- a/qermit/taskgraph/utils.py
+++ b/qermit/taskgraph/utils.py
@@ -317,6 +317,8 @@ class ObservableTracker:
         for qps in strings:
             self._qps_to_indices.pop(qps, None)
             self._qubit_pauli_operator._dict.pop(qps, None)
+        # qubits which appear only in the removed strings are no longer needed
+        self._qubit_pauli_operator = QubitPauliOperator(self._qubit_pauli_operator._dict)
 
     @property
     def qubit_pauli_operator(self):
-- 
2.43.0


From 519980375c277338dd746076d391317696d63568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 11/49] fix: leave the user's observable trackers alone when
 running experiments

---
 qermit/taskgraph/measurement_reduction.py | 4 ++--
 qermit/taskgraph/mitex.py                 | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/qermit/taskgraph/measurement_reduction.py b/qermit/taskgraph/measurement_reduction.py
index b9e3e11..86edc47 100644
--- a/qermit/taskgraph/measurement_reduction.py
+++ b/qermit/taskgraph/measurement_reduction.py
@@ -28,7 +28,7 @@ from pytket.transform import CXConfigType
 
 from .mitex import MitEx
 from .mittask import MitTask, ObservableExperiment
-from .utils import MeasurementCircuit
+from .utils import MeasurementCircuit, ObservableTracker
 
 
 def measurement_reduction_task_gen(
@@ -58,7 +58,7 @@ def measurement_reduction_task_gen(
             # symbols dict object
             symbols = measurement_wire[0][2]
             # ObservableTracker object for given experiment
-            tracker = measurement_wire[1]
+            tracker = ObservableTracker.from_ObservableTracker(measurement_wire[1])
             # use measurement reduction method to get MeasurementSetup object
             # with reduced number of measurement circuits
             new_setup = measurement_reduction(
diff --git a/qermit/taskgraph/mitex.py b/qermit/taskgraph/mitex.py
index 4871040..012aaee 100644
--- a/qermit/taskgraph/mitex.py
+++ b/qermit/taskgraph/mitex.py
@@ -132,7 +132,10 @@ def filter_observable_tracker_task_gen() -> MitTask:
             circuit = ansatz_circuit[0]
             shots = ansatz_circuit[1]
             symbols = ansatz_circuit[2]
-            observable_tracker = measurement_wire[1]
+            # copied, as it belongs to the user and may be in several experiments
+            observable_tracker = ObservableTracker.from_ObservableTracker(
+                measurement_wire[1]
+            )
 
             non_existant_qubits = (
                 observable_tracker.qubit_pauli_operator.all_qubits.difference(
-- 
2.43.0


From d95b8baba5237861656b0e32d0bf5199d3ccf0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:36 +0000
Subject: [PATCH 12/49] fix: do not measure strings again which already have a
 measurement circuit

---
 qermit/taskgraph/measurement_reduction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qermit/taskgraph/measurement_reduction.py b/qermit/taskgraph/measurement_reduction.py
index 86edc47..3829758 100644
--- a/qermit/taskgraph/measurement_reduction.py
+++ b/qermit/taskgraph/measurement_reduction.py
@@ -61,8 +61,9 @@ def measurement_reduction_task_gen(
             tracker = ObservableTracker.from_ObservableTracker(measurement_wire[1])
             # use measurement reduction method to get MeasurementSetup object
             # with reduced number of measurement circuits
+            # strings which already have a measurement circuit would be counted twice
             new_setup = measurement_reduction(
-                list(tracker._qubit_pauli_operator._dict.keys()),
+                tracker.get_empty_strings(),
                 strat=strategy,
                 method=method,
                 cx_config=cx_config,
-- 
2.43.0


From c80df6ad5bc001b9147fa055f77c3f52cea136e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 13/49] fix: keep unused bits when adding leakage detection

---
 qermit/leakage_detection/leakage_detection.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/qermit/leakage_detection/leakage_detection.py b/qermit/leakage_detection/leakage_detection.py
index cc3b8d0..63ee6eb 100644
--- a/qermit/leakage_detection/leakage_detection.py
+++ b/qermit/leakage_detection/leakage_detection.py
@@ -47,6 +47,16 @@ def gen_add_leakage_gadget_circuit_task(backend: Backend) -> MitTask:
             for circuit_shots in circuit_shots_list
         ]
 
+        # Unused bits are not included in the detection circuits, but are
+        # expected in the results.
+        for circuit_shots, detection_circuit_shots in zip(
+            circuit_shots_list, detection_circuit_shots_list
+        ):
+            detection_circuit = detection_circuit_shots.Circuit
+            for bit in circuit_shots.Circuit.bits:
+                if bit not in detection_circuit.bits:
+                    detection_circuit.add_bit(bit)
+
         # For each circuit create a postselection manager. These may be
         # different for each circuit, if for example the circuits are of
         # different sizes.
-- 
2.43.0


From eccd7dd14aa9237b66dfe3eb452c48031f6edb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 14/49] fix: copy characterisation when making a result or
 expectation object from a task graph

---
 qermit/taskgraph/mitex.py  | 3 ++-
 qermit/taskgraph/mitres.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/qermit/taskgraph/mitex.py b/qermit/taskgraph/mitex.py
index 012aaee..abb2e20 100644
--- a/qermit/taskgraph/mitex.py
+++ b/qermit/taskgraph/mitex.py
@@ -14,7 +14,7 @@
 
 
 import inspect
-from copy import deepcopy
+from copy import copy, deepcopy
 from typing import List, OrderedDict, Tuple, Union, cast
 
 import networkx as nx  # type: ignore
@@ -433,6 +433,7 @@ class MitEx(TaskGraph):
             )
         self._task_graph = deepcopy(task_graph._task_graph)
         self._label = task_graph._label
+        self.characterisation = copy(task_graph.characterisation)
         return self
 
     def parallel(self, task: Union[MitTask, "TaskGraph"]):
diff --git a/qermit/taskgraph/mitres.py b/qermit/taskgraph/mitres.py
index 0d02b09..72ca818 100644
--- a/qermit/taskgraph/mitres.py
+++ b/qermit/taskgraph/mitres.py
@@ -13,7 +13,7 @@
 # limitations under the License.
 
 import inspect
-from copy import deepcopy
+from copy import copy, deepcopy
 from itertools import repeat
 from typing import List, OrderedDict, Sequence, Tuple, Union, cast
 
@@ -257,6 +257,7 @@ class MitRes(TaskGraph):
             )
         self._task_graph = deepcopy(task_graph._task_graph)
         self._label = task_graph._label
+        self.characterisation = copy(task_graph.characterisation)
         return self
 
     def parallel(self, task: Union[MitTask, "TaskGraph"]):
-- 
2.43.0


From 8ac29cb57044640a25b81a2e476f7a543ce6bb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 15/49] fix: keep the order of classical operations when boxing
 Clifford subcircuits

---
 .../box_clifford_subcircuits.py               | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
index 093c90b..b2be2d6 100644
--- a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
+++ b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
@@ -1,5 +1,5 @@
 import networkx as nx  # type: ignore
-from pytket._tket.unit_id import Qubit
+from pytket._tket.unit_id import Qubit, UnitID
 from pytket.circuit import CircBox, Circuit, Command, OpType
 from pytket.passes import BasePass, CustomPass
 
@@ -84,22 +84,22 @@ def _circuit_to_graph(circuit: Circuit) -> tuple[nx.DiGraph, list[Command]]:
     :return: Tuple of graph and list of commands. Nodes are indexes
         in the list of commands.
     """
-    # Lists the most recent node to act on a particular qubits. If a
-    # new gate is found to act on that qubit then an edge between the
+    # Lists the most recent node to act on a particular qubit or bit. If a
+    # new gate is found to act on that qubit or bit then an edge between the
     # node which corresponds to the new gate and the node which
-    # most recently acted on that qubit is added. This builds a DAG
+    # most recently acted on that qubit or bit is added. This builds a DAG
     # showing the temporal order of gates.
     node_command = circuit.get_commands()
-    current_node: dict[Qubit, int] = {}
+    current_node: dict[UnitID, int] = {}
     dag = nx.DiGraph()
     for node, command in enumerate(node_command):
         dag.add_node(node)
-        for qubit in command.qubits:
-            # This if statement is used in case the qubit has not been
+        for unit in command.args:
+            # This if statement is used in case the unit has not been
             # acted on yet.
-            if qubit in current_node.keys():
-                dag.add_edge(current_node[qubit], node)
-            current_node[qubit] = node
+            if unit in current_node.keys():
+                dag.add_edge(current_node[unit], node)
+            current_node[unit] = node
 
     return dag, node_command
 
-- 
2.43.0


From e57151f53a4606b17226ac29935134b7a7635578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:16 +0000
Subject: [PATCH 16/49] fix: keep implicit qubit permutations when boxing
 Clifford subcircuits

---
 qermit/coherent_pauli_checks/box_clifford_subcircuits.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
index b2be2d6..9a377a6 100644
--- a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
+++ b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
@@ -166,6 +166,11 @@ def _box_clifford_transform(circuit: Circuit) -> Circuit:
     :return: Equivalent circuit with subcircuits boxed.
     :rtype: Circuit
     """
+    # An implicit permutation of the qubits is not among the commands, and
+    # so is made explicit.
+    circuit = circuit.copy()
+    circuit.replace_implicit_wire_swaps()
+
     dag, node_command = _circuit_to_graph(circuit=circuit)
     clifford_nodes = _get_clifford_commands(node_command)
 
-- 
2.43.0


From 67af37c2400f54f9fac79b4c43bcd628f6c726de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:32 +0000
Subject: [PATCH 17/49] fix: complete the checks of every subcircuit box for
 which checks are started

---
 qermit/coherent_pauli_checks/pauli_sampler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qermit/coherent_pauli_checks/pauli_sampler.py b/qermit/coherent_pauli_checks/pauli_sampler.py
index b77d3ea..1c658b0 100644
--- a/qermit/coherent_pauli_checks/pauli_sampler.py
+++ b/qermit/coherent_pauli_checks/pauli_sampler.py
@@ -52,8 +52,7 @@ class PauliSampler(ABC):
         # Add each command in the circuit, wrapped by checks
         # if the command is a circbox named 'Clifford Subcircuit'
         for command in circuit.get_commands():
-            # Add barriers and check if appropriate
-            if (
+            is_clifford_box = (
                 (command.op.type == OpType.CircBox)
                 and (cast(CircBox, command.op).get_circuit().name is not None)
                 and (
@@ -61,7 +60,10 @@ class PauliSampler(ABC):
                         "Clifford Subcircuit"
                     )
                 )
-            ):
+            )
+
+            # Add barriers and check if appropriate
+            if is_clifford_box:
                 clifford_subcircuit = self._decompose_clifford_subcircuit_box(command)
 
                 # List of Paulis to be used as checks before the subcircuit.
@@ -108,9 +110,7 @@ class PauliSampler(ABC):
             pauli_check_circuit.add_gate(command.op, command.args)
 
             # Add barriers and checks if appropriate.
-            if (command.op.type == OpType.CircBox) and (
-                cast(CircBox, command.op).get_circuit().name == "Clifford Subcircuit"
-            ):
+            if is_clifford_box:
                 # For each check, commute the pauli through
                 # the clifford circuit.
                 for end_stabiliser, control_qubit in zip(
-- 
2.43.0


From 6d266ffecb22fa7f056a48ac62e1c492314260f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:32 +0000
Subject: [PATCH 18/49] fix: keep barriers when adding Pauli checks

---
 qermit/coherent_pauli_checks/pauli_sampler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qermit/coherent_pauli_checks/pauli_sampler.py b/qermit/coherent_pauli_checks/pauli_sampler.py
index 1c658b0..a75eab7 100644
--- a/qermit/coherent_pauli_checks/pauli_sampler.py
+++ b/qermit/coherent_pauli_checks/pauli_sampler.py
@@ -107,7 +107,13 @@ class PauliSampler(ABC):
                 ]
 
             # Add original command
-            pauli_check_circuit.add_gate(command.op, command.args)
+            if command.op.type == OpType.Barrier:
+                pauli_check_circuit.add_barrier(
+                    units=command.args,
+                    data=command.op.data,  # type: ignore
+                )
+            else:
+                pauli_check_circuit.add_gate(command.op, command.args)
 
             # Add barriers and checks if appropriate.
             if is_clifford_box:
-- 
2.43.0


From bfb380c1df59396d26394cece3f2797ebcf37c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 19/49] fix: keep every qubit, bit and implicit permutation
 when adding Pauli errors to a circuit

---
 qermit/noise_model/pauli_error_transpile.py | 24 ++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/qermit/noise_model/pauli_error_transpile.py b/qermit/noise_model/pauli_error_transpile.py
index 2c39844..a8a2a64 100644
--- a/qermit/noise_model/pauli_error_transpile.py
+++ b/qermit/noise_model/pauli_error_transpile.py
@@ -23,12 +23,13 @@ def PauliErrorTranspile(noise_model: NoiseModel) -> BasePass:
         :return: Circuit with additional noise operations.
         """
 
-        # Initialise circuit with the same registers as input.
+        # Initialise circuit with the same qubits and bits as input.
         noisy_circuit = Circuit()
-        for q_register in circuit.q_registers:
-            noisy_circuit.add_q_register(q_register)
-        for c_register in circuit.c_registers:
-            noisy_circuit.add_c_register(c_register)
+        for circuit_qubit in circuit.qubits:
+            noisy_circuit.add_qubit(circuit_qubit)
+        for circuit_bit in circuit.bits:
+            noisy_circuit.add_bit(circuit_bit)
+        noisy_circuit.add_phase(circuit.phase)
 
         # Add each command in the original circuit,
         # and a pauli error if appropriate.
@@ -57,6 +58,19 @@ def PauliErrorTranspile(noise_model: NoiseModel) -> BasePass:
                                 "Not a Pauli noise model." + f" Contains {pauli} error"
                             )
 
+        # Any implicit permutation of the qubits is not one of the commands,
+        # and so is applied here without noise.
+        permutation = circuit.implicit_qubit_permutation()
+        location = {start: start for start in permutation}
+        for start, end in permutation.items():
+            if location[start] != end:
+                noisy_circuit.SWAP(location[start], end)
+                displaced = next(
+                    other for other, current in location.items() if current == end
+                )
+                location[displaced] = location[start]
+                location[start] = end
+
         return noisy_circuit
 
     return CustomPass(add_gates)
-- 
2.43.0


From 04d3b12338aa1a1253ff7108083fe92eb8568de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 20/49] fix: allow identity and zero rate errors when
 converting error distributions to a PTM

---
 qermit/noise_model/noise_model.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/qermit/noise_model/noise_model.py b/qermit/noise_model/noise_model.py
index 943d14b..3a2f248 100644
--- a/qermit/noise_model/noise_model.py
+++ b/qermit/noise_model/noise_model.py
@@ -145,7 +145,18 @@ class ErrorDistribution:
                 + "Please report this as an issue."
             )
 
-        if not self == ErrorDistribution.from_ptm(ptm=ptm, pauli_index=pauli_index):
+        # The identity, and errors which do not occur, are not among
+        # those recovered from a PTM.
+        recovered = ErrorDistribution.from_ptm(ptm=ptm, pauli_index=pauli_index)
+        if not all(
+            math.isclose(
+                self.distribution.get(error, 0),
+                recovered.distribution.get(error, 0),
+                abs_tol=10 ** (-5),
+            )
+            for error in pauli_index
+            if error != identity
+        ):
             raise Exception(
                 "From PTM does not match to PTM. "
                 + "This is a fault in Qermit. "
-- 
2.43.0


From 52be515674ae81ea2ed29f3e542ffb4147ccd496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 21/49] fix: scale error distributions without errors

---
 qermit/noise_model/noise_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qermit/noise_model/noise_model.py b/qermit/noise_model/noise_model.py
index 3a2f248..d28b8f6 100644
--- a/qermit/noise_model/noise_model.py
+++ b/qermit/noise_model/noise_model.py
@@ -407,6 +407,10 @@ class ErrorDistribution:
         :return: A new error distribution with the noise scaled.
         """
 
+        # If there are no errors then there is nothing to scale.
+        if self.distribution == {}:
+            return ErrorDistribution(distribution={})
+
         ptm, pauli_index = self.to_ptm()
         scaled_ptm = fractional_matrix_power(ptm, scaling_factor)
         return ErrorDistribution.from_ptm(ptm=scaled_ptm, pauli_index=pauli_index)
-- 
2.43.0


From ea74c585e5d73bf08b271e62e317f179b6a4e28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:53 +0000
Subject: [PATCH 22/49] fix: keep implicit qubit permutations and bits when
 folding circuits

---
 qermit/zero_noise_extrapolation/zne.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index c075b35..dce0e8f 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -187,10 +187,13 @@ class Folding(Enum):
                 "in the compiled circuit, and i is an integer."
             )
 
-        # Copy qubit register of original circuit.
+        # Copy qubits and bits of original circuit.
         folded_circuit = Circuit()
         for qubit in circ.qubits:
             folded_circuit.add_qubit(qubit)
+        for bit in circ.bits:
+            folded_circuit.add_bit(bit)
+        folded_circuit.add_phase(circ.phase)
 
         for i, gate in enumerate(circ.get_commands()):
             # Barriers are not folded and added as given.
@@ -211,7 +214,13 @@ class Folding(Enum):
             else:
                 folded_circuit.add_gate(gate.op, gate.args)
 
-        return [folded_circuit]
+        # Any implicit permutation of the qubits is that of the original.
+        folded_circuit_dict = folded_circuit.to_dict()
+        folded_circuit_dict["implicit_permutation"] = circ.to_dict()[
+            "implicit_permutation"
+        ]
+
+        return [Circuit.from_dict(folded_circuit_dict)]
 
     @staticmethod
     def gate(circ: Circuit, noise_scaling: float, **kwargs) -> List[Circuit]:
@@ -270,9 +279,13 @@ class Folding(Enum):
         # Calculate how many times each individual command needs to be folded
         num_folds = {i: list(commands_to_fold).count(i) for i in range(num_commands)}
 
+        # The circuits for individual commands do not permute the qubits.
         command_circ_dict = {
             key: val for key, val in c_dict.items() if key != "commands"
         }
+        command_circ_dict["implicit_permutation"] = [
+            [qubit, qubit] for qubit, _ in c_dict["implicit_permutation"]
+        ]
 
         folded_command_list = []
         # For each command, fold the appropriate number of times.
@@ -336,9 +349,13 @@ class Folding(Enum):
         fold = True
         folded_command_list = []
 
+        # The circuits for individual commands do not permute the qubits.
         command_circ_dict = {
             key: val for key, val in c_dict.items() if key != "commands"
         }
+        command_circ_dict["implicit_permutation"] = [
+            [qubit, qubit] for qubit, _ in c_dict["implicit_permutation"]
+        ]
 
         for command in c_dict["commands"]:
             # Barriers are added to the circuit but otherwise effectively
-- 
2.43.0


From 271f2aa525df0bfd1a04d5648792bbec5d9cf8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:10 +0000
Subject: [PATCH 23/49] fix: fold exactly when the noise scaling given can be
 reached

---
 qermit/zero_noise_extrapolation/zne.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index dce0e8f..98a494d 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -167,7 +167,8 @@ class Folding(Enum):
         fold_frac = ((noise_scaling - 1) % 2) / 2
         to_fold = np.random.choice(
             list(num_folds_dict.keys()),
-            size=int(len(num_folds_dict.keys()) * fold_frac),
+            # This is rounded down, up to the precision of the scaling given.
+            size=int(round(len(num_folds_dict.keys()) * fold_frac, 6)),
             replace=False,
         )
         for i in to_fold:
@@ -257,7 +258,8 @@ class Folding(Enum):
         # Calculate the number of gates that need to be folded. Note that only
         # non barrier commands should be folded so only these are counted.
         num_additional_commands = (noise_scaling - 1) * num_non_barrier_commands
-        num_folded_commands = int(num_additional_commands // 2)
+        # This is rounded down, up to the precision of the scaling given.
+        num_folded_commands = int(round(num_additional_commands / 2, 6))
 
         true_noise_scaling = 1 + ((num_folded_commands * 2) / num_non_barrier_commands)
         # This check isolates the case where the noise folding that can be achieved is different
-- 
2.43.0


From 300c4b80d19cd0759b32e3529c40ab7cc954ea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:02 +0000
Subject: [PATCH 24/49] fix: merge noise scaled results when there are no
 experiments

---
 qermit/zero_noise_extrapolation/zne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index 98a494d..eec0871 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -795,7 +795,7 @@ def merge_experiments_task_gen() -> MitTask:
         return (
             [
                 QubitPauliOperator(dictionary=index_to_merged_qpo_dict.get(index, {}))
-                for index in range(max(experiment_index_list) + 1)
+                for index in range(max(experiment_index_list, default=-1) + 1)
             ],
         )
 
-- 
2.43.0


From a2e3b78fbae1c3b06dc39821b0b720da660a0157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:02 +0000
Subject: [PATCH 25/49] fix: refuse to fit polynomials of degree too high for
 the data

---
 qermit/zero_noise_extrapolation/zne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index eec0871..7627fe3 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -582,7 +582,7 @@ class Fit(Enum):
         """
 
         # Raised if the degree of the polynomial requested is negative, or too high to fit the data to
-        if (deg > len(x)) or (deg < 0):
+        if (deg + 1 > len(x)) or (deg < 0):
             raise ValueError(
                 "The degree of the polynomial must be positive and can be at most m-1, where m is the number of data points."
             )
-- 
2.43.0


From 7aa6d59f472a496d45a9338834b0b2f8eee57a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:02 +0000
Subject: [PATCH 26/49] fix: fit exponentials when the unscaled noise level is
 not among the data

---
 qermit/zero_noise_extrapolation/zne.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index 7627fe3..99a99d5 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -527,8 +527,8 @@ class Fit(Enum):
         )
 
         # Initialise decaying poly-exponential with intersect at
-        # unfolded noisy value.
-        least_noisy_y_index = x.index(1)
+        # least noisy value.
+        least_noisy_y_index = x.index(min(x))
         p0 = [0, y[least_noisy_y_index], *[-1 for i in range(deg)]]
 
         vals = curve_fit(
-- 
2.43.0


From 813bf96f124a615fb204615ff2c7d4b1b1cd032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 27/49] fix: fold gates of circuits with bits

---
 qermit/zero_noise_extrapolation/zne.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index 99a99d5..cd3168b 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -288,18 +288,21 @@ class Folding(Enum):
         command_circ_dict["implicit_permutation"] = [
             [qubit, qubit] for qubit, _ in c_dict["implicit_permutation"]
         ]
+        # Commands being inverted do not use bits, which can not be inverted.
+        command_circ_dict["bits"] = []
 
         folded_command_list = []
         # For each command, fold the appropriate number of times.
         for command_index in num_folds:
             command = c_dict["commands"][command_index]
-            command_circ_dict.update({"commands": [command]})
-            command_circ = Circuit().from_dict(command_circ_dict)
 
             # Commands which are not to be folded may not be invertible (for
             # example barriers) and so the inverse is not calculated in that
             # case.
             if num_folds[command_index] > 0:
+                command_circ_dict.update({"commands": [command]})
+                command_circ = Circuit().from_dict(command_circ_dict)
+
                 # Find the inverse of the command
                 inverse_command_circ = command_circ.dagger()
                 inverse_command_circ_dict = inverse_command_circ.to_dict()
@@ -358,6 +361,8 @@ class Folding(Enum):
         command_circ_dict["implicit_permutation"] = [
             [qubit, qubit] for qubit, _ in c_dict["implicit_permutation"]
         ]
+        # Commands being inverted do not use bits, which can not be inverted.
+        command_circ_dict["bits"] = []
 
         for command in c_dict["commands"]:
             # Barriers are added to the circuit but otherwise effectively
-- 
2.43.0


From f78b3357e30ec1876a8dadd143a021d8b03654ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:58 +0000
Subject: [PATCH 28/49] fix: do not rebase the user's circuits when running
 with frame randomisation

---
 .../frame_randomisation.py                    | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/qermit/frame_randomisation/frame_randomisation.py b/qermit/frame_randomisation/frame_randomisation.py
index 2020953..3881ba2 100644
--- a/qermit/frame_randomisation/frame_randomisation.py
+++ b/qermit/frame_randomisation/frame_randomisation.py
@@ -110,6 +110,33 @@ def frame_randomisation_circuits_task_gen(
     )
 
 
+def copy_circuits_task_gen() -> MitTask:
+    """
+    Returns a MitTask object that copies the circuits in its wire. Circuits are rebased in place when
+    they are frame randomised, which should not alter the circuits belonging to the user.
+    """
+
+    def task(obj, circs_shots: List[CircuitShots]) -> Tuple[List[CircuitShots]]:
+        """
+        :param circ_shots: A list of tuple of circuits and shots.
+
+        :return: The same list, but with circuits copied.
+        """
+        return (
+            [
+                CircuitShots(Circuit=circ.copy(), Shots=shots)
+                for circ, shots in circs_shots
+            ],
+        )
+
+    return MitTask(
+        _label="CopyCircuits",
+        _n_in_wires=1,
+        _n_out_wires=1,
+        _method=task,
+    )
+
+
 def frame_randomisation_result_task_gen(samples: int) -> MitTask:
     """
     Returns a MitTask object that sequentially collates samples number of BackendResult objects into single
@@ -175,6 +202,7 @@ def gen_Frame_Randomisation_MitRes(backend: Backend, samples: int, **kwargs) ->
     )
     _mitres.prepend(backend_compile_circuit_shots_task_gen(backend))
     _mitres.prepend(frame_randomisation_circuits_task_gen(samples, _fr_type))
+    _mitres.prepend(copy_circuits_task_gen())
     _mitres.append(
         frame_randomisation_result_task_gen(samples),
     )
-- 
2.43.0


From 896bc0ebd06a1ebceccda72c3e16ac78718ddc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:42 +0000
Subject: [PATCH 29/49] fix: correct strings whose characterisation state is a
 -1 eigenstate

---
 qermit/clifford_noise_characterisation/dfsc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/dfsc.py b/qermit/clifford_noise_characterisation/dfsc.py
index 9a945ef..b6852dc 100644
--- a/qermit/clifford_noise_characterisation/dfsc.py
+++ b/qermit/clifford_noise_characterisation/dfsc.py
@@ -292,8 +292,10 @@ def DFSC_correction_task_gen(zero_threshold: float) -> MitTask:
             new_qpo = dict()
             for key in experiment_qpo._dict:
                 val = characterisation_qpo._dict[key]
-                if val > zero_threshold:
-                    new_qpo[key] = experiment_qpo._dict[key] / val
+                # The state prepared may be a -1 eigenstate, in which case
+                # the characterisation value is negative.
+                if abs(val) > zero_threshold:
+                    new_qpo[key] = experiment_qpo._dict[key] / abs(val)
                 else:
                     new_qpo[key] = experiment_qpo._dict[key]
             corrected_results.append(QubitPauliOperator(new_qpo))
-- 
2.43.0


From c34b29f5b2e7612f1787f9243fe18ce9b1aa5b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:21 +0000
Subject: [PATCH 30/49] fix: use the simulator MitEx given when generating a
 CDR MitEx

---
 qermit/clifford_noise_characterisation/ccl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index a3df2f5..c0b914e 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -518,7 +518,7 @@ def gen_CDR_MitEx(
     """
     _states_sim_mitex = copy(
         kwargs.get(
-            "states_simluator_mitex",
+            "states_simulator_mitex",
             MitEx(
                 simulator_backend,
                 _label="StatesSimMitEx",
-- 
2.43.0


From 701f04987daa31e4e756a5dc1e1d77d9532acf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 31/49] fix: keep qubit names and implicit permutations in
 state circuits, and do not change the user's circuit

---
 qermit/clifford_noise_characterisation/ccl.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index c0b914e..fc9f237 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -132,10 +132,12 @@ def gen_state_circuits(
         random.seed(kwargs.get("seed"))
         np.random.seed(kwargs.get("seed"))
 
-    # Work in CX, H, Rz basis for ease
+    # Work in CX, H, Rz basis for ease. Implicit permutations are written as
+    # gates since only commands are included in the state circuits.
+    c = c.copy()
     DecomposeBoxes().apply(c)
+    c.replace_implicit_wire_swaps()
     ufr_rebase.apply(c)
-    c.flatten_registers()
     all_coms = c.get_commands()
 
     #  angles that make Clifford gates for S^n
@@ -162,7 +164,11 @@ def gen_state_circuits(
         # make special case where its not possible to swap pairs
         # produce state circuits until limit reached
         while len(state_circuits) < total_state_circuits:
-            new_circuit = Circuit(c.n_qubits, len(c.bits))
+            new_circuit = Circuit()
+            for qubit in c.qubits:
+                new_circuit.add_qubit(qubit)
+            for bit in c.bits:
+                new_circuit.add_bit(bit)
             for i in range(len(all_coms)):
                 com = all_coms[i]
                 if com.op.type == OpType.Rz:
@@ -214,7 +220,11 @@ def gen_state_circuits(
         non_clifford_pair_elements = random.sample(list(non_cliffords), n_pairs)
 
         # create new Circuit from scratch
-        new_circuit = Circuit(c.n_qubits, len(c.bits))
+        new_circuit = Circuit()
+        for qubit in c.qubits:
+            new_circuit.add_qubit(qubit)
+        for bit in c.bits:
+            new_circuit.add_bit(bit)
         for i in range(len(all_coms)):
             com = all_coms[i]
             if com.op.type == OpType.Rz:
-- 
2.43.0


From 56d3d670946b7fb54f455a079066c60b36e8094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 32/49] fix: keep Clifford gates of circuits with one
 non-Clifford gate in their state circuits

---
 qermit/clifford_noise_characterisation/ccl.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index fc9f237..3119c1e 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -178,7 +178,12 @@ def gen_state_circuits(
                         raise Exception(
                             "Circuit cannot include parameters which are not floats."
                         )
-                    angle = sample_weighted_clifford_angle(original_angle)
+                    # Rz gates which are already Clifford are added as given
+                    angle = (
+                        sample_weighted_clifford_angle(original_angle)
+                        if i in rz_ops
+                        else original_angle
+                    )
                     new_circuit.add_gate(
                         com.op.type, [angle], cast(List[UnitID], com.qubits)
                     )
-- 
2.43.0


From a6e8d5192e55dc42ccebe86c9f802bd6399f5c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:13 +0000
Subject: [PATCH 33/49] fix: check the expectations of state circuits with
 qubits which do not belong to the default register

---
 qermit/clifford_noise_characterisation/ccl.py | 32 +++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index 3119c1e..baf6992 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -20,9 +20,10 @@ from enum import Enum
 from typing import List, Tuple, cast
 
 import numpy as np
-from pytket import Circuit, OpType
+from pytket import Circuit, OpType, Qubit
 from pytket.backends import Backend
 from pytket.passes import AutoRebase, DecomposeBoxes
+from pytket.pauli import QubitPauliString
 from pytket.unit_id import UnitID
 from pytket.utils import QubitPauliOperator, get_operator_expectation_value
 
@@ -290,6 +291,33 @@ def gen_state_circuits(
     return state_circuits
 
 
+def get_flat_operator_expectation_value(
+    c: Circuit, qubit_pauli_operator: QubitPauliOperator, backend: Backend
+) -> complex:
+    """
+    Expectation value of an operator, calculated with qubits relabelled to belong
+    to the default register, as is required of circuits by
+    get_operator_expectation_value.
+
+    :param c: Circuit preparing the state.
+    :param qubit_pauli_operator: Operator to calculate the expectation value of.
+    :param backend: Backend to run circuit on.
+
+    :return: Expectation value
+    """
+    flat_c = c.copy()
+    qubit_map = flat_c.flatten_registers()
+    flat_operator = QubitPauliOperator(
+        {
+            QubitPauliString(
+                {cast(Qubit, qubit_map[q]): p for q, p in qps.map.items()}
+            ): coeff
+            for qps, coeff in qubit_pauli_operator._dict.items()
+        }
+    )
+    return get_operator_expectation_value(flat_c, flat_operator, backend)
+
+
 def ccl_state_task_gen(
     n_non_cliffords: int,
     n_pairs: int,
@@ -357,7 +385,7 @@ def ccl_state_task_gen(
                 )
 
                 pauli_expectation_list = [
-                    get_operator_expectation_value(
+                    get_flat_operator_expectation_value(
                         c, qubit_pauli_operator, simulator_backend
                     )
                     for c in state_circuits
-- 
2.43.0


From f8ad01b440a19a6acb60b12bf855abb39fd29cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:33 +0000
Subject: [PATCH 34/49] fix: keep measurements in state circuits

---
 qermit/clifford_noise_characterisation/ccl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index baf6992..20dd991 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -190,7 +190,7 @@ def gen_state_circuits(
                     )
                     new_circuit.add_barrier(cast(List[UnitID], com.qubits))
                 # Measure gate has special case, but can assume 1 qubit to 1 bit
-                elif com.op.type is OpType.Measure:
+                elif com.op.type == OpType.Measure:
                     new_circuit.Measure(com.qubits[0], com.bits[0])
                 # A special case for Barrier metaop
                 elif com.op.type == OpType.Barrier:
@@ -276,7 +276,7 @@ def gen_state_circuits(
                     )
                     new_circuit.add_barrier(cast(List[UnitID], com.qubits))
             # Measure gate has special case, but can assume 1 qubit to 1 bit
-            elif com.op.type is OpType.Measure:
+            elif com.op.type == OpType.Measure:
                 new_circuit.Measure(com.qubits[0], com.bits[0])
             # A special case for Barrier metaop
             elif com.op.type == OpType.Barrier:
-- 
2.43.0


From b76ffc766df0ff091dc3fae70718ebe3b4ffce28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:56 +0000
Subject: [PATCH 35/49] fix: match calibration matrices and qubits when SPAM
 correcting with subsets of different sizes

---
 qermit/spam/full_transition_tomography.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qermit/spam/full_transition_tomography.py b/qermit/spam/full_transition_tomography.py
index 0f14950..c82c060 100644
--- a/qermit/spam/full_transition_tomography.py
+++ b/qermit/spam/full_transition_tomography.py
@@ -506,7 +506,8 @@ def correct_transition_noise(
     # if qubit in subset has no bit, skip it
     char_bits_order = []
     unused_final_qbs = []
-    for subset in noise_characterisation.CorrelatedNodes:
+    # matrices are ordered from largest to smallest subset
+    for subset in sorted(noise_characterisation.CorrelatedNodes, key=len, reverse=True):
         for q in subset:
             if q in final_measures_qb_map:
                 char_bits_order.append(final_measures_qb_map[q])
-- 
2.43.0


From 47181a544dae2eb54ee6bc6a12e0ededdc842567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:56 +0000
Subject: [PATCH 36/49] fix: normalise the calibration matrices of single
 qubits measured mid-circuit

---
 qermit/spam/full_transition_tomography.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qermit/spam/full_transition_tomography.py b/qermit/spam/full_transition_tomography.py
index c82c060..d4ef385 100644
--- a/qermit/spam/full_transition_tomography.py
+++ b/qermit/spam/full_transition_tomography.py
@@ -482,7 +482,8 @@ def get_single_matrix(
     mat = matrices[entry_to_keep[0]]
     all_indices = list(range(int(log2(mat.shape[0]))))
     all_indices.remove(entry_to_keep[1])
-    return reduce_matrix(all_indices, mat)
+    single_mat = reduce_matrix(all_indices, mat)
+    return single_mat / np.sum(single_mat, axis=0)
 
 
 def correct_transition_noise(
-- 
2.43.0


From 2ed2b939ff72ed1452603658ee6ce62823aaf263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:02 +0000
Subject: [PATCH 37/49] fix: keep the number of shots when SPAM correcting

---
 qermit/spam/full_transition_tomography.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/qermit/spam/full_transition_tomography.py b/qermit/spam/full_transition_tomography.py
index d4ef385..0f5ee16 100644
--- a/qermit/spam/full_transition_tomography.py
+++ b/qermit/spam/full_transition_tomography.py
@@ -17,7 +17,7 @@ import itertools
 from collections import OrderedDict, namedtuple
 from enum import Enum
 from functools import lru_cache
-from math import ceil, log2
+from math import log2
 from typing import Counter, Dict, Iterable, List, Optional, Tuple, cast
 
 import numpy as np
@@ -547,14 +547,21 @@ def correct_transition_noise(
     # enum type not callable, ignore
     outvec = corr_method(reduced_matrices, in_vec_norm)  # type: ignore
     outvec *= Ncounts
+    # round down, and then add to the counts rounded by most until there are as
+    # many as there were measured
+    rounded_counts = np.array([int(val) for val in outvec])
+    n_missing = max(0, int(Ncounts) - int(np.sum(rounded_counts)))
+    rounded_counts[
+        np.argsort(rounded_counts - outvec, kind="stable")[:n_missing]
+    ] += 1
     # counter object with binary from distribution
     corrected_counts = {
         int_to_binary(index, len(char_bits_order)): Bcount
-        for index, Bcount in enumerate(outvec)
+        for index, Bcount in enumerate(rounded_counts)
     }
     counter = Counter(
         {
-            OutcomeArray.from_readouts([key]): ceil(val)
+            OutcomeArray.from_readouts([key]): int(val)
             for key, val in corrected_counts.items()
         }
     )
-- 
2.43.0


From 3569cad848818907ec5abede20ee432f4d61b711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:04 +0000
Subject: [PATCH 38/49] fix: copy the MitRes a MitEx is given rather than share
 it

---
 qermit/taskgraph/mitex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/taskgraph/mitex.py b/qermit/taskgraph/mitex.py
index abb2e20..c864e91 100644
--- a/qermit/taskgraph/mitex.py
+++ b/qermit/taskgraph/mitex.py
@@ -310,7 +310,7 @@ class MitEx(TaskGraph):
         )
 
         # if mitres isn't defined, build around a mitres which compiles circuits
-        _mitres = kwargs.get("mitres", gen_compiled_MitRes(backend))
+        _mitres = copy(kwargs.get("mitres", gen_compiled_MitRes(backend)))
         self._task_graph.add_edge(
             collate_circuit_shots_task, _mitres, key=(0, 0), data=None
         )
-- 
2.43.0


From 251462585401cf6132352e11fc7a832c9ff9992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:59 +0000
Subject: [PATCH 39/49] fix: sample Clifford circuits uniformly

---
 .../cliff_circuit_gen.py                      | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
index 8b4e4ed..58652c5 100644
--- a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
+++ b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
@@ -72,11 +72,10 @@ def clifford_canonical_F(
 
     :param pauli_layer: Description of which Pauli gate should act on each qubits. This is an element of {0,1,2,3}^n
     with 0 -> I, 1->X, 2->Y, 3->Z.
-    :param gamma: Describes on which qubits CX acts. In particular the circuit contains CX_{i,j} if
-    gamma[i][j]=1. The gates are ordered such the control qubit index increases with time.
-    :param delta: Describes on which qubits CZ acts. In particular the circuit contains CX_{i,j} if
-    delta[i][j]=1. The gates are ordered such the control qubit index increases with time. The circuit include S_i
-    if delta[i][i]=1.
+    :param gamma: Describes on which qubits CZ acts. In particular the circuit contains CZ_{i,j} if
+    gamma[i][j]=1. The circuit include S_i if gamma[i][i]=1.
+    :param delta: Lower triangular matrix describing on which qubits CX acts. In particular the circuit
+    contains CX_{i,j}, for i<j, if delta[j][i]=1.
     :return: A Hadamard free Clifford circuit.
     """
 
@@ -85,7 +84,7 @@ def clifford_canonical_F(
     # Add layer of CX gates
     for j in range(len(delta)):
         for i in range(j):
-            if delta[i][j]:
+            if delta[j][i]:
                 circ.CX(i, j, opgroup="Clifford 2")
 
     # Add layer of CZ gates
@@ -101,11 +100,11 @@ def clifford_canonical_F(
 
     # Add Pauli gate
     for i, gate in enumerate(pauli_layer):
-        if gate == 0:
+        if gate == 1:
             circ.X(i, opgroup="Clifford 1")
-        elif gate == 1:
-            circ.Y(i, opgroup="Clifford 1")
         elif gate == 2:
+            circ.Y(i, opgroup="Clifford 1")
+        elif gate == 3:
             circ.Z(i, opgroup="Clifford 1")
 
     return circ
@@ -213,11 +212,12 @@ def random_clifford_circ(n_qubits: int, **kwargs) -> Circuit:
 
     # Append Clifford gate. Here the Pauli gates are assigned at random.
     cliff_circ = clifford_canonical_F(
-        [np.random.randint(2) for _ in range(n_qubits)], Gamma2, Delta2
+        [np.random.randint(4) for _ in range(n_qubits)], Gamma2, Delta2
     )
     circ = circ.add_circuit(cliff_circ, [i for i in range(n_qubits)], [])
 
-    # Implement swap layer based on S
+    # Implement swap layer based on S, which takes the qubit permute[i] to i
+    permute = [permute.index(i) for i in range(n_qubits)]
     for i in range(len(permute)):
         while not (permute[i] == i):
             temp = permute[i]
-- 
2.43.0


From 857f0271e9527a191e6ce8b1b6a52817cbe9368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:57 +0000
Subject: [PATCH 40/49] fix: do not reseed when generating random Clifford
 circuits without a seed

---
 qermit/probabilistic_error_cancellation/cliff_circuit_gen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
index 58652c5..aa8e505 100644
--- a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
+++ b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
@@ -201,7 +201,8 @@ def random_clifford_circ(n_qubits: int, **kwargs) -> Circuit:
     :return: A random Clifford circuit acting on n_qubits qubits
     """
 
-    np.random.seed(kwargs.get("seed", None))
+    if "seed" in kwargs:
+        np.random.seed(kwargs["seed"])
 
     circ = Circuit(n_qubits)
 
-- 
2.43.0


From 302b9b603fcb661d4f23e9c34cfd841ce3e59727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:57 +0000
Subject: [PATCH 41/49] fix: keep the qubit names of circuits in their PEC
 training circuits

---
 .../pec_learning_based.py                                 | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qermit/probabilistic_error_cancellation/pec_learning_based.py b/qermit/probabilistic_error_cancellation/pec_learning_based.py
index 845ed87..56a477d 100644
--- a/qermit/probabilistic_error_cancellation/pec_learning_based.py
+++ b/qermit/probabilistic_error_cancellation/pec_learning_based.py
@@ -136,16 +136,18 @@ def random_commuting_clifford(
 
         new_qps = QubitPauliString(cast(List[Qubit], new_qps_qbs), qps_paulis)
 
-        place_with_map(rand_cliff_circ, n_q_map)
+        # The qubits of the circuit returned should not be renamed
+        placed_circ = rand_cliff_circ.copy()
+        place_with_map(placed_circ, n_q_map)
 
         # Check if state is supported, otherwise use shots, otherwise raise error
         if simulator_backend.supports_state:
             expect_val = get_pauli_expectation_value(
-                rand_cliff_circ, new_qps, simulator_backend
+                placed_circ, new_qps, simulator_backend
             )
         elif simulator_backend.supports_shots or simulator_backend.supports_counts:
             expect_val = get_pauli_expectation_value(
-                rand_cliff_circ, new_qps, simulator_backend, n_shots=n_shots
+                placed_circ, new_qps, simulator_backend, n_shots=n_shots
             )
         else:
             raise RuntimeError(
-- 
2.43.0


From 32cc8493847e6bba9a14870ac5cd51a96863cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:57 +0000
Subject: [PATCH 42/49] fix: refuse to label gates whose type is part of the
 name of another

---
 qermit/probabilistic_error_cancellation/pec_learning_based.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qermit/probabilistic_error_cancellation/pec_learning_based.py b/qermit/probabilistic_error_cancellation/pec_learning_based.py
index 56a477d..8190366 100644
--- a/qermit/probabilistic_error_cancellation/pec_learning_based.py
+++ b/qermit/probabilistic_error_cancellation/pec_learning_based.py
@@ -664,10 +664,10 @@ def label_gates(circ: Circuit) -> Circuit:
     frame_count = 0
     for command in command_list:
         labelled_command = command.copy()
-        if labelled_command["op"]["type"] in ("TK1"):
+        if labelled_command["op"]["type"] == "TK1":
             labelled_command["opgroup"] = "Computing %i" % comp_count
             comp_count += 1
-        elif labelled_command["op"]["type"] in ("CX"):
+        elif labelled_command["op"]["type"] == "CX":
             labelled_command["opgroup"] = "Frame %i" % frame_count
             frame_count += 1
         else:
-- 
2.43.0


From 3d3d7d0db9d2ac8ff727c7309780674cbe1d6638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:22 +0000
Subject: [PATCH 43/49] fix: interpolate between the end of the grid and the
 end of the period

---
 qermit/spectral_filtering/spectral_filtering.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qermit/spectral_filtering/spectral_filtering.py b/qermit/spectral_filtering/spectral_filtering.py
index 2eaefe0..cca39d6 100644
--- a/qermit/spectral_filtering/spectral_filtering.py
+++ b/qermit/spectral_filtering/spectral_filtering.py
@@ -76,8 +76,12 @@ def gen_result_extraction_task() -> MitTask:
                 )
 
             for qps in interpolated_qpo._dict.keys():
+                # The grid covers one period of each symbol, but does not include
+                # its end. The values there are those at the start of the grid.
                 interpolated_qpo._dict[qps] = interpolate.interpn(
-                    points, result[qps], interpolation_point
+                    [np.append(values, values[0] + 2) for values in points],
+                    np.pad(result[qps], (0, 1), mode="wrap"),
+                    interpolation_point,
                 )[0]
             interpolated_result_list.append(interpolated_qpo)
 
-- 
2.43.0


From 31f1d7731604761b478f68eb7cd9d8c39b7895ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 44/49] fix: do not place circuits again when adding Pauli
 errors for PEC

---
 .../probabilistic_error_cancellation/pec_learning_based.py  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qermit/probabilistic_error_cancellation/pec_learning_based.py b/qermit/probabilistic_error_cancellation/pec_learning_based.py
index 8190366..96485d3 100644
--- a/qermit/probabilistic_error_cancellation/pec_learning_based.py
+++ b/qermit/probabilistic_error_cancellation/pec_learning_based.py
@@ -917,9 +917,9 @@ def gen_get_noisy_circuits(backend: Backend, **kwargs) -> MitTask:
                     [str_to_pauli_op(error["op"][0]), str_to_pauli_op(error["op"][1])],
                 )
 
-                pauli_circ = backend.get_compiled_circuit(
-                    pauli_circ, optimisation_level=0
-                )
+                # The circuits have already been placed and routed, so that only the
+                # gates need to be rebased.
+                backend.rebase_pass().apply(pauli_circ)
 
                 new_ansatz_circuit = AnsatzCircuit(
                     Circuit=pauli_circ,
-- 
2.43.0


From a615b1dd22ac5919ea3b895a3a535c93d9c064d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 45/49] fix: do not merge Clifford subcircuits which are
 connected by way of others

---
 .../monochromatic_convex_subdag.py            | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/qermit/coherent_pauli_checks/monochromatic_convex_subdag.py b/qermit/coherent_pauli_checks/monochromatic_convex_subdag.py
index f93803f..318cf73 100644
--- a/qermit/coherent_pauli_checks/monochromatic_convex_subdag.py
+++ b/qermit/coherent_pauli_checks/monochromatic_convex_subdag.py
@@ -88,7 +88,7 @@ def get_monochromatic_convex_subdag(
     ) -> bool:
         """Determine if two sub-DAGs can be merged. This will be the case if
         there are no paths between predecessors of one sub-DAG to successors of
-        the other.
+        the other, be they of nodes or by way of other sub-DAGs.
 
         :param dag: Directed Acyclic Graph.
         :param subdag_one: First sub-DAG.
@@ -121,7 +121,24 @@ def get_monochromatic_convex_subdag(
             ):
                 return False
 
-        return True
+        # Sub-DAGs should also not be connected by way of other sub-DAGs, whose
+        # nodes need not be connected to each other.
+        merged_subdag = {
+            node: subdag_one if subdag == subdag_two else subdag
+            for node, subdag in node_subdag.items()
+        }
+        contracted_dag = nx.DiGraph()
+        for edge in dag.edges:
+            start, end = (
+                ("subdag", merged_subdag[node])
+                if node in merged_subdag
+                else ("node", node)
+                for node in edge
+            )
+            if start != end:
+                contracted_dag.add_edge(start, end)
+
+        return nx.is_directed_acyclic_graph(contracted_dag)
 
     node_subdag = {node: i for i, node in enumerate(coloured_nodes)}
 
-- 
2.43.0


From bf6407ae2e09f69dfcf8aa1b078cb406ad10da68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 46/49] fix: label random Clifford gates which are the identity

---
 .../cliff_circuit_gen.py                                 | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
index aa8e505..08368b9 100644
--- a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
+++ b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
@@ -16,7 +16,7 @@
 from typing import List, Tuple
 
 import numpy as np
-from pytket import Circuit
+from pytket import Circuit, OpType
 
 
 def sample_q_mallows(n_qubits: int) -> Tuple[List[int], List[int]]:
@@ -235,4 +235,11 @@ def random_clifford_circ(n_qubits: int, **kwargs) -> Circuit:
     cliff_circ = clifford_canonical_F([0 for _ in range(n_qubits)], Gamma1, Delta1)
     circ = circ.add_circuit(cliff_circ, [i for i in range(n_qubits)], [])
 
+    # Qubits on which no gate acts are given an identity gate, so that every
+    # qubit has a gate which is labelled as Clifford.
+    acted_on = {qubit for command in circ.get_commands() for qubit in command.qubits}
+    for qubit in circ.qubits:
+        if qubit not in acted_on:
+            circ.add_gate(OpType.noop, [qubit], opgroup="Clifford 1")
+
     return circ
-- 
2.43.0


From 22a9a5b7386d225571cd714968acb5dd0960de69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 47/49] fix: fit CDR models when every noisy expectation is
 zero

---
 qermit/clifford_noise_characterisation/cdr_post.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qermit/clifford_noise_characterisation/cdr_post.py b/qermit/clifford_noise_characterisation/cdr_post.py
index a02585d..ef07836 100644
--- a/qermit/clifford_noise_characterisation/cdr_post.py
+++ b/qermit/clifford_noise_characterisation/cdr_post.py
@@ -54,6 +54,12 @@ class _PolyCDRCorrect(_BaseExCorrectModel):
         self.params = params
 
     def calibrate(self, noisy_exp: List[float], exact_exp: List[float]) -> None:
+        # np.polyfit fails if every noisy expectation is zero, when only
+        # the constant term can be fitted.
+        if len(noisy_exp) > 0 and not np.any(noisy_exp):
+            self.params = [0.0] * self.degree + [float(np.mean(exact_exp))]
+            return
+
         self.params = cast(
             List[float],
             cast(
-- 
2.43.0


From a19077a59b4ce8f37875f60c3bf5b6ae1d1f0a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 48/49] fix: characterise circuits with parametrised two-qubit
 gates

---
 qermit/clifford_noise_characterisation/dfsc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qermit/clifford_noise_characterisation/dfsc.py b/qermit/clifford_noise_characterisation/dfsc.py
index b6852dc..9ae3b70 100644
--- a/qermit/clifford_noise_characterisation/dfsc.py
+++ b/qermit/clifford_noise_characterisation/dfsc.py
@@ -74,8 +74,12 @@ def preparation_circuit_for_partition(
     # +1 eigenstate to circuit
     # use RemoveRedundancies after to minimise gates required in cosntruction
     Transform.RebaseToCliffordSingles().apply(clifford_circuit)
+    # parametrised multi-qubit gates must be decomposed to be known to be Clifford
+    decomposed_circuit = clifford_circuit.copy()
+    Transform.RebaseToTket().apply(decomposed_circuit)
+    Transform.RebaseToCliffordSingles().apply(decomposed_circuit)
     for string in partition:
-        transformed_string = apply_clifford_basis_change(string, clifford_circuit)
+        transformed_string = apply_clifford_basis_change(string, decomposed_circuit)
         transformed_dict = transformed_string.map
         for qubit in transformed_dict:
             if transformed_dict[qubit] == Pauli.X:
-- 
2.43.0


From 47d8ba18d01d147edb2bc33435794dfe603e9aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:07 +0000
Subject: [PATCH 49/49] fix: characterise circuits with barriers

---
 qermit/clifford_noise_characterisation/dfsc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qermit/clifford_noise_characterisation/dfsc.py b/qermit/clifford_noise_characterisation/dfsc.py
index 9ae3b70..70bffb0 100644
--- a/qermit/clifford_noise_characterisation/dfsc.py
+++ b/qermit/clifford_noise_characterisation/dfsc.py
@@ -19,6 +19,7 @@ from typing import Dict, List, Tuple, Union, cast
 from numpy import mean
 from pytket import Circuit
 from pytket.backends import Backend
+from pytket.passes import RemoveBarriers
 from pytket.pauli import Pauli, QubitPauliString
 from pytket.tailoring import apply_clifford_basis_change
 from pytket.transform import Transform
@@ -76,6 +77,7 @@ def preparation_circuit_for_partition(
     Transform.RebaseToCliffordSingles().apply(clifford_circuit)
     # parametrised multi-qubit gates must be decomposed to be known to be Clifford
     decomposed_circuit = clifford_circuit.copy()
+    RemoveBarriers().apply(decomposed_circuit)
     Transform.RebaseToTket().apply(decomposed_circuit)
     Transform.RebaseToCliffordSingles().apply(decomposed_circuit)
     for string in partition:
-- 
2.43.0

