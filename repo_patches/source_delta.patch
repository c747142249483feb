From 6f3acf1c38e2bb75780f9333be250f0f85b4da06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 01/56] fix: report the number of layers, not the largest
 successor label, as causal flow depth

---
 mentpy/mbqc/flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index a54dd99..90bab29 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -144,7 +144,7 @@ def find_cflow(graph: GraphState, input_nodes, output_nodes) -> object:
     if len(flow) != len(graph.nodes()) - len(output_nodes):
         return None, None, None, None
 
-    return lambda x: flow[x], lambda u, v: ln[u] > ln[v], max(flow.values()), ln
+    return lambda x: flow[x], lambda u, v: ln[u] > ln[v], max(ln.values()), ln
 
 
 def causal_flow_aux(graph: GraphState, inputs, outputs, C, past, k, g, l) -> object:
-- 
2.43.0


From 8e88cf17bb9ecdb0a98e7afa3d50d222bdbb278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 02/56] fix: accept measurement orders that respect the partial
 order, not their reverses

---
 mentpy/mbqc/mbqcircuit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 389e841..fa52844 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -296,7 +296,9 @@ class MBQCircuit:
     @measurement_order.setter
     def measurement_order(self, measurement_order: List[int]) -> None:
         r"""Set the measurement order of the MBQC circuit."""
-        if not _check_measurement_order(measurement_order, self.partial_order):
+        if sorted(measurement_order) != sorted(
+            self.graph.nodes
+        ) or not _check_measurement_order(measurement_order, self.partial_order):
             raise ValueError(f"Invalid measurement order {measurement_order}.")
         self._measurement_order = measurement_order
 
@@ -451,7 +453,7 @@ def _check_measurement_order(measurement_order: List, partial_order: Callable):
     r"""Checks that the measurement order is valid"""
     for i in range(len(measurement_order)):
         for j in range(i + 1, len(measurement_order)):
-            if partial_order(measurement_order[i], measurement_order[j]):
+            if partial_order(measurement_order[j], measurement_order[i]):
                 return False
     return True
 
-- 
2.43.0


From 9991c7653752d487d25ffefb5853c31234e91aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 03/56] fix: update the derived node lists when a measurement
 is deleted

---
 mentpy/mbqc/mbqcircuit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index fa52844..0bd3407 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -206,6 +206,7 @@ class MBQCircuit:
             raise ValueError(f"Node {key} is not in the graph.")
 
         self._measurements[key] = None
+        self._update_attributes()
 
     @property
     def measurements(self) -> Dict[int, Ment]:
-- 
2.43.0


From 23505da910f0950e88f412cb66d11e8414b9e991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 04/56] fix: do not recurse forever when a circuit is copied or
 unpickled

---
 mentpy/mbqc/mbqcircuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 0bd3407..f8dd234 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -167,6 +167,10 @@ class MBQCircuit:
 
     # if an attribute is not found, look for it in the graph
     def __getattr__(self, name):
+        # private attributes may not be set yet (e.g. while copying or unpickling)
+        if name.startswith("_") or name == "gflow":
+            raise AttributeError(f"Attribute {name} not found in MBQCircuit.")
+
         # try getting the attribute in graph, if not there, look in gflow
         try:
             return getattr(self.graph, name)
-- 
2.43.0


From c04d654f3568eeb1c500f1c2f5336d5ba24270cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:32 +0000
Subject: [PATCH 05/56] fix: never move inputs ahead of nodes that precede them
 in the measurement order

calculate_order and Flow put every input first, even when the partial order
requires a non-input before it. The numpy simulators rely on inputs being
loaded first, so they now separate the loading schedule from the measurement
order and track which simulated qubit is being measured.
---
 mentpy/mbqc/flow.py                  |  8 ++---
 mentpy/mbqc/mbqcircuit.py            |  9 +-----
 mentpy/simulators/np_simulator_dm.py | 48 +++++++++++++---------------
 mentpy/simulators/np_simulator_sv.py | 48 +++++++++++++---------------
 4 files changed, 48 insertions(+), 65 deletions(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index 90bab29..e247a9f 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -75,11 +75,9 @@ class Flow:
             self.layers = ord_layers[::-1]
 
             # This can be optimized!!
-            order = [item for sublist in self.layers for item in sublist]
-            for i in self.input_nodes[::-1]:
-                order.remove(i)
-                order.insert(0, i)
-            self.measurement_order = order
+            self.measurement_order = [
+                item for sublist in self.layers for item in sublist
+            ]
         else:
             self.layers = None
             self.measurement_order = None
diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index f8dd234..371f897 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -405,7 +405,6 @@ class MBQCircuit:
                     mat[indi, indj] = 1
 
         sum_mat = np.sum(mat, axis=1)
-        order = np.argsort(sum_mat)[::-1]
 
         sum_dict = {}
         for i, s in enumerate(sum_mat):
@@ -420,13 +419,7 @@ class MBQCircuit:
         ]
         self._sorted_labels = sorted_labels
 
-        order = [item for sublist in sorted_labels for item in sublist]
-
-        for i in self.input_nodes[::-1]:
-            order.remove(i)
-            order.insert(0, i)
-
-        return order
+        return [item for sublist in sorted_labels for item in sublist]
 
     def add_edge(self, u, v):
         r"""Adds an edge between nodes u and v"""
diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index b01aae1..f3cff3d 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -56,7 +56,12 @@ class NumpySimulatorDM(BaseSimulator):
                 for i in mbqcircuit.measurement_order
                 if i not in mbqcircuit.quantum_output_nodes
             ]
-            self.schedule = mbqcircuit.measurement_order
+            # the input qubits have to be loaded first, whenever they are measured
+            self.schedule = list(mbqcircuit.input_nodes) + [
+                i
+                for i in mbqcircuit.measurement_order
+                if i not in mbqcircuit.input_nodes
+            ]
             if self.window_size == 1 and mbqcircuit.flow is not None:
                 self.window_size = len(mbqcircuit.input_nodes) + 1
         else:
@@ -97,8 +102,7 @@ class NumpySimulatorDM(BaseSimulator):
 
         self.initial_czs = np.eye(2**self.window_size)
 
-        if self.dev_mode:
-            self._current_simulated_nodes = self.schedule[0 : self.window_size]
+        self._current_simulated_nodes = self.schedule[0 : self.window_size]
 
         # apply cz gates to neighboring qubits
         for node in self.subgraph.nodes:
@@ -116,12 +120,7 @@ class NumpySimulatorDM(BaseSimulator):
 
     def current_simulated_nodes(self) -> List[int]:
         """Returns the nodes that are currently simulated."""
-        if not self.dev_mode:
-            return self.schedule[
-                self.current_measurement : self.current_measurement + self.window_size
-            ]
-        elif self.dev_mode:
-            return self._current_simulated_nodes
+        return self._current_simulated_nodes
 
     def current_number_simulated_nodes(self) -> int:
         """Returns the number of nodes that are currently simulated."""
@@ -153,10 +152,9 @@ class NumpySimulatorDM(BaseSimulator):
             raise ValueError("No more measurements to be done.")
 
         if not self.dev_mode:
-            current_ment = self.mbqcircuit[
-                self.schedule_measure[self.current_measurement]
-            ].copy()
-            indx = 0
+            node = self.schedule_measure[self.current_measurement]
+            current_ment = self.mbqcircuit[node].copy()
+            indx = self.current_simulated_nodes().index(node)
         elif self.dev_mode:
             # if in dev mode, we measure the first node in the current_simulated_nodes
             # only if a neighbor in the same wire is also in the current_simulated_nodes
@@ -184,17 +182,16 @@ class NumpySimulatorDM(BaseSimulator):
 
         self.qstate = calc.partial_trace(self.qstate, [indx])
 
-        if self.dev_mode:
-            # remove qubit at indx from current_simulated_nodes
-            self._current_simulated_nodes = [
-                i for i in self._current_simulated_nodes if i != node
-            ]
-            if self.current_measurement + self.window_size <= len(
-                self.mbqcircuit.graph.nodes
-            ):
-                self._current_simulated_nodes.append(
-                    self.schedule[self.current_measurement + self.window_size - 1]
-                )
+        # remove qubit at indx from current_simulated_nodes
+        self._current_simulated_nodes = [
+            i for i in self._current_simulated_nodes if i != node
+        ]
+        if self.current_measurement + self.window_size <= len(
+            self.mbqcircuit.graph.nodes
+        ):
+            self._current_simulated_nodes.append(
+                self.schedule[self.current_measurement + self.window_size - 1]
+            )
 
         if self.current_measurement + self.window_size <= len(
             self.mbqcircuit.graph.nodes
@@ -301,8 +298,7 @@ class NumpySimulatorDM(BaseSimulator):
         self.qstate = self.initial_czs @ self.qstate @ np.conj(self.initial_czs).T
         self.outcomes = {}
 
-        if self.dev_mode:
-            self._current_simulated_nodes = self.schedule[0 : self.window_size]
+        self._current_simulated_nodes = self.schedule[0 : self.window_size]
 
     def measure_ment(self, ment: Ment, angle, i, force0=False, mode="sample"):
         """
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index e7491f8..196a273 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -70,7 +70,12 @@ class NumpySimulatorSV(BaseSimulator):
                 for i in mbqcircuit.measurement_order
                 if i not in mbqcircuit.output_nodes
             ]
-            self.schedule = mbqcircuit.measurement_order
+            # the input qubits have to be loaded first, whenever they are measured
+            self.schedule = list(mbqcircuit.input_nodes) + [
+                i
+                for i in mbqcircuit.measurement_order
+                if i not in mbqcircuit.input_nodes
+            ]
             if self.window_size == 1 and mbqcircuit.flow is not None:
                 self.window_size = len(mbqcircuit.input_nodes) + 1
         else:
@@ -111,8 +116,7 @@ class NumpySimulatorSV(BaseSimulator):
 
         self.initial_czs = np.eye(2**self.window_size)
 
-        if self.dev_mode:
-            self._current_simulated_nodes = self.schedule[0 : self.window_size]
+        self._current_simulated_nodes = self.schedule[0 : self.window_size]
 
         # apply cz gates to neighboring qubits
         for node in self.subgraph.nodes:
@@ -129,12 +133,7 @@ class NumpySimulatorSV(BaseSimulator):
 
     def current_simulated_nodes(self) -> List[int]:
         """Returns the nodes that are currently simulated."""
-        if not self.dev_mode:
-            return self.schedule[
-                self.current_measurement : self.current_measurement + self.window_size
-            ]
-        elif self.dev_mode:
-            return self._current_simulated_nodes
+        return self._current_simulated_nodes
 
     def current_number_simulated_nodes(self) -> int:
         """Returns the number of nodes that are currently simulated."""
@@ -166,10 +165,9 @@ class NumpySimulatorSV(BaseSimulator):
             raise ValueError("No more measurements to be done.")
 
         if not self.dev_mode:
-            current_ment = self.mbqcircuit[
-                self.schedule_measure[self.current_measurement]
-            ].copy()
-            indx = 0
+            node = self.schedule_measure[self.current_measurement]
+            current_ment = self.mbqcircuit[node].copy()
+            indx = self.current_simulated_nodes().index(node)
         elif self.dev_mode:
             # if in dev mode, we measure the first node in the current_simulated_nodes
             # only if a neighbor in the same wire is also in the current_simulated_nodes
@@ -192,17 +190,16 @@ class NumpySimulatorSV(BaseSimulator):
         self.current_measurement += 1
         self.qstate = calc.partial_trace(self.qstate, [indx])
 
-        if self.dev_mode:
-            # remove qubit at indx from current_simulated_nodes
-            self._current_simulated_nodes = [
-                i for i in self._current_simulated_nodes if i != node
-            ]
-            if self.current_measurement + self.window_size <= len(
-                self.mbqcircuit.graph.nodes
-            ):
-                self._current_simulated_nodes.append(
-                    self.schedule[self.current_measurement + self.window_size - 1]
-                )
+        # remove qubit at indx from current_simulated_nodes
+        self._current_simulated_nodes = [
+            i for i in self._current_simulated_nodes if i != node
+        ]
+        if self.current_measurement + self.window_size <= len(
+            self.mbqcircuit.graph.nodes
+        ):
+            self._current_simulated_nodes.append(
+                self.schedule[self.current_measurement + self.window_size - 1]
+            )
 
         if self.current_measurement + self.window_size <= len(
             self.mbqcircuit.graph.nodes
@@ -316,8 +313,7 @@ class NumpySimulatorSV(BaseSimulator):
 
         self.outcomes = {}
 
-        if self.dev_mode:
-            self._current_simulated_nodes = self.schedule[0 : self.window_size]
+        self._current_simulated_nodes = self.schedule[0 : self.window_size]
 
     def measure_ment(self, ment: Ment, angle, i, force0=False):
         """
-- 
2.43.0


From d5cf46040561a89d2e91004281e3a547f7335a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 06/56] fix: never drop an entangling gate because the
 simulation window is too small

The default window of the numpy simulators could be smaller than needed, which
silently produced wrong states; it is now large enough for the schedule, a user
window that is too small is an error, and windows are compared with the number
of nodes so that circuits with few measurements can be simulated.
---
 mentpy/simulators/np_simulator_dm.py | 23 ++++++++++++++++++++---
 mentpy/simulators/np_simulator_sv.py | 23 ++++++++++++++++++++---
 2 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index f3cff3d..7a0c0d0 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -63,7 +63,7 @@ class NumpySimulatorDM(BaseSimulator):
                 if i not in mbqcircuit.input_nodes
             ]
             if self.window_size == 1 and mbqcircuit.flow is not None:
-                self.window_size = len(mbqcircuit.input_nodes) + 1
+                self.window_size = self.default_window_size()
         else:
             raise ValueError(
                 "Schedule must be provided for numpy simulator as the MBQCircuit does not have a flow."
@@ -84,9 +84,9 @@ class NumpySimulatorDM(BaseSimulator):
                 " Input state must have at most as many qubits as the window size minus one."
             )
 
-        if self.window_size > len(self.schedule_measure):
+        if self.window_size > len(self.schedule):
             raise ValueError(
-                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule_measure)} measurements."
+                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule)} nodes."
             )
 
         self.current_measurement = 0
@@ -118,6 +118,16 @@ class NumpySimulatorDM(BaseSimulator):
         self.qstate = self.initial_czs @ self.qstate @ np.conj(self.initial_czs).T
         self.outcomes = {}
 
+    def default_window_size(self) -> int:
+        """Returns a window in which every measured node meets all its neighbors."""
+        size = len(self.mbqcircuit.input_nodes) + 1
+        if not self.dev_mode:
+            position = {node: i for i, node in enumerate(self.schedule)}
+            for k, node in enumerate(self.schedule_measure):
+                for other in [node, *self.mbqcircuit.graph.neighbors(node)]:
+                    size = max(size, position[other] + 1 - k)
+        return min(size, len(self.schedule))
+
     def current_simulated_nodes(self) -> List[int]:
         """Returns the nodes that are currently simulated."""
         return self._current_simulated_nodes
@@ -170,6 +180,13 @@ class NumpySimulatorDM(BaseSimulator):
                     indx = self.current_simulated_nodes().index(node)
                     break
 
+        # nodes that have not been loaded yet can no longer be entangled with this one
+        pending = self.schedule[self.current_measurement + self.window_size :]
+        if any(n in pending for n in self.mbqcircuit.graph.neighbors(node)):
+            raise ValueError(
+                f"Node {node} cannot be measured before its neighbors are simulated, please increase the window size."
+            )
+
         self.qstate, outcome = self.measure_ment(
             current_ment, angle, indx, force0=self.force0, mode=mode
         )
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index 196a273..8b27fd9 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -77,7 +77,7 @@ class NumpySimulatorSV(BaseSimulator):
                 if i not in mbqcircuit.input_nodes
             ]
             if self.window_size == 1 and mbqcircuit.flow is not None:
-                self.window_size = len(mbqcircuit.input_nodes) + 1
+                self.window_size = self.default_window_size()
         else:
             raise ValueError(
                 "Schedule must be provided for numpy simulator as the MBQCircuit does not have a flow."
@@ -98,9 +98,9 @@ class NumpySimulatorSV(BaseSimulator):
                 " Input state must have at most as many qubits as the window size minus one."
             )
 
-        if self.window_size > len(self.schedule_measure):
+        if self.window_size > len(self.schedule):
             raise ValueError(
-                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule_measure)} measurements."
+                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule)} nodes."
             )
 
         self.current_measurement = 0
@@ -131,6 +131,16 @@ class NumpySimulatorSV(BaseSimulator):
 
         self.qstate = self.initial_czs @ self.qstate
 
+    def default_window_size(self) -> int:
+        """Returns a window in which every measured node meets all its neighbors."""
+        size = len(self.mbqcircuit.input_nodes) + 1
+        if not self.dev_mode:
+            position = {node: i for i, node in enumerate(self.schedule)}
+            for k, node in enumerate(self.schedule_measure):
+                for other in [node, *self.mbqcircuit.graph.neighbors(node)]:
+                    size = max(size, position[other] + 1 - k)
+        return min(size, len(self.schedule))
+
     def current_simulated_nodes(self) -> List[int]:
         """Returns the nodes that are currently simulated."""
         return self._current_simulated_nodes
@@ -183,6 +193,13 @@ class NumpySimulatorSV(BaseSimulator):
                     indx = self.current_simulated_nodes().index(node)
                     break
 
+        # nodes that have not been loaded yet can no longer be entangled with this one
+        pending = self.schedule[self.current_measurement + self.window_size :]
+        if any(n in pending for n in self.mbqcircuit.graph.neighbors(node)):
+            raise ValueError(
+                f"Node {node} cannot be measured before its neighbors are simulated, please increase the window size."
+            )
+
         self.qstate, outcome = self.measure_ment(
             current_ment, angle, indx, force0=self.force0
         )
-- 
2.43.0


From 812ed196dabefe53ba50ff2956e439f8a6fc720b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 07/56] fix: partial trace of a pure product state when its
 columns cancel

---
 mentpy/calculator/state_ops.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mentpy/calculator/state_ops.py b/mentpy/calculator/state_ops.py
index a978593..b006da9 100644
--- a/mentpy/calculator/state_ops.py
+++ b/mentpy/calculator/state_ops.py
@@ -66,12 +66,11 @@ def partial_trace_pure_state(psi, indices):
     num_qubits = int(np.log2(psi.shape[0]))
     remaining_qubits = sorted(set(range(num_qubits)) - set(indices))
     tensor = psi.reshape([2] * num_qubits).transpose(remaining_qubits + indices)
-    traced_tensor = tensor.reshape([-1] + [2] * len(indices)).sum(
-        axis=tuple(range(1, 1 + len(indices)))
-    )
-    traced_tensor = traced_tensor.reshape(-1)
-    traced_tensor /= np.linalg.norm(traced_tensor)
-    return traced_tensor
+    # every column is proportional to the remaining state: take the largest, as
+    # their sum can vanish
+    columns = tensor.reshape([2 ** len(remaining_qubits), -1])
+    traced_tensor = columns[:, np.argmax(np.linalg.norm(columns, axis=0))]
+    return traced_tensor / np.linalg.norm(traced_tensor)
 
 
 def partial_trace_mixed_state(rho, indices):
-- 
2.43.0


From 721aa533ad3315b04398c9183ae66995ab3ebd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 08/56] fix: measure output nodes that have a measurement in
 the statevector simulator

---
 mentpy/simulators/np_simulator_sv.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index 8b27fd9..ac94d6c 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -61,14 +61,14 @@ class NumpySimulatorSV(BaseSimulator):
         # TODO: FIND SCHEDULE IF NOT PROVIDED
         if self.schedule is not None:
             self.schedule_measure = [
-                i for i in self.schedule if i not in mbqcircuit.output_nodes
+                i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
             ]
         elif mbqcircuit.measurement_order is not None:
             # remove output nodes from the measurement order
             self.schedule_measure = [
                 i
                 for i in mbqcircuit.measurement_order
-                if i not in mbqcircuit.output_nodes
+                if i not in mbqcircuit.quantum_output_nodes
             ]
             # the input qubits have to be loaded first, whenever they are measured
             self.schedule = list(mbqcircuit.input_nodes) + [
@@ -289,18 +289,10 @@ class NumpySimulatorSV(BaseSimulator):
                 self.qstate, outcome = self.measure(angle)
                 self.outcomes[node] = outcome
 
-        # check if output nodes have a measurement, if so, measure them
-        for i in self.mbqcircuit.output_nodes:
-            if isinstance(self.mbqcircuit[i], Ment):
-                self.qstate, outcome = self.measure_ment(
-                    self.mbqcircuit[i], self.mbqcircuit[i].angle, i, force0=self.force0
-                )
-                self.outcomes[i] = outcome
-
         current_output_order = self.current_simulated_nodes()
         if self.mbqcircuit.quantum_output_nodes != current_output_order:
             self.qstate = self.reorder_qubits(
-                self.qstate, current_output_order, self.mbqcircuit.output_nodes
+                self.qstate, current_output_order, self.mbqcircuit.quantum_output_nodes
             )
 
         if output_form.lower() == "dm" or output_form.lower() == "densitymatrix":
@@ -353,13 +345,14 @@ class NumpySimulatorSV(BaseSimulator):
             p0, i, self.current_number_simulated_nodes()
         )
 
-        prob0 = np.dot(np.conj(self.qstate), p0_extended @ self.qstate)
-        prob1 = np.dot(np.conj(self.qstate), p1_extended @ self.qstate)
+        prob0 = np.real(np.dot(np.conj(self.qstate), p0_extended @ self.qstate))
+        prob1 = np.real(np.dot(np.conj(self.qstate), p1_extended @ self.qstate))
 
         if not force0:
             outcome = np.random.choice([0, 1], p=[prob0, prob1] / (prob0 + prob1))
         else:
-            outcome = 0
+            # outcome 0 cannot be forced when it is impossible
+            outcome = 1 if prob0 < 1e-4 else 0
 
         if outcome == 0:
             self.qstate = p0_extended @ self.qstate
-- 
2.43.0


From 6855bbc4594f118af956e7eee9540244001641aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 09/56] fix: keep quantum and classical outputs in the order of
 the output nodes

They followed the order of the measurements dictionary, so the qubits of the
simulated output state were permuted for circuits built with measurements.
---
 mentpy/mbqc/mbqcircuit.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 371f897..e0b103d 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -150,11 +150,6 @@ class MBQCircuit:
         if measurement_order is None and flow is not None:
             measurement_order = self.calculate_order()
 
-        # in case we measure an output node
-        quantum_output_nodes = [
-            node for node, i in self.measurements.items() if i is None
-        ]
-        self._quantum_output_nodes = quantum_output_nodes
         self._measurement_order = measurement_order
 
     def __repr__(self) -> str:
@@ -346,12 +341,15 @@ class MBQCircuit:
                 planes[nodei] = menti.plane
                 self._measurements[nodei] = copy.deepcopy(menti)
                 self._measurements[nodei].node_id = nodei
-                if nodei in self._output_nodes:
-                    classical_outputs.append(nodei)
             else:
                 planes[nodei] = ""
-                if nodei in self._output_nodes:
-                    quantum_outputs.append(nodei)
+
+        # in case we measure an output node (keep the order of the outputs)
+        for nodei in self._output_nodes:
+            if self._measurements.get(nodei) is None:
+                quantum_outputs.append(nodei)
+            else:
+                classical_outputs.append(nodei)
 
         self._trainable_nodes = trainable_nodes
         self._controlled_nodes = controlled_nodes
-- 
2.43.0


From 815d43a3cca5ced577adfc9c7102a0265a9b0887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 10/56] fix: building a circuit from a given flow

The relabelled flow and partial order called themselves forever, gflow was
never set, and an invalid flow was accepted.
---
 mentpy/mbqc/mbqcircuit.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index e0b103d..a305f5f 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -76,11 +76,11 @@ class MBQCircuit:
             input_nodes = [mapping[i] for i in input_nodes]
             output_nodes = [mapping[i] for i in output_nodes]
             if flow is not None:
-                flow = lambda x: mapping[flow(inv_mapping[x])]
+                given_flow = flow
+                flow = lambda x: mapping[given_flow(inv_mapping[x])]
             if partial_order is not None:
-                partial_order = lambda x, y: partial_order(
-                    inv_mapping[x], inv_mapping[y]
-                )
+                given_order = partial_order
+                partial_order = lambda x, y: given_order(inv_mapping[x], inv_mapping[y])
             if measurement_order is not None:
                 measurement_order = [mapping[i] for i in measurement_order]
             if measurements is not None:
@@ -139,10 +139,10 @@ class MBQCircuit:
             flow, partial_order, depth, layers = find_cflow(
                 graph, input_nodes, output_nodes
             )
-            self.gflow = Flow(graph, input_nodes, output_nodes)
+        elif not check_if_flow(graph, input_nodes, output_nodes, flow, partial_order):
+            raise ValueError("The given flow is not a flow of the graph.")
 
-        elif (flow is not None) and (partial_order is not None):
-            check_if_flow(graph, input_nodes, output_nodes, flow, partial_order)
+        self.gflow = Flow(graph, input_nodes, output_nodes)
 
         self._flow = flow
         self._partial_order = partial_order
-- 
2.43.0


From cebbd255f88f687fb3eed6961768c2395b9450ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 11/56] fix: assigning the measurements of a circuit

The setter rejected nodes without measurement (so even the circuit's own
measurements), left out nodes without entry and, like the constructor, kept
and modified the caller's dictionary.
---
 mentpy/mbqc/mbqcircuit.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index a305f5f..c743023 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -125,11 +125,7 @@ class MBQCircuit:
                 )
 
             # set X Ment in outputc nodes that are not in measurements
-            for node in self.graph.nodes:
-                if node not in measurements:
-                    measurements[node] = (
-                        self._default_measurement if node in self.outputc else None
-                    )
+            measurements = self._fill_measurements(measurements)
 
         self._measurements = measurements
         self._flow, self._partial_order = None, None
@@ -217,11 +213,11 @@ class MBQCircuit:
         r"""Set the measurements of the MBQC circuit."""
         if not all([v in self.graph.nodes for v in measurements.keys()]):
             raise ValueError(f"Nodes {measurements.keys()} are not in the graph.")
-        if not all([isinstance(v, Ment) for v in measurements.values()]):
+        if not all([isinstance(v, Ment) or v is None for v in measurements.values()]):
             raise ValueError(
                 f"Values {measurements.values()} are not Measurement objects."
             )
-        self._measurements = measurements
+        self._measurements = self._fill_measurements(measurements)
         self._update_attributes()
 
     @property
@@ -324,6 +320,16 @@ class MBQCircuit:
             ]
         return self.gflow.layers
 
+    def _fill_measurements(self, measurements: Dict[int, Ment]) -> Dict[int, Ment]:
+        r"""Copy of the measurements with the default in the nodes that have none."""
+        measurements = dict(measurements)
+        for node in self.graph.nodes:
+            if node not in measurements:
+                measurements[node] = (
+                    self._default_measurement if node in self.outputc else None
+                )
+        return measurements
+
     def _update_attributes(self) -> None:
         trainable_nodes = []
         controlled_nodes = []
-- 
2.43.0


From 78ddd449368158df4648a179f8f7af0009221109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 12/56] fix: trainable layers of a circuit with fixed
 measurements

---
 mentpy/mbqc/mbqcircuit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index c743023..b854bb4 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -315,7 +315,11 @@ class MBQCircuit:
         if train_indices:
             # return the nested layers in Flow.layers but with the trainable_nodes indices
             return [
-                [self.trainable_nodes.index(node) for node in layer]
+                [
+                    self.trainable_nodes.index(node)
+                    for node in layer
+                    if node in self.trainable_nodes
+                ]
                 for layer in self.gflow.layers[:-1]
             ]
         return self.gflow.layers
-- 
2.43.0


From e8a487dc9937536bc2c12fb20e3ea8d0fc7dc28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 13/56] fix: adding edges to a circuit keeps its measurements

add_edge reset every measurement to the default, add_edges_from always failed,
and a failed edit could leave the circuit half changed.
---
 mentpy/mbqc/mbqcircuit.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index b854bb4..829c7ee 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -87,6 +87,7 @@ class MBQCircuit:
                 measurements = {mapping[k]: v for k, v in measurements.items()}
 
         self._graph = graph
+        self._relabel_indices = relabel_indices
 
         # check input and output nodes are in graph. If not, raise error with the node(s) that are not in the graph
         if not all([v in self.graph.nodes for v in input_nodes]):
@@ -431,29 +432,32 @@ class MBQCircuit:
 
     def add_edge(self, u, v):
         r"""Adds an edge between nodes u and v"""
-        self.graph.add_edge(u, v)
-        # try resetting self with new graph, if it fails, remove the edge
         try:
-            self.__init__(self.graph, self.input_nodes, self.output_nodes)
+            self._add_edges([(u, v)])
         except Exception as e:
-            self.graph.remove_edge(u, v)
             raise ValueError(f"Cannot add edge between {u} and {v}.\n" + str(e))
 
     def add_edges_from(self, edges, **kwargs):
         r"""Adds edges from a list of tuples"""
-        new_graph = self.graph.copy()
-        new_graph.add_edges_from(edges, **kwargs)
         try:
-            self.__init__(
-                new_graph,
-                self.input_nodes,
-                self.output_nodes,
-                self.flow,
-                self.partial_order,
-            )
+            self._add_edges(edges, **kwargs)
         except Exception as e:
             raise ValueError(f"Cannot add edges {edges}.\n" + str(e))
 
+    def _add_edges(self, edges, **kwargs):
+        new_graph = self.graph.copy()
+        new_graph.add_edges_from(edges, **kwargs)
+        # the circuit only changes if it can be rebuilt with the new edges
+        new = MBQCircuit(
+            new_graph,
+            self.input_nodes,
+            self.output_nodes,
+            measurements=self.measurements,
+            default_measurement=self._default_measurement,
+            relabel_indices=self._relabel_indices,
+        )
+        self.__dict__ = new.__dict__
+
 
 def _check_measurement_order(measurement_order: List, partial_order: Callable):
     r"""Checks that the measurement order is valid"""
-- 
2.43.0


From 207cbff0bfe72e610a7b6326725f0102b765544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:33 +0000
Subject: [PATCH 14/56] fix: measurement order of circuits with controlled
 measurements

The order ignored controls given to the constructor or the measurements
setter, was not transitive over chained controls, kept the constraints of
replaced controls (and then failed), crashed for constant conditions, and
accepted conditions on nodes that are measured later.
---
 mentpy/mbqc/mbqcircuit.py | 87 +++++++++++++++++++--------------------
 1 file changed, 42 insertions(+), 45 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 829c7ee..e16d6df 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -129,7 +129,8 @@ class MBQCircuit:
             measurements = self._fill_measurements(measurements)
 
         self._measurements = measurements
-        self._flow, self._partial_order = None, None
+        self._flow, self._partial_order, self._flow_order = None, None, None
+        self._measurement_order = None
         self._update_attributes()
 
         if (flow is None) or (partial_order is None):
@@ -142,7 +143,8 @@ class MBQCircuit:
         self.gflow = Flow(graph, input_nodes, output_nodes)
 
         self._flow = flow
-        self._partial_order = partial_order
+        self._flow_order = partial_order
+        self._partial_order = self._controlled_order(self._measurements)
 
         if measurement_order is None and flow is not None:
             measurement_order = self.calculate_order()
@@ -179,15 +181,13 @@ class MBQCircuit:
         if not isinstance(value, Ment):
             raise ValueError(f"Value {value} is not a Measurement object.")
 
+        # the controls must be compatible with the order, otherwise nothing changes
+        self._controlled_order({**self._measurements, key: value})
         self._measurements[key] = value
 
         # self._update_attributes_key(key)
         self._update_attributes()
 
-        if isinstance(value, ControlMent):
-            # recalculate measurement order
-            self._measurement_order = self.calculate_order()
-
     def __getitem__(self, key):
         r"""Return the value of the measurement of the node with index key."""
         try:
@@ -218,7 +218,9 @@ class MBQCircuit:
             raise ValueError(
                 f"Values {measurements.values()} are not Measurement objects."
             )
-        self._measurements = self._fill_measurements(measurements)
+        measurements = self._fill_measurements(measurements)
+        self._controlled_order(measurements)
+        self._measurements = measurements
         self._update_attributes()
 
     @property
@@ -349,7 +351,9 @@ class MBQCircuit:
                 if menti.is_trainable():
                     trainable_nodes.append(nodei)
 
-                planes[nodei] = menti.plane
+                planes[nodei] = (
+                    menti.plane() if isinstance(menti, ControlMent) else menti.plane
+                )
                 self._measurements[nodei] = copy.deepcopy(menti)
                 self._measurements[nodei].node_id = nodei
             else:
@@ -368,25 +372,25 @@ class MBQCircuit:
         self._quantum_output_nodes = quantum_outputs
         self._classical_output_nodes = classical_outputs
 
-        # update measurement order
-
-        # make artificial graph for new flow with controls
-        # if len(self.controlled_nodes) > 0:
-        #     artificial_graph = self.graph
-        #     for nodei in self.controlled_nodes:
-        #         new_edges = [(nodei, v) for v in self.measurements[nodei].condition.cond_nodes]
-        #         artificial_graph.add_edges_from(new_edges)
-
-        #     flow, partial_order, depth = find_cflow(artificial_graph, self.input_nodes, self.output_nodes)
-        #     self._flow = flow
-        #     self._partial_order = partial_order
-        #     self._depth = depth
-
-        if self._partial_order is not None:
-            old_partial_order = self._partial_order
-            self._partial_order = _create_new_partial_order(
-                self.controlled_nodes, self.measurements, old_partial_order
-            )
+        # update partial order, and the measurement order if it is no longer valid
+        if self._flow_order is not None:
+            self._partial_order = self._controlled_order(self._measurements)
+            if self._measurement_order is not None and not _check_measurement_order(
+                self._measurement_order, self._partial_order
+            ):
+                self._measurement_order = self.calculate_order()
+
+    def _controlled_order(self, measurements) -> Optional[Callable]:
+        r"""The order of the flow with controls after the nodes they depend on"""
+        conditions = [
+            (cond_node, node)
+            for node, ment in measurements.items()
+            if isinstance(ment, ControlMent)
+            for cond_node in getattr(ment.condition, "cond_nodes", [])
+        ]
+        if self._flow_order is None or len(conditions) == 0:
+            return self._flow_order
+        return _create_new_partial_order(self.graph, conditions, self._flow_order)
 
     def _update_attributes_key(self, key) -> None:
         menti = self._measurements[key]
@@ -623,22 +627,15 @@ def _hstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
     return MBQCircuit(graph, input_nodes, output_nodes, measurements=measurements)
 
 
-def _create_new_partial_order(controlled_nodes, measurements, old_partial_order):
-    def new_partial_order(i, j):
-        for c in controlled_nodes:
-            cns = measurements[c].condition.cond_nodes
-
-            ibeforecns = any([old_partial_order(i, cn) for cn in cns]) or i in cns
-            jafterc = old_partial_order(c, j) or j == c
-            # print(f"Comparing {i} and {j}")
-            # print(any([old_partial_order(i, cn) for cn in cns]), i in cns)
-            # print(old_partial_order(c, j), j == c)
-            if ibeforecns and jafterc and i != j:
-                return True
-
-            if j in cns and i == c:
-                return False
-
-        return old_partial_order(i, j)
+def _create_new_partial_order(graph, conditions, old_partial_order):
+    order = nx.DiGraph()
+    order.add_nodes_from(graph.nodes)
+    order.add_edges_from(
+        (i, j) for i in graph.nodes for j in graph.nodes if old_partial_order(i, j)
+    )
+    order.add_edges_from(conditions)
+    if not nx.is_directed_acyclic_graph(order):
+        raise ValueError("A measurement is controlled by a node that is measured later.")
+    order = nx.transitive_closure_dag(order)
 
-    return new_partial_order
+    return lambda i, j: order.has_edge(i, j)
-- 
2.43.0


From fbe53d08e95a135dce093c4c23e8fc2fe8b7410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:33 +0000
Subject: [PATCH 15/56] fix: reject an invalid measurement order in the circuit
 constructor

---
 mentpy/mbqc/mbqcircuit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index e16d6df..010cad7 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -149,7 +149,10 @@ class MBQCircuit:
         if measurement_order is None and flow is not None:
             measurement_order = self.calculate_order()
 
-        self._measurement_order = measurement_order
+        if flow is not None:
+            self.measurement_order = measurement_order
+        else:
+            self._measurement_order = measurement_order
 
     def __repr__(self) -> str:
         """Return the representation of the current MBQC circuit state"""
-- 
2.43.0


From f2bb6da66fcf15c7a34d729315eb0c8ff00829b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 16/56] fix: stacking and merging circuits with arbitrary node
 orders and controls

Nodes were looked up by label in graphs that are renumbered by position, the
conditions of controlled measurements kept their old labels, merging along
nothing failed, and so did fusing an output that is also an input.
---
 mentpy/mbqc/mbqcircuit.py | 125 +++++++++++++++++++++-----------------
 1 file changed, 68 insertions(+), 57 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 010cad7..fb89b82 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -13,6 +13,7 @@ import networkx as nx
 import matplotlib.pyplot as plt
 
 from mentpy.operators import Ment, ControlMent, PauliOp
+from mentpy.operators.ment import MentOutcome
 from mentpy.mbqc.states.graphstate import GraphState
 from mentpy.mbqc.flow import find_cflow, find_flow, check_if_flow, Flow
 
@@ -84,7 +85,10 @@ class MBQCircuit:
             if measurement_order is not None:
                 measurement_order = [mapping[i] for i in measurement_order]
             if measurements is not None:
-                measurements = {mapping[k]: v for k, v in measurements.items()}
+                measurements = {
+                    mapping[k]: _relabel_condition(v, mapping)
+                    for k, v in measurements.items()
+                }
 
         self._graph = graph
         self._relabel_indices = relabel_indices
@@ -483,40 +487,29 @@ def merge(state1: MBQCircuit, state2: MBQCircuit, along=[]) -> MBQCircuit:
         if i not in state1.output_nodes or j not in state2.input_nodes:
             raise ValueError(f"Cannot merge states at indices {i} and {j}")
 
-    graph = nx.disjoint_union(state1.graph, state2.graph)
-    along1, along2 = zip(*along)
+    map1, map2 = _disjoint_labels(state1, state2)
+    partner = {j: i for i, j in along}
+    fused = {i: j for i, j in along}
+
+    input_nodes = [map1[i] for i in state1.input_nodes]
+    input_nodes += [map2[j] for j in state2.input_nodes if j not in partner]
 
-    input_nodes = state1.input_nodes + [
-        i + len(state1.graph) for i in state2.input_nodes if i not in along2
-    ]
     output_nodes = []
     added_ind = []
-    for j in state1.output_nodes:
-        if j in along1:
-            output_ind = along1.index(j)
-            inputnode = along2[output_ind]
-            input_index = state2.input_nodes.index(inputnode)
+    for i in state1.output_nodes:
+        if i in fused:
+            input_index = state2.input_nodes.index(fused[i])
             added_ind.append(input_index)
-            output_nodes.append(state2.output_nodes[input_index] + len(state1.graph))
+            output_nodes.append(map2[state2.output_nodes[input_index]])
         else:
-            output_nodes.append(j)
+            output_nodes.append(map1[i])
     output_nodes += [
-        i + len(state1.graph)
-        for indx, i in enumerate(state2.output_nodes)
+        map2[j]
+        for indx, j in enumerate(state2.output_nodes)
         if indx not in added_ind
     ]
 
-    measurements = dict(state1.measurements)
-    measurements.update(
-        {i + len(state1.graph): ment for i, ment in state2.measurements.items()}
-    )
-
-    for i, j in along:
-        graph.add_edge(i, j + len(state1.graph))
-        graph = nx.contracted_edge(graph, (j + len(state1.graph), i), self_loops=False)
-        del measurements[i]
-
-    return MBQCircuit(graph, input_nodes, output_nodes, measurements=measurements)
+    return _fuse(state1, state2, map1, map2, along, input_nodes, output_nodes)
 
 
 def vstack(states):
@@ -560,21 +553,13 @@ def _vstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
     -----
     states
     """
-    graph = nx.disjoint_union(state1.graph, state2.graph)
-    input_nodes = state1.input_nodes + [
-        i + len(state1.graph) for i in state2.input_nodes
-    ]
-    output_nodes = state1.output_nodes + [
-        i + len(state1.graph) for i in state2.output_nodes
-    ]
+    map1, map2 = _disjoint_labels(state1, state2)
+    input_nodes = [map1[i] for i in state1.input_nodes]
+    input_nodes += [map2[j] for j in state2.input_nodes]
+    output_nodes = [map1[i] for i in state1.output_nodes]
+    output_nodes += [map2[j] for j in state2.output_nodes]
 
-    measurements = dict(state1.measurements)
-    measurements.update(
-        {i + len(state1.graph): plane for i, plane in state2.measurements.items()}
-    )
-
-    # TODO: Compute flow and partial order
-    return MBQCircuit(graph, input_nodes, output_nodes, measurements=measurements)
+    return _fuse(state1, state2, map1, map2, [], input_nodes, output_nodes)
 
 
 def _hstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
@@ -601,35 +586,61 @@ def _hstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
             "of the second state."
         )
 
-    # create new graph
-    graph = nx.disjoint_union(state1.graph, state2.graph)
+    map1, map2 = _disjoint_labels(state1, state2)
+    input_nodes = [map1[i] for i in state1.input_nodes]
+    output_nodes = [map2[j] for j in state2.output_nodes]
+    along = list(zip(state1.output_nodes, state2.input_nodes))
 
-    nodes1 = list(state1.graph.nodes())
-    nodes2 = list(state2.graph.nodes())
+    return _fuse(state1, state2, map1, map2, along, input_nodes, output_nodes)
 
-    for i in range(len(state1.output_nodes)):
-        graph.add_edge(
-            nodes1.index(state1.output_nodes[i]),
-            nodes2.index(state2.input_nodes[i]) + len(nodes1),
-        )
 
-    input_nodes = [nodes1.index(i) for i in state1.input_nodes]
-    output_nodes = [nodes2.index(j) + len(nodes1) for j in state2.output_nodes]
+def _disjoint_labels(state1: MBQCircuit, state2: MBQCircuit):
+    """Labels that the nodes of each state get in the disjoint union of their graphs"""
+    map1 = {v: i for i, v in enumerate(state1.graph.nodes)}
+    map2 = {v: i + len(map1) for i, v in enumerate(state2.graph.nodes)}
+    return map1, map2
 
-    measurements = {nodes1.index(i): ment for i, ment in state1.measurements.items()}
+
+def _fuse(state1, state2, map1, map2, along, input_nodes, output_nodes) -> MBQCircuit:
+    """Joins two states, identifying outputs of the first with inputs of the second"""
+    graph = nx.disjoint_union(state1.graph, state2.graph)
+    fused = {map1[i]: map2[j] for i, j in along}
+    map1 = {v: fused.get(i, i) for v, i in map1.items()}
+    input_nodes = [fused.get(i, i) for i in input_nodes]
+
+    measurements = {
+        map1[i]: _relabel_condition(ment, map1)
+        for i, ment in state1.measurements.items()
+        if map1[i] not in fused.values()
+    }
     measurements.update(
-        {nodes2.index(i) + len(nodes1): ment for i, ment in state2.measurements.items()}
+        {map2[j]: _relabel_condition(m, map2) for j, m in state2.measurements.items()}
     )
 
-    for i, j in zip(state1.output_nodes, state2.input_nodes):
-        graph.add_edge(i, j + len(state1.graph))
-        graph = nx.contracted_edge(graph, (j + len(state1.graph), i), self_loops=False)
-        del measurements[i]
+    for i, j in fused.items():
+        graph.add_edge(i, j)
+        graph = nx.contracted_edge(graph, (j, i), self_loops=False)
 
     # TODO: Compute flow and partial order
     return MBQCircuit(graph, input_nodes, output_nodes, measurements=measurements)
 
 
+def _relabel_condition(ment, mapping):
+    r"""The measurement with its condition (if any) in terms of the new labels"""
+    condition = ment.condition if isinstance(ment, ControlMent) else None
+    nodes = getattr(condition, "cond_nodes", [])
+    if all(mapping.get(node, node) == node for node in nodes):
+        return ment
+
+    labels = {node: mapping.get(node, node) for node in nodes}
+    ment = copy.deepcopy(ment)
+    ment.condition = MentOutcome(
+        lambda x: condition({old: x[new] for old, new in labels.items()}),
+        cond_nodes=set(labels.values()),
+    )
+    return ment
+
+
 def _create_new_partial_order(graph, conditions, old_partial_order):
     order = nx.DiGraph()
     order.add_nodes_from(graph.nodes)
-- 
2.43.0


From b80827f1df5567d647c668a1ad984207881f8fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 17/56] fix: a negated outcome still depends on its nodes

---
 mentpy/operators/ment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mentpy/operators/ment.py b/mentpy/operators/ment.py
index 722123b..bbfa483 100644
--- a/mentpy/operators/ment.py
+++ b/mentpy/operators/ment.py
@@ -117,7 +117,9 @@ class MentOutcome:
         return self._binary_operation(lambda x, y: x ^ y, other)
 
     def __invert__(self):
-        return MentOutcome(lambda x: not self._outcome(x))
+        return MentOutcome(
+            lambda x: not self._outcome(x), cond_nodes=self._cond_nodes
+        )
 
 
 class Ment:
-- 
2.43.0


From bd308634d134f4455e07d716d7d15952c378f517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 18/56] fix: error of a measurement with two fixed angles

---
 mentpy/operators/ment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/operators/ment.py b/mentpy/operators/ment.py
index bbfa483..5ea9e69 100644
--- a/mentpy/operators/ment.py
+++ b/mentpy/operators/ment.py
@@ -224,7 +224,7 @@ class Ment:
         elif self._angle is not None and angle is not None:
             if self._angle != angle:
                 raise ValueError(
-                    f"Measurement has a fixed angle of {round(self._angle, 4)}"
+                    f"Measurement has a fixed angle of {self._angle}"
                 )
         elif self._angle is not None:
             angle = self._angle
-- 
2.43.0


From d219f2b80f87b75ca516596fb72068b621f834f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:13 +0000
Subject: [PATCH 19/56] fix: controlled measurements with constant conditions
 or fixed branches

Copies lost boolean conditions, boolean conditions failed without outcomes and
were ignored by plane(), other conditions were silently dropped, POVMs of a
fixed branch failed when the other one is trainable, and the density matrix
simulator could not run controls without trainable angle.
---
 mentpy/operators/controlled_ment.py  | 18 +++++++-----------
 mentpy/simulators/np_simulator_dm.py | 15 ++++++++++-----
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/mentpy/operators/controlled_ment.py b/mentpy/operators/controlled_ment.py
index aa0b13e..de4e1b1 100644
--- a/mentpy/operators/controlled_ment.py
+++ b/mentpy/operators/controlled_ment.py
@@ -24,7 +24,9 @@ class ControlMent(Ment):
         true_ment = Ment(angle=true_angle, plane=true_plane)
         super().__init__(angle=false_angle, plane=false_plane)
         self._true_ment = true_ment
-        self._condition = condition
+        self._condition = None
+        if condition is not None:
+            self.condition = condition
 
     def __repr__(self) -> str:
         return (
@@ -34,7 +36,7 @@ class ControlMent(Ment):
     @property
     def condition(self) -> bool:
         if isinstance(self._condition, bool):
-            return lambda x: self._condition
+            return lambda *args, **kwargs: self._condition
         elif isinstance(self._condition, MentOutcome):
             return self._condition
 
@@ -65,8 +67,8 @@ class ControlMent(Ment):
 
     def plane(self, *args, **kwargs):
         if args == () and kwargs == {}:
-            if self._true_ment.plane is None or super().plane is None:
-                return None
+            if isinstance(self._condition, bool) and self._condition:
+                return self._true_ment.plane
             else:
                 return super().plane
         else:
@@ -80,7 +82,7 @@ class ControlMent(Ment):
 
     def copy(self):
         return ControlMent(
-            self.condition,
+            self._condition,
             self._true_ment.angle,
             self._true_ment.plane,
             self._angle,
@@ -103,11 +105,5 @@ class ControlMent(Ment):
             else:
                 return super().matrix()
 
-    def get_povm(self, angle: float | None = None, *args, **kwargs):
-        if self.condition(*args, **kwargs):
-            return self._true_ment.get_povm(angle, *args, **kwargs)
-        else:
-            return super().get_povm(angle, *args, **kwargs)
-
 
 ControlledMent = ControlMent
diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index 7a0c0d0..c96ecdd 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -245,6 +245,8 @@ class NumpySimulatorDM(BaseSimulator):
             for i in self.schedule_measure:
                 if i in self.mbqcircuit.trainable_nodes:
                     angle = angles[self.mbqcircuit.trainable_nodes.index(i)]
+                elif isinstance(self.mbqcircuit[i], ControlledMent):
+                    angle = None  # both branches are fixed
                 else:
                     angle = self.mbqcircuit[i].angle
 
@@ -269,9 +271,8 @@ class NumpySimulatorDM(BaseSimulator):
                     raise ValueError("WTF")
                 if node in self.mbqcircuit.trainable_nodes:
                     angle = angles[self.mbqcircuit.trainable_nodes.index(node)]
-                    if isinstance(self.mbqcircuit[node], ControlledMent):
-                        cond_angle = self.mbqcircuit[node].angle(self.outcomes) or angle
-                        angle = cond_angle
+                elif isinstance(self.mbqcircuit[node], ControlledMent):
+                    angle = None  # both branches are fixed
                 elif isinstance(self.mbqcircuit[node], Ment):
                     angle = self.mbqcircuit[node].angle
 
@@ -337,9 +338,13 @@ class NumpySimulatorDM(BaseSimulator):
         prob0 = np.real(np.trace(self.qstate @ p0_extended))
         prob1 = np.real(np.trace(self.qstate @ p1_extended))
 
-        COND = (mode == "expectation" or mode == "exp") and ment.plane == "Z"
+        plane = ment.plane
+        if isinstance(ment, ControlledMent):
+            plane = ment.plane(self.outcomes)
 
-        if not force0 or ment.plane == "Z":
+        COND = (mode == "expectation" or mode == "exp") and plane == "Z"
+
+        if not force0 or plane == "Z":
             if COND:
                 outcome = prob1 / (prob0 + prob1)
             else:
-- 
2.43.0


From 544ca0e56f7f0d6682d18bca718e9fc2a8a5c208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 20/56] fix: do not recurse forever when a simulator is copied
 or unpickled

---
 mentpy/simulators/pattern_simulator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mentpy/simulators/pattern_simulator.py b/mentpy/simulators/pattern_simulator.py
index a4e1796..03c26b4 100644
--- a/mentpy/simulators/pattern_simulator.py
+++ b/mentpy/simulators/pattern_simulator.py
@@ -70,6 +70,9 @@ class PatternSimulator:
         )
 
     def __getattr__(self, name):
+        # the simulator may not be set yet (e.g. while copying or unpickling)
+        if name == "simulator":
+            raise AttributeError(name)
         return getattr(self.simulator, name)
 
     def __call__(self, angles: List[float], **kwargs):
-- 
2.43.0


From 8489457bcff29605090b3358819acf5132072ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 21/56] fix: give every angle to its node in the PennyLane
 simulator

The angles were passed on as given when every node is trainable, even if the
trainable nodes are not in the order of the graph, and trainable nodes in
other planes were silently measured in the XY plane.
---
 mentpy/simulators/pennylane_simulator.py | 31 +++++++++++-------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/mentpy/simulators/pennylane_simulator.py b/mentpy/simulators/pennylane_simulator.py
index 298f0cf..5bf86d7 100644
--- a/mentpy/simulators/pennylane_simulator.py
+++ b/mentpy/simulators/pennylane_simulator.py
@@ -65,26 +65,23 @@ class PennylaneSimulator(BaseSimulator):
 
         extended_angles = []
 
-        if len(self.mbqcircuit.trainable_nodes) != len(self.mbqcircuit.outputc):
-            for i in self.mbqcircuit.outputc:
+        for i in self.mbqcircuit.outputc:
+            plane = self.mbqcircuit.planes[i]
+            if plane == "X":
+                angle = 0
+            elif plane == "Y":
+                angle = np.pi / 2
+            elif plane == "XY":
                 if i in self.mbqcircuit.trainable_nodes:
                     angle = angles[self.mbqcircuit.trainable_nodes.index(i)]
                 else:
-                    plane = self.mbqcircuit.planes[i]
-                    if plane == "X":
-                        angle = 0
-                    elif plane == "Y":
-                        angle = np.pi / 2
-                    elif plane == "XY":
-                        angle = self.mbqcircuit[i].angle
-                    else:
-                        raise ValueError(
-                            f"Plane {plane} is not supported for pennylane simulator."
-                        )
-
-                extended_angles.append(angle)
-        else:
-            extended_angles = angles
+                    angle = self.mbqcircuit[i].angle
+            else:
+                raise ValueError(
+                    f"Plane {plane} is not supported for pennylane simulator."
+                )
+
+            extended_angles.append(angle)
 
         return self.circuit(extended_angles, st=self.input_state, **kwargs)
 
-- 
2.43.0


From fa9af2fa8cd7009626e6bde91895e8fec159e0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 22/56] fix: normalise the parameter shift rule with the sine
 of the shift

---
 mentpy/gradients/_parameter_shift.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/gradients/_parameter_shift.py b/mentpy/gradients/_parameter_shift.py
index 30da5b4..105cdd5 100644
--- a/mentpy/gradients/_parameter_shift.py
+++ b/mentpy/gradients/_parameter_shift.py
@@ -21,7 +21,7 @@ def psr_gradient(cost, x, shift=1.5):
     for i in range(len(x)):
         grad[i] = (
             cost(x + shift * np.eye(len(x))[i]) - cost(x - shift * np.eye(len(x))[i])
-        ) / (2 * shift)
+        ) / (2 * np.sin(shift))
     return grad
 
 
@@ -44,5 +44,5 @@ def psr_hessian(cost, x, shift=1.5):
                 - cost(x + shift * np.eye(len(x))[i] - shift * np.eye(len(x))[j])
                 - cost(x - shift * np.eye(len(x))[i] + shift * np.eye(len(x))[j])
                 + cost(x - shift * np.eye(len(x))[i] - shift * np.eye(len(x))[j])
-            ) / (4 * shift**2)
+            ) / (4 * np.sin(shift) ** 2)
     return hess
-- 
2.43.0


From 3bcab938c514720fef5564e9cf24367810b076d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 23/56] fix: random coordinate descent must not modify the
 initial parameters

---
 mentpy/optimizers/rcd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mentpy/optimizers/rcd.py b/mentpy/optimizers/rcd.py
index c51b93b..e520cb0 100644
--- a/mentpy/optimizers/rcd.py
+++ b/mentpy/optimizers/rcd.py
@@ -40,6 +40,7 @@ class RCDOptimizer(BaseOptimizer):
 
     def step(self, f, x, i, **kwargs):
         """Take a step using the random coordinate descent optimizer."""
+        x = np.array(x, dtype=float)  # the caller's parameters are not modified
         coord_idx = random.randint(0, len(x) - 1)
         delta = np.zeros_like(x)
         delta[coord_idx] = 1e-5
@@ -72,7 +73,7 @@ class RCDOptimizer(BaseOptimizer):
         self, f, x0, num_iters=100, callback=None, verbose=False, **kwargs
     ):
         """Optimize a function f using the random coordinate descent optimizer."""
-        x = x0
+        x = np.array(x0, dtype=float)  # the caller's parameters are not modified
         coord_iters = np.zeros(len(x))
         norm = []
 
@@ -88,6 +89,7 @@ class RCDOptimizer(BaseOptimizer):
             if self.adaptive:
                 current_step_size /= np.sqrt(coord_iters[coord_idx])
 
+            x = x.copy()
             x[coord_idx] -= current_step_size * partial_gradient
 
             norm.append(np.linalg.norm(partial_gradient))
-- 
2.43.0


From 9964489466f885eda1b43e2824156b0dcd442fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 24/56] fix: swap_qubits applied X on both qubits instead of
 swapping them

---
 mentpy/operators/gates.py | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/mentpy/operators/gates.py b/mentpy/operators/gates.py
index af9d58b..974836f 100644
--- a/mentpy/operators/gates.py
+++ b/mentpy/operators/gates.py
@@ -39,24 +39,7 @@ def swap_qubits(state_vector, i, j):
 
     n_qubits = int(np.log2(len(state_vector)))
 
-    swap_matrix = np.zeros((2, 2), dtype=int)
-    swap_matrix[0, 1] = swap_matrix[1, 0] = 1
-
-    identity = np.identity(2)
-    swap_operator = None
-    for k in range(n_qubits):
-        if k == i or k == j:
-            current_operator = swap_matrix
-        else:
-            current_operator = identity
-
-        if swap_operator is None:
-            swap_operator = current_operator
-        else:
-            swap_operator = np.kron(swap_operator, current_operator)
-
-    swapped_state_vector = swap_operator @ state_vector
-    return swapped_state_vector
+    return swap_ij(i, j, n_qubits) @ state_vector if i != j else state_vector.copy()
 
 
 def arbitrary_qubit_gate(u, i, n):
-- 
2.43.0


From e595c6cb80f0ee35182c51b46827dd128afeec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 25/56] fix: reject letters that are not Pauli operators
 instead of reading them as identity

---
 mentpy/operators/pauliop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mentpy/operators/pauliop.py b/mentpy/operators/pauliop.py
index 3ba3ea3..d62d0f0 100644
--- a/mentpy/operators/pauliop.py
+++ b/mentpy/operators/pauliop.py
@@ -151,6 +151,8 @@ class PauliOp:
                 elif char == "Y":
                     mat[i, j] = 1
                     mat[i, j + n_qubits] = 1
+                elif char != "I":
+                    raise ValueError(f"Invalid Pauli operator {char}")
         return GF(mat)
 
     @property
-- 
2.43.0


From 263b3c48e502d368338f76ca73303d2933da51e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 26/56] fix: Pauli operators of different sizes are not equal

---
 mentpy/operators/pauliop.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mentpy/operators/pauliop.py b/mentpy/operators/pauliop.py
index d62d0f0..3202c97 100644
--- a/mentpy/operators/pauliop.py
+++ b/mentpy/operators/pauliop.py
@@ -117,7 +117,9 @@ class PauliOp:
         return hash(str(self.matrix))
 
     def __eq__(self, other: "PauliOp"):
-        return np.all(self.matrix == other.matrix)
+        return self.matrix.shape == other.matrix.shape and bool(
+            np.all(self.matrix == other.matrix)
+        )
 
     def _mat_to_txt(self, op):
         n_qubits = op.shape[1] // 2
-- 
2.43.0


From 7252dea4b7996775158f992586358ca5211a5495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 27/56] fix: Lie algebra generators of circuits whose nodes are
 not stored in label order

---
 mentpy/utils/lie_algebra.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mentpy/utils/lie_algebra.py b/mentpy/utils/lie_algebra.py
index c06059b..25526e8 100644
--- a/mentpy/utils/lie_algebra.py
+++ b/mentpy/utils/lie_algebra.py
@@ -23,14 +23,14 @@ def _constrains(j: int, state: MBQCircuit, stabilizers: PauliOp):
 
     mo = state.measurement_order
     mapping = state.index_mapping()
-    mo = [mapping[i] for i in mo]
+    node_j = j
     j = mapping[j]
 
     A = []
     b = []
     for k in mo:
-        if (not state.partial_order(j, k)) or k == j:
-            A.append(stabilizers[k].matrix[0, : len(mo)])
+        if (not state.partial_order(node_j, k)) or k == node_j:
+            A.append(stabilizers[mapping[k]].matrix[0, : len(mo)])
             b.append(np.zeros(1, dtype=int))
 
     for k in [mapping[i] for i in state.outputc]:
@@ -78,14 +78,11 @@ def calculate_complete_gens_lie_algebra(state: MBQCircuit):
 
 def calculate_gens_lie_algebra(state: MBQCircuit):
     """Calculates the generators of the Lie algebra of a given state"""
-    mapping = {
-        i: j
-        for i, j in zip(state.measurement_order, range(len(state.measurement_order)))
-    }
+    mapping = state.index_mapping()
 
     lieAlgebra = calculate_complete_gens_lie_algebra(state)
 
-    output_ops = lieAlgebra.get_subset(state.output_nodes)
+    output_ops = lieAlgebra.get_subset([mapping[i] for i in state.output_nodes])
     return remove_repeated_ops(output_ops)
 
 
-- 
2.43.0


From 83aa40ef9003b96df49cbd1cd4a9a27842e3a455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 28/56] fix: build the flow space from graph states

---
 mentpy/utils/flow_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/utils/flow_space.py b/mentpy/utils/flow_space.py
index cc89e46..e5fdc4f 100644
--- a/mentpy/utils/flow_space.py
+++ b/mentpy/utils/flow_space.py
@@ -3,7 +3,7 @@
 # This program is released under the GNU GPL v3.0 or later.
 # See <https://www.gnu.org/licenses/> for details.
 """A module to study graphs with flow."""
-from mentpy.mbqc import MBQCircuit
+from mentpy.mbqc import GraphState, MBQCircuit
 
 import networkx as nx
 import itertools
@@ -50,7 +50,7 @@ class FlowSpace:
         completegraph = nx.complete_graph(n)
         its = itertools.product([0, 1], repeat=total_n)
         for j in its:
-            g = nx.Graph()
+            g = GraphState()
             g.add_nodes_from(list(range(n)))
             edgs = [edg for i, edg in enumerate(list(completegraph.edges())) if j[i]]
             g.add_edges_from(edgs)
-- 
2.43.0


From 589784e0ebf7e1c53e087d9045d04cbe296b2b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 29/56] fix: entanglement entropy of a graph state

The minimum cut is only an upper bound, and the regions were merged wrongly.
---
 mentpy/mbqc/states/graphstate.py | 37 ++++++++++++++++----------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/mentpy/mbqc/states/graphstate.py b/mentpy/mbqc/states/graphstate.py
index a90420f..17652a4 100644
--- a/mentpy/mbqc/states/graphstate.py
+++ b/mentpy/mbqc/states/graphstate.py
@@ -78,31 +78,30 @@ def lc_reduce(graph: GraphState):
     raise NotImplementedError
 
 
-# TODO: Check if this is correct.
 def entanglement_entropy(
     state: GraphState, subRegionA: List, subRegionB: Optional[List] = None
 ) -> float:
-    """Calculate the entanglement entropy of a subregion of a graph state."""
+    """Calculate the entanglement entropy of a subregion of a graph state.
 
-    G = state.copy()
+    It is the rank over GF(2) of the adjacency matrix between both subregions.
+    """
 
-    # minimum_cut requires the capacity kwarg.
-    nx.set_edge_attributes(G, 1, name="capacity")
     if subRegionB is None:
-        subRegionB = set(state.nodes()) - set(subRegionA)
-
-    # Allow subregions. These are merged into a supernode to calculate
-    # the minimum cut between them.
-    if isinstance(subRegionA, List):
-        for v in subRegionA:
-            G = nx.contracted_nodes(G, subRegionA[0], v)
-        subRegionA = subRegionA[0]
-    if isinstance(subRegionB, List):
-        for v in subRegionA:
-            G = nx.contracted_nodes(G, subRegionB[0], v)
-        subRegionB = subRegionB[0]
-
-    return nx.minimum_cut(G, subRegionA, subRegionB)[0]
+        subRegionB = [v for v in state.nodes() if v not in subRegionA]
+
+    rows = [
+        sum(1 << j for j, b in enumerate(subRegionB) if state.has_edge(a, b))
+        for a in subRegionA
+    ]
+    rank = 0
+    while rows:
+        pivot = rows.pop()
+        if pivot:
+            rank += 1
+            low_bit = pivot & -pivot
+            rows = [row ^ pivot if row & low_bit else row for row in rows]
+
+    return rank
 
 
 def _get_stabilizers(graph: GraphState) -> List[PauliOp]:
-- 
2.43.0


From 2c2fd2ecd9a9c5db28ff968dca1c7b64e236fa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 30/56] fix: randomised split of data given as lists

---
 mentpy/utils/generate_data.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mentpy/utils/generate_data.py b/mentpy/utils/generate_data.py
index 9c7c8aa..f1121cf 100644
--- a/mentpy/utils/generate_data.py
+++ b/mentpy/utils/generate_data.py
@@ -48,8 +48,8 @@ def train_test_split(inputs, targets, test_size: float = 0.3, randomize=False) -
 
     if randomize:
         shuffled_indices = np.random.permutation(n_samples)
-        inputs = inputs[shuffled_indices]
-        targets = targets[shuffled_indices]
+        inputs = _take(inputs, shuffled_indices)
+        targets = _take(targets, shuffled_indices)
 
     return (inputs[:n_train_samples], targets[:n_train_samples]), (
         inputs[n_train_samples:],
@@ -57,6 +57,11 @@ def train_test_split(inputs, targets, test_size: float = 0.3, randomize=False) -
     )
 
 
+def _take(data, indices):
+    r"The elements of an array or a sequence in the given order."
+    return data[indices] if isinstance(data, np.ndarray) else [data[i] for i in indices]
+
+
 def brownian_circuit(dim, n, dt):
     """Returns a random unitary matrix close to the identity matrix"""
     u = np.eye(dim)
-- 
2.43.0


From d7784417c4cbdd2085992e625618a0b09c26d3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 31/56] fix: random datasets with a single sample

---
 mentpy/utils/generate_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/utils/generate_data.py b/mentpy/utils/generate_data.py
index f1121cf..e459f92 100644
--- a/mentpy/utils/generate_data.py
+++ b/mentpy/utils/generate_data.py
@@ -35,7 +35,7 @@ def generate_random_dataset(
 ) -> tuple:
     r"Return random training and test data (input, target) for a given unitary gate ``unitary``."
     n_qubits = int(np.log2(unitary.shape[0]))
-    random_inputs = generate_haar_random_states(n_qubits, n_samples=n_samples)
+    random_inputs = [_generate_haar_random_state(n_qubits) for _ in range(n_samples)]
     random_targets = [(unitary @ st.T).T for st in random_inputs]
     return train_test_split(random_inputs, random_targets, test_size=test_size)
 
@@ -100,7 +100,7 @@ def generate_random_dataset_noisy(
         raise ValueError("noise_level must be between 0 and 1")
 
     n_qubits = int(np.log2(unitary.shape[0]))
-    random_inputs = generate_haar_random_states(n_qubits, n_samples=n_samples)
+    random_inputs = [_generate_haar_random_state(n_qubits) for _ in range(n_samples)]
     n_samples = len(random_inputs)
     n_test_samples = int(n_samples * test_size)
     n_train_samples = n_samples - n_test_samples
-- 
2.43.0


From a17f7043e297ffbfc08e2a76c52ba9ec80a761d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:20 +0000
Subject: [PATCH 32/56] fix: local Clifford equivalence of graph states

Neither graph states nor circuits were accepted, single solutions were not
tried, and the search is only complete for connected graphs.
---
 mentpy/utils/lc_equivalence.py | 73 ++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 29 deletions(-)

diff --git a/mentpy/utils/lc_equivalence.py b/mentpy/utils/lc_equivalence.py
index 65dcd55..6175823 100644
--- a/mentpy/utils/lc_equivalence.py
+++ b/mentpy/utils/lc_equivalence.py
@@ -3,6 +3,8 @@
 TAKEN FROM: https://github.com/XanaduAI/flamingpy/blob/main/flamingpy/utils/linalg.py
 """
 
+import itertools
+
 import numpy as np
 import networkx as nx
 
@@ -122,28 +124,18 @@ def search_nullspace(basis):
     equivalent = False
     # array to store potential solutions
     sols = []
-    # search through distinct pairs of basis vectors
-    for i in range(d):
-        for j in range(i):
-            # boolean for checking solution constraints
-            sat = True
-            # potential solution as sum (modulo 2) of basis pair
-            sol = np.vectorize(lambda x: x % 2)(np.add(basis[i], basis[j]))
-            # store potential solution
-            sols.append(sol)
-            for k in range(n):
-                # check the determinants (modulo 2)
-                det = (sol[k] * sol[k + 3 * n] + sol[k + n] * sol[k + 2 * n]) % 2
-                if det != 1:
-                    # constraints not satisfied
-                    sat = False
-                    # remove the false solution
-                    sols.pop()
-                    break
+    # the solutions (if any) are an affine subspace of codimension at most 2 when
+    # d > 4, so they contain a basis vector or the sum of two of them
+    for size in range(1, (2 if d > 4 else d) + 1):
+        for subset in itertools.combinations(range(d), size):
+            # potential solution as sum (modulo 2) of basis vectors
+            sol = basis[list(subset)].sum(axis=0) % 2
+            # check the determinants (modulo 2)
+            det = (sol[:n] * sol[3 * n :] + sol[n : 2 * n] * sol[2 * n : 3 * n]) % 2
             # if solution found, set equivalent to True
-            if sat:
-                # equivalence is satisfied
-                equivalent = sat
+            if np.all(det == 1):
+                equivalent = True
+                sols.append(sol)
                 break
         # end search loop
         if equivalent:
@@ -225,8 +217,14 @@ def are_lc_equivalent(graph1, graph2, clifford_form="tensor"):
             Clifford output according to 'clifford_form' specification.
     """
     # get adjacency matrices of input graphs
-    G = nx.adjacency_matrix(graph1.graph)
-    H = nx.adjacency_matrix(graph2.graph)
+    G, H = [
+        nx.to_numpy_array(
+            graph if isinstance(graph, nx.Graph) else graph.graph,
+            weight=None,
+            dtype=int,
+        )
+        for graph in (graph1, graph2)
+    ]
 
     # check adjacency matrices for same non-empty square shape
     if np.shape(G) == (0, 0) or np.shape(H) == (0, 0):
@@ -243,12 +241,29 @@ def are_lc_equivalent(graph1, graph2, clifford_form="tensor"):
 
     # perform algorithm to search for solution
     #
-    # construct system of constraints for two adjacency matrices G and H
-    system = lc_constraint_system(G, H)
-    # construct nullspace basis of system of constraints
-    nullspace = nullspace_basis(system)
-    # search nullspace for solution vector
-    solution_vector = search_nullspace(nullspace)
+    # equivalent graphs have the same connected components; each one is solved on
+    # its own, as the search is only complete for connected graphs
+    n = np.shape(G)[0]
+    components = [sorted(c) for c in nx.connected_components(nx.from_numpy_array(G))]
+    components_H = [sorted(c) for c in nx.connected_components(nx.from_numpy_array(H))]
+    solution_vector = None
+    if sorted(components) == sorted(components_H):
+        solution_vector = np.zeros(4 * n, dtype=int)
+        for component in components:
+            block = np.ix_(component, component)
+            # construct system of constraints for two adjacency matrices G and H
+            system = lc_constraint_system(G[block], H[block])
+            # construct nullspace basis of system of constraints
+            nullspace = nullspace_basis(system)
+            # search nullspace for solution vector
+            solution = search_nullspace(nullspace)
+            if solution is None:
+                solution_vector = None
+                break
+            for k in range(4):
+                solution_vector[[k * n + v for v in component]] = solution[
+                    k * len(component) : (k + 1) * len(component)
+                ]
 
     # if graphs are not equivalent set clifford_output to None
     if solution_vector is None:
-- 
2.43.0


From 6b21e37920d889cb448ee984377172e060b435c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:18 +0000
Subject: [PATCH 33/56] fix: draw graph states, wires without measured nodes,
 and fixed or controlled angles

---
 mentpy/mbqc/view.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/mentpy/mbqc/view.py b/mentpy/mbqc/view.py
index 33a571d..b793e14 100644
--- a/mentpy/mbqc/view.py
+++ b/mentpy/mbqc/view.py
@@ -112,7 +112,7 @@ def draw(state: Union[MBQCircuit, GraphState], fix_wires=None, **kwargs):
         if state.flow is not None:
             fix_wires = []
             for inp in state.input_nodes:
-                is_output = False
+                is_output = inp in state.output_nodes
                 wire = [inp]
                 while not is_output:
                     out = state.flow(wire[-1])
@@ -122,6 +122,8 @@ def draw(state: Union[MBQCircuit, GraphState], fix_wires=None, **kwargs):
                 fix_wires.append(tuple(wire))
 
     if isinstance(state, GraphState):
+        options.pop("label")
+        options.pop("pauliop")
         nx.draw(state, ax=ax, **options)
 
     elif isinstance(state, MBQCircuit):
@@ -133,7 +135,7 @@ def draw(state: Union[MBQCircuit, GraphState], fix_wires=None, **kwargs):
         for indx, p in enumerate(state.input_nodes):
             position_xy[p] = (0, -1 * indx)
 
-        separation = len(state.outputc) // len(state.output_nodes)
+        separation = len(state.outputc) // max(1, len(state.output_nodes))
         if fix_wires is not None:
             for wire in fix_wires:
                 if len(wire) + 2 > separation:
@@ -155,7 +157,10 @@ def draw(state: Union[MBQCircuit, GraphState], fix_wires=None, **kwargs):
         fixed_nodes = [x for x in fixed_nodes if x != "*"]
 
         node_pos = nx.spring_layout(
-            state.graph, pos=position_xy, fixed=fixed_nodes, k=1 / len(state.graph)
+            state.graph,
+            pos=position_xy or None,
+            fixed=fixed_nodes or None,
+            k=1 / len(state.graph),
         )
 
         labels = process_labels(state, options)
@@ -167,7 +172,8 @@ def draw(state: Union[MBQCircuit, GraphState], fix_wires=None, **kwargs):
         if show_controls:
             dashed_edges = []
             for node in state.controlled_nodes:
-                for k in state.measurements[node].condition.cond_nodes:
+                condition = state.measurements[node].condition
+                for k in getattr(condition, "cond_nodes", []):
                     dashed_edges.append((node, k))
             nx.draw_networkx_edges(
                 state.graph,
@@ -213,7 +219,13 @@ def process_labels(state: MBQCircuit, options: dict):
         labels = {}
         for node in state.graph.nodes():
             if state.measurements[node] is not None:
-                if state.measurements[node].angle is not None:
+                if node in state.controlled_nodes:
+                    labels[node] = "Ctrl"
+                elif isinstance(state.measurements[node].angle, tuple):
+                    labels[node] = tuple(
+                        round(a, 3) for a in state.measurements[node].angle
+                    )
+                elif state.measurements[node].angle is not None:
                     labels[node] = round(state.measurements[node].angle, 3)
                 else:
                     labels[node] = r"$\theta$"
-- 
2.43.0


From 02e50d97003a69312a8a696d860209609048f11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:18 +0000
Subject: [PATCH 34/56] fix: damping noise channels of the PennyLane simulator

---
 mentpy/simulators/pennylane_simulator.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mentpy/simulators/pennylane_simulator.py b/mentpy/simulators/pennylane_simulator.py
index 5bf86d7..75d8b31 100644
--- a/mentpy/simulators/pennylane_simulator.py
+++ b/mentpy/simulators/pennylane_simulator.py
@@ -39,11 +39,20 @@ class PennylaneSimulator(BaseSimulator):
     def __init__(
         self, mbqcircuit: MBQCircuit, input_state: np.ndarray, *args, **kwargs
     ) -> None:
+        circuit_noise = kwargs.pop("circuit_noise", None)
+        p, gamma = kwargs.pop("p", 0), kwargs.pop("gamma", 0)
+        if circuit_noise in ("amplitude_damping", "phase_damping"):
+            noise_params = {"gamma": gamma}
+        elif circuit_noise == "generalized_amplitude_damping":
+            noise_params = {"gamma": gamma, "p": p}
+        else:
+            noise_params = {"p": p}
+
         self.circuit = mbqcircuit_to_circuit(
             mbqcircuit,
             kwargs.pop("device", "default.qubit"),
-            kwargs.pop("circuit_noise", None),
-            p=kwargs.pop("p", 0),
+            circuit_noise,
+            **noise_params,
         )
         super().__init__(mbqcircuit, input_state)
 
-- 
2.43.0


From 7506f22059c37d84f443dda95c794ce53cd10c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 35/56] fix: a flow never maps a node to an input node

---
 mentpy/mbqc/flow.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index e247a9f..5f4ec26 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -608,7 +608,8 @@ def check_if_flow(
         c1 = i in nfi
         c2 = partial_order(i, flow(i))
         c3 = math.prod([partial_order(i, k) for k in set(nfi) - {i}])
-        conds = conds * c1 * c2 * c3
+        c4 = flow(i) not in input_nodes
+        conds = conds * c1 * c2 * c3 * c4
         if not c1:
             print(f"Condition 1 failed for node {i}. {i} not in {nfi}")
         if not c2:
@@ -618,4 +619,6 @@ def check_if_flow(
             for k in set(nfi) - {i}:
                 if not partial_order(i, k):
                     print(f"{i} ≮ {k}")
+        if not c4:
+            print(f"Condition 4 failed for node {i}. {flow(i)} is an input node.")
     return conds
-- 
2.43.0


From 79cf957f097710f22a23242d0ee538fa44bafd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 36/56] fix: causal flow of graphs deeper than the recursion
 limit

---
 mentpy/mbqc/flow.py | 57 ++++++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 32 deletions(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index 5f4ec26..d52c382 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -148,39 +148,32 @@ def find_cflow(graph: GraphState, input_nodes, output_nodes) -> object:
 def causal_flow_aux(graph: GraphState, inputs, outputs, C, past, k, g, l) -> object:
     """Aux function for causal_flow"""
     V = set(graph.nodes())
-    C_prime = set()
 
-    for _, v in enumerate(C):
-        intersection = set(graph.neighbors(v)) & (V - outputs)
-        if len(intersection) == 1:
-            u = intersection.pop()
-            g[u] = v
-            l[u] = k
-            outputs.add(u)
-            if u not in inputs:
-                past[u] = len(set(graph.neighbors(u)) & (V - outputs))
-                if past[u] == 1:
-                    C_prime.add(u)
-            for w in set(graph.neighbors(u)):
-                if past[w] > 0:
-                    past[w] -= 1
-                    if past[w] == 1:
-                        C_prime.add(w)
-
-    if len(C_prime) == 0:
-        return g, l
-
-    else:
-        return causal_flow_aux(
-            graph,
-            inputs,
-            outputs,
-            C_prime,
-            past,
-            k + 1,
-            g,
-            l,
-        )
+    # one iteration per layer, as deep graphs exceed the recursion limit
+    while len(C) > 0:
+        C_prime = set()
+
+        for _, v in enumerate(C):
+            intersection = set(graph.neighbors(v)) & (V - outputs)
+            if len(intersection) == 1:
+                u = intersection.pop()
+                g[u] = v
+                l[u] = k
+                outputs.add(u)
+                if u not in inputs:
+                    past[u] = len(set(graph.neighbors(u)) & (V - outputs))
+                    if past[u] == 1:
+                        C_prime.add(u)
+                for w in set(graph.neighbors(u)):
+                    if past[w] > 0:
+                        past[w] -= 1
+                        if past[w] == 1:
+                            C_prime.add(w)
+
+        C = C_prime
+        k += 1
+
+    return g, l
 
 
 ### This section implements generalized flow -- Runs in time O(n^4)
-- 
2.43.0


From a8197b4247a11f160e10dbcb44ab3ed0d9cf2a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:43 +0000
Subject: [PATCH 37/56] fix: Pauli exponential template for an even number of
 Ys

---
 mentpy/mbqc/templates.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/templates.py b/mentpy/mbqc/templates.py
index 747a38e..5145947 100644
--- a/mentpy/mbqc/templates.py
+++ b/mentpy/mbqc/templates.py
@@ -308,6 +308,7 @@ def from_pauli(pauli_op: PauliOp):
     exp_ansatz.add_edge(3 * n_qubits, 3 * n_qubits + 1)
 
     measurements = {3 * n_qubits + 1: Ment("XY")}
+    odd_number_of_ys = False
 
     for q in range(n_qubits):
         has_x, has_z = False, False
@@ -320,7 +321,11 @@ def from_pauli(pauli_op: PauliOp):
             has_z = True
 
         if has_x and has_z:
-            measurements[3 * n_qubits] = Ment("Y")
+            odd_number_of_ys = not odd_number_of_ys
+
+    # every Y contributes a factor of i to the operator applied by node 3 * n_qubits
+    if odd_number_of_ys:
+        measurements[3 * n_qubits] = Ment("Y")
 
     input_nodes = [3 * q for q in range(n_qubits)]
     output_nodes = [3 * q + 2 for q in range(n_qubits)]
-- 
2.43.0


From e449566ec8e5cad6820c7f795647488ebb5021b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:24 +0000
Subject: [PATCH 38/56] fix: refuse negative indices of a Pauli subset

---
 mentpy/operators/pauliop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/operators/pauliop.py b/mentpy/operators/pauliop.py
index 3202c97..e731bd9 100644
--- a/mentpy/operators/pauliop.py
+++ b/mentpy/operators/pauliop.py
@@ -208,7 +208,7 @@ class PauliOp:
             print(op.get_subset([0, 2]))
         """
         inds = indices.copy()
-        if max(inds) >= self.matrix.shape[1] // 2:
+        if max(inds) >= self.matrix.shape[1] // 2 or min(inds) < 0:
             raise ValueError("Index out of range")
 
         inds += [i + self.matrix.shape[1] // 2 for i in inds]
-- 
2.43.0


From 1be3e718ff4877077ee370218aba3199bb246371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:24 +0000
Subject: [PATCH 39/56] fix: refuse an unknown noise type instead of returning
 no targets

---
 mentpy/utils/generate_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mentpy/utils/generate_data.py b/mentpy/utils/generate_data.py
index e459f92..53ce386 100644
--- a/mentpy/utils/generate_data.py
+++ b/mentpy/utils/generate_data.py
@@ -99,6 +99,9 @@ def generate_random_dataset_noisy(
     if noise_level > 1 or noise_level < 0:
         raise ValueError("noise_level must be between 0 and 1")
 
+    if noise_type not in ("brownian", "bitflip"):
+        raise ValueError(f"Unknown noise type: {noise_type}")
+
     n_qubits = int(np.log2(unitary.shape[0]))
     random_inputs = [_generate_haar_random_state(n_qubits) for _ in range(n_samples)]
     n_samples = len(random_inputs)
-- 
2.43.0


From abcc70b30d175c8fd1769b44800c24039e395ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:57 +0000
Subject: [PATCH 40/56] fix: appending to a row of a Pauli operator corrupted
 the operator

---
 mentpy/operators/pauliop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/operators/pauliop.py b/mentpy/operators/pauliop.py
index e731bd9..64549c1 100644
--- a/mentpy/operators/pauliop.py
+++ b/mentpy/operators/pauliop.py
@@ -100,7 +100,7 @@ class PauliOp:
         paulis = self._array[key]
         if isinstance(key, slice):
             return PauliOp(";".join([pauli.txt for pauli in paulis]))
-        return paulis
+        return copy.copy(paulis)  # appending to a row must not change this operator
 
     def __mul__(self, other: "PauliOp"):
         """Returns the product of two Pauli operators."""
-- 
2.43.0


From c878b67f451d704fe105c51a6aeacefe2b9c73a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:13 +0000
Subject: [PATCH 41/56] fix: stabilizers of a graph state without edges

---
 mentpy/mbqc/states/graphstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/mbqc/states/graphstate.py b/mentpy/mbqc/states/graphstate.py
index 17652a4..abdec55 100644
--- a/mentpy/mbqc/states/graphstate.py
+++ b/mentpy/mbqc/states/graphstate.py
@@ -111,7 +111,7 @@ def _get_stabilizers(graph: GraphState) -> List[PauliOp]:
     -----
     states
     """
-    z_mat = nx.adjacency_matrix(graph).todense()
+    z_mat = nx.adjacency_matrix(graph, dtype=int).todense()
     x_mat = np.eye(graph.number_of_nodes(), dtype=int)
 
     return PauliOp(np.hstack((x_mat, z_mat)))
-- 
2.43.0


From 2d429aae1f051c34c58ef691cce6101c2238f98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:43 +0000
Subject: [PATCH 42/56] fix: Lie algebra of circuits with a single generator

---
 mentpy/utils/lie_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/utils/lie_algebra.py b/mentpy/utils/lie_algebra.py
index 25526e8..6d7eaef 100644
--- a/mentpy/utils/lie_algebra.py
+++ b/mentpy/utils/lie_algebra.py
@@ -158,7 +158,7 @@ def remove_repeated_ops(ops: PauliOp):
     """Removes repeated Pauli operators from a set"""
     ops = copy.deepcopy(ops)
     unrep_ops = ops[0]
-    for op in ops[1:]:
+    for op in ops:
         if op not in unrep_ops:
             unrep_ops.append(op)
     return unrep_ops
-- 
2.43.0


From 07f184d70d3bd0772a71c032d5552672337e207c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:30 +0000
Subject: [PATCH 43/56] fix: Lie algebra generators of circuits with an input
 that is an output

---
 mentpy/utils/lie_algebra.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mentpy/utils/lie_algebra.py b/mentpy/utils/lie_algebra.py
index 6d7eaef..8f0a13d 100644
--- a/mentpy/utils/lie_algebra.py
+++ b/mentpy/utils/lie_algebra.py
@@ -29,7 +29,12 @@ def _constrains(j: int, state: MBQCircuit, stabilizers: PauliOp):
     A = []
     b = []
     for k in mo:
-        if (not state.partial_order(node_j, k)) or k == node_j:
+        # the state of an input is arbitrary, so it has no stabilizer of its own
+        if (
+            (not state.partial_order(node_j, k))
+            or k == node_j
+            or k in state.input_nodes
+        ):
             A.append(stabilizers[mapping[k]].matrix[0, : len(mo)])
             b.append(np.zeros(1, dtype=int))
 
-- 
2.43.0


From cbc630f8dfd5134fbcbfbd450c13832cb9c15e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 44/56] fix: record the outcome of a single measurement in the
 numpy simulators

Controlled measurements could not be simulated step by step, as their conditions are evaluated on the recorded outcomes.
---
 mentpy/simulators/np_simulator_dm.py | 1 +
 mentpy/simulators/np_simulator_sv.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index c96ecdd..244011a 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -190,6 +190,7 @@ class NumpySimulatorDM(BaseSimulator):
         self.qstate, outcome = self.measure_ment(
             current_ment, angle, indx, force0=self.force0, mode=mode
         )
+        self.outcomes[node] = outcome
         # check if qstate has nan
         if np.isnan(self.qstate).any():
             raise ValueError(
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index ac94d6c..f5ea245 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -203,6 +203,7 @@ class NumpySimulatorSV(BaseSimulator):
         self.qstate, outcome = self.measure_ment(
             current_ment, angle, indx, force0=self.force0
         )
+        self.outcomes[node] = outcome
 
         self.current_measurement += 1
         self.qstate = calc.partial_trace(self.qstate, [indx])
-- 
2.43.0


From b33b5f11ae798ab09018d78eb43646a061a7a127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 45/56] fix: do not reorder the output qubits again when a
 circuit without measurements is run again

---
 mentpy/simulators/np_simulator_dm.py | 5 ++---
 mentpy/simulators/np_simulator_sv.py | 1 +
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index 244011a..9fe13f2 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -280,13 +280,12 @@ class NumpySimulatorDM(BaseSimulator):
                 self.qstate, outcome = self.measure(angle, mode)
                 self.outcomes[node] = outcome
 
-        current_output_order = [
-            i for i in self.schedule if i not in self.schedule_measure
-        ]
+        current_output_order = self.current_simulated_nodes()
         if self.mbqcircuit.quantum_output_nodes != current_output_order:
             self.qstate = self.reorder_qubits(
                 self.qstate, current_output_order, self.mbqcircuit.quantum_output_nodes
             )
+            self._current_simulated_nodes = list(self.mbqcircuit.quantum_output_nodes)
 
         # # check if output nodes have a measurement, if so, measure them
         # for i in self.mbqcircuit.output_nodes:
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index f5ea245..1e87eaa 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -295,6 +295,7 @@ class NumpySimulatorSV(BaseSimulator):
             self.qstate = self.reorder_qubits(
                 self.qstate, current_output_order, self.mbqcircuit.quantum_output_nodes
             )
+            self._current_simulated_nodes = list(self.mbqcircuit.quantum_output_nodes)
 
         if output_form.lower() == "dm" or output_form.lower() == "densitymatrix":
             return np.outer(self.qstate, np.conj(self.qstate).T)
-- 
2.43.0


From 3240ea358d8ffc39d604043d4c4b3aa5081a50b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 46/56] fix: refuse input states that are not a statevector of
 the input nodes

A column vector silently gave a matrix that is not a state, and a zero vector gave nan.
---
 mentpy/simulators/base_simulator.py  | 10 ++++++++++
 mentpy/simulators/np_simulator_dm.py |  4 ++++
 mentpy/simulators/np_simulator_sv.py |  4 ++++
 3 files changed, 18 insertions(+)

diff --git a/mentpy/simulators/base_simulator.py b/mentpy/simulators/base_simulator.py
index de9eb08..5c49c7f 100644
--- a/mentpy/simulators/base_simulator.py
+++ b/mentpy/simulators/base_simulator.py
@@ -67,6 +67,16 @@ class BaseSimulator(abc.ABC):
         """Sets the outcomes of the simulation."""
         self._outcomes = outcomes
 
+    def _check_input_state(self, input_state: np.ndarray):
+        """Refuses input states that are not a statevector of the input nodes."""
+        dim = 2 ** len(self.mbqcircuit.input_nodes)
+        if np.shape(input_state) != (dim,):
+            raise ValueError(
+                f"Input state must be a statevector of shape ({dim},), but has shape {np.shape(input_state)}."
+            )
+        if not np.all(np.isfinite(input_state)) or not np.any(input_state):
+            raise ValueError("Input state must be finite and different from zero.")
+
     def __call__(self, angles: List[float], **kwargs):
         return self.run(angles, **kwargs)
 
diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index 9fe13f2..f03ca5d 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -34,6 +34,7 @@ class NumpySimulatorDM(BaseSimulator):
         self, mbqcircuit: MBQCircuit, input_state: np.ndarray = None, **kwargs
     ) -> None:
         super().__init__(mbqcircuit, input_state)
+        self._check_input_state(input_state)
 
         self.window_size = kwargs.pop("window_size", 1)
         self.schedule = kwargs.pop("schedule", None)
@@ -299,6 +300,9 @@ class NumpySimulatorDM(BaseSimulator):
 
     def reset(self, input_state: np.ndarray = None):
         """Resets the simulator to the initial state."""
+        if input_state is not None:
+            self._check_input_state(input_state)
+
         self.current_measurement = 0
 
         if input_state is not None:
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index 1e87eaa..91f10ed 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -39,6 +39,7 @@ class NumpySimulatorSV(BaseSimulator):
         self, mbqcircuit: MBQCircuit, input_state: np.ndarray = None, **kwargs
     ) -> None:
         super().__init__(mbqcircuit, input_state)
+        self._check_input_state(input_state)
 
         self.window_size = kwargs.pop("window_size", 1)
         self.schedule = kwargs.pop("schedule", None)
@@ -306,6 +307,9 @@ class NumpySimulatorSV(BaseSimulator):
 
     def reset(self, input_state: np.ndarray = None):
         """Resets the simulator to the initial state."""
+        if input_state is not None:
+            self._check_input_state(input_state)
+
         self.current_measurement = 0
 
         if input_state is not None:
-- 
2.43.0


From 3c9f86325a5d90e8c3de262c18e2612f9ad17da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 47/56] fix: sample the fidelities of a circuit with the
 pattern simulator

The simulator methods that were used no longer exist, so that every expressivity function failed.
---
 mentpy/utils/expressivity.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mentpy/utils/expressivity.py b/mentpy/utils/expressivity.py
index 616fdab..7a4e1fa 100644
--- a/mentpy/utils/expressivity.py
+++ b/mentpy/utils/expressivity.py
@@ -99,13 +99,16 @@ def sample_probability_density_of_fidelities(
     fidelities = []
 
     if backend == "pennylane":
-        qmlcircuit = pattern_simulator.graphstate_to_circuit()
+        if n_samples == 1:
+            random_input_states = [random_input_states]
         for random_st in random_input_states:
             random_pattern = (
-                2 * np.pi * np.random.rand(pattern_simulator.max_measure_number)
+                2 * np.pi * np.random.rand(len(graph_state_circuit.trainable_nodes))
             )
-            final_state = qmlcircuit(random_pattern, output="density")
-            fid = qml.math.fidelity(np.kron(random_st.T, random_st), final_state)
+            pattern_simulator.reset(input_state=random_st)
+            final_state = pattern_simulator.run(random_pattern)
+            fid = np.real(np.conj(random_st) @ final_state @ random_st)
+            fid = np.clip(fid, 0, 1)
             fidelities.append(fid)
 
     # elif backend == "cirq":
-- 
2.43.0


From 22fd95d91667367f522e704eff77eaa498f3224e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 48/56] fix: refuse a schedule that does not list every node
 once

---
 mentpy/simulators/np_simulator_dm.py | 4 ++++
 mentpy/simulators/np_simulator_sv.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index f03ca5d..d5490c3 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -47,6 +47,10 @@ class NumpySimulatorDM(BaseSimulator):
 
         # TODO: FIND SCHEDULE IF NOT PROVIDED
         if self.schedule is not None:
+            if sorted(self.schedule) != sorted(mbqcircuit.graph.nodes):
+                raise ValueError(
+                    f"Schedule must list every node once, but {self.schedule} was given."
+                )
             self.schedule_measure = [
                 i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
             ]
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index 91f10ed..60f44d8 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -61,6 +61,10 @@ class NumpySimulatorSV(BaseSimulator):
 
         # TODO: FIND SCHEDULE IF NOT PROVIDED
         if self.schedule is not None:
+            if sorted(self.schedule) != sorted(mbqcircuit.graph.nodes):
+                raise ValueError(
+                    f"Schedule must list every node once, but {self.schedule} was given."
+                )
             self.schedule_measure = [
                 i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
             ]
-- 
2.43.0


From 2b753ef9ce31e4852de20f4812933d8ba0b6987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 49/56] fix: compare graph states by node, not by insertion
 order, for LC equivalence

---
 mentpy/utils/lc_equivalence.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mentpy/utils/lc_equivalence.py b/mentpy/utils/lc_equivalence.py
index 6175823..c445f20 100644
--- a/mentpy/utils/lc_equivalence.py
+++ b/mentpy/utils/lc_equivalence.py
@@ -217,14 +217,15 @@ def are_lc_equivalent(graph1, graph2, clifford_form="tensor"):
             Clifford output according to 'clifford_form' specification.
     """
     # get adjacency matrices of input graphs
-    G, H = [
-        nx.to_numpy_array(
-            graph if isinstance(graph, nx.Graph) else graph.graph,
-            weight=None,
-            dtype=int,
-        )
+    graph1, graph2 = [
+        graph if isinstance(graph, nx.Graph) else graph.graph
         for graph in (graph1, graph2)
     ]
+    # the qubits are those of the first graph, however the second one lists them
+    nodes = list(graph1.nodes)
+    nodes2 = nodes if set(nodes) == set(graph2.nodes) else list(graph2.nodes)
+    G = nx.to_numpy_array(graph1, nodelist=nodes, weight=None, dtype=int)
+    H = nx.to_numpy_array(graph2, nodelist=nodes2, weight=None, dtype=int)
 
     # check adjacency matrices for same non-empty square shape
     if np.shape(G) == (0, 0) or np.shape(H) == (0, 0):
-- 
2.43.0


From 35a9429a95d58a0759b75ed82ffc18b218e25973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:01 +0000
Subject: [PATCH 50/56] fix: the outcome of a measurement stays that of its
 node when the measurement or a copy is moved

---
 mentpy/operators/ment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/operators/ment.py b/mentpy/operators/ment.py
index 5ea9e69..b56062a 100644
--- a/mentpy/operators/ment.py
+++ b/mentpy/operators/ment.py
@@ -202,7 +202,7 @@ class Ment:
     @node_id.setter
     def node_id(self, node_id: Any):
         self._node_id = node_id
-        self._outcome = MentOutcome(lambda x: x[self._node_id], self._node_id)
+        self._outcome = MentOutcome(lambda x: x[node_id], node_id)
 
     def set_angle(self, angle):
         "Sets the angle of the measurement."
-- 
2.43.0


From 8bd07e6b9b756903d9f7829b0b54993dcfab30e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 51/56] fix: keep own copies of the lists and the graph a
 circuit is given

---
 mentpy/mbqc/mbqcircuit.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index fb89b82..7d5c94e 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -89,6 +89,8 @@ class MBQCircuit:
                     mapping[k]: _relabel_condition(v, mapping)
                     for k, v in measurements.items()
                 }
+        else:
+            graph = graph.copy()
 
         self._graph = graph
         self._relabel_indices = relabel_indices
@@ -103,8 +105,8 @@ class MBQCircuit:
                 f"Output nodes {output_nodes} are not in the graph. Graph nodes are {self.graph.nodes}"
             )
 
-        self._input_nodes = input_nodes
-        self._output_nodes = output_nodes
+        self._input_nodes = list(input_nodes)
+        self._output_nodes = list(output_nodes)
 
         if not isinstance(default_measurement, Ment):
             raise ValueError(
@@ -267,7 +269,7 @@ class MBQCircuit:
             raise ValueError(
                 f"Trainable nodes {trainable_nodes} are not in the graph. Graph nodes are {self.graph.nodes}"
             )
-        self._trainable_nodes = trainable_nodes
+        self._trainable_nodes = list(trainable_nodes)
 
     @property
     def controlled_nodes(self) -> List[int]:
@@ -306,7 +308,7 @@ class MBQCircuit:
             self.graph.nodes
         ) or not _check_measurement_order(measurement_order, self.partial_order):
             raise ValueError(f"Invalid measurement order {measurement_order}.")
-        self._measurement_order = measurement_order
+        self._measurement_order = list(measurement_order)
 
     @cached_property
     def outputc(self) -> List:
-- 
2.43.0


From 934014b338eaef418dae9b6b3d5cd476bbab57d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 52/56] fix: ignore edge weights when looking for gflow

---
 mentpy/mbqc/flow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index d52c382..cccdd6c 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -183,7 +183,7 @@ def find_gflow(graph: GraphState, input_nodes, output_nodes) -> object:
     """Finds the generalized flow of a ``MBQCGraph`` if it exists.
     Retrieved from https://arxiv.org/pdf/0709.2670v1.pdf.
     """
-    gamma = nx.adjacency_matrix(graph).toarray()
+    gamma = nx.adjacency_matrix(graph, weight=None).toarray()
 
     l = {}
     g = {}
@@ -264,7 +264,7 @@ def find_pflow(
     d = {}
     p = {}
 
-    gamma = nx.adjacency_matrix(graph).toarray()
+    gamma = nx.adjacency_matrix(graph, weight=None).toarray()
 
     for v in graph.nodes():
         if v in output_nodes:
-- 
2.43.0


From 3e471fd69ce99ab0a93ff66151e7b07d6695fb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 53/56] fix: ignore edge weights in the stabilizers of a graph
 state

---
 mentpy/mbqc/states/graphstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/mbqc/states/graphstate.py b/mentpy/mbqc/states/graphstate.py
index abdec55..7d1ce57 100644
--- a/mentpy/mbqc/states/graphstate.py
+++ b/mentpy/mbqc/states/graphstate.py
@@ -111,7 +111,7 @@ def _get_stabilizers(graph: GraphState) -> List[PauliOp]:
     -----
     states
     """
-    z_mat = nx.adjacency_matrix(graph, dtype=int).todense()
+    z_mat = nx.adjacency_matrix(graph, dtype=int, weight=None).todense()
     x_mat = np.eye(graph.number_of_nodes(), dtype=int)
 
     return PauliOp(np.hstack((x_mat, z_mat)))
-- 
2.43.0


From d4fb41ef1b960a9808e79204651ff50629c38236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:31 +0000
Subject: [PATCH 54/56] fix: keep an own copy of the default measurement a
 circuit is given

---
 mentpy/mbqc/mbqcircuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 7d5c94e..afbf990 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -112,7 +112,7 @@ class MBQCircuit:
             raise ValueError(
                 f"Default measurement {default_measurement} is not an instance of Ment."
             )
-        self._default_measurement = default_measurement
+        self._default_measurement = copy.deepcopy(default_measurement)
 
         if measurements is None:
             measurements = {node: default_measurement for node in self.outputc}
@@ -146,7 +146,7 @@ class MBQCircuit:
         elif not check_if_flow(graph, input_nodes, output_nodes, flow, partial_order):
             raise ValueError("The given flow is not a flow of the graph.")
 
-        self.gflow = Flow(graph, input_nodes, output_nodes)
+        self.gflow = Flow(graph, list(input_nodes), list(output_nodes))
 
         self._flow = flow
         self._flow_order = partial_order
-- 
2.43.0


From cd68d33d841f7823f2e16ed505a98db841bc2c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 55/56] fix: keep an own copy of the input state of the
 PennyLane simulator

---
 mentpy/simulators/pennylane_simulator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mentpy/simulators/pennylane_simulator.py b/mentpy/simulators/pennylane_simulator.py
index 75d8b31..e47b9d6 100644
--- a/mentpy/simulators/pennylane_simulator.py
+++ b/mentpy/simulators/pennylane_simulator.py
@@ -5,6 +5,7 @@
 """PennyLane simulator for MBQC circuits."""
 
 from typing import Union, List, Tuple, Optional
+import copy
 
 import numpy as np
 
@@ -54,7 +55,7 @@ class PennylaneSimulator(BaseSimulator):
             circuit_noise,
             **noise_params,
         )
-        super().__init__(mbqcircuit, input_state)
+        super().__init__(mbqcircuit, copy.copy(input_state))
 
         if len(mbqcircuit.controlled_nodes) > 0:
             raise NotImplementedError(
@@ -97,7 +98,7 @@ class PennylaneSimulator(BaseSimulator):
     def reset(self, input_state=None):
         if input_state is None:
             input_state = self.input_state
-        self.input_state = input_state
+        self.input_state = copy.copy(input_state)
 
 
 def mbqcircuit_to_circuit(
-- 
2.43.0


From 68438001639269bb2219888f797a196fd53cd650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:54 +0000
Subject: [PATCH 56/56] fix: keep an own copy of the schedule a simulator is
 given

---
 mentpy/simulators/np_simulator_dm.py | 1 +
 mentpy/simulators/np_simulator_sv.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index d5490c3..8d12bac 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -47,6 +47,7 @@ class NumpySimulatorDM(BaseSimulator):
 
         # TODO: FIND SCHEDULE IF NOT PROVIDED
         if self.schedule is not None:
+            self.schedule = list(self.schedule)
             if sorted(self.schedule) != sorted(mbqcircuit.graph.nodes):
                 raise ValueError(
                     f"Schedule must list every node once, but {self.schedule} was given."
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index 60f44d8..0c2bf02 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -61,6 +61,7 @@ class NumpySimulatorSV(BaseSimulator):
 
         # TODO: FIND SCHEDULE IF NOT PROVIDED
         if self.schedule is not None:
+            self.schedule = list(self.schedule)
             if sorted(self.schedule) != sorted(mbqcircuit.graph.nodes):
                 raise ValueError(
                     f"Schedule must list every node once, but {self.schedule} was given."
-- 
2.43.0

