From 3da0865f3922b096dd909a6a7ead17c6e041f0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 01/23] fix: copying or unpickling circuits and pattern
 simulators recursed forever

---
 mentpy/mbqc/mbqcircuit.py              | 3 +++
 mentpy/simulators/pattern_simulator.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 389e841..c0f2910 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -167,6 +167,9 @@ class MBQCircuit:
 
     # if an attribute is not found, look for it in the graph
     def __getattr__(self, name):
+        # the object is not built yet (e.g. while it is being copied or unpickled)
+        if name == "gflow" or "_graph" not in self.__dict__:
+            raise AttributeError(f"Attribute {name} not found in MBQCircuit.")
         # try getting the attribute in graph, if not there, look in gflow
         try:
             return getattr(self.graph, name)
diff --git a/mentpy/simulators/pattern_simulator.py b/mentpy/simulators/pattern_simulator.py
index a4e1796..06aabe7 100644
--- a/mentpy/simulators/pattern_simulator.py
+++ b/mentpy/simulators/pattern_simulator.py
@@ -70,6 +70,9 @@ class PatternSimulator:
         )
 
     def __getattr__(self, name):
+        # the object is not built yet (e.g. while it is being copied or unpickled)
+        if name == "simulator":
+            raise AttributeError(name)
         return getattr(self.simulator, name)
 
     def __call__(self, angles: List[float], **kwargs):
-- 
2.43.0


From 8c7ca59e429e887679d8be49fd18165f498e2b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 02/23] fix: depth of a circuit with causal flow was a node
 label instead of the number of layers

---
 mentpy/mbqc/flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index a54dd99..2d13cfb 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -144,7 +144,7 @@ def find_cflow(graph: GraphState, input_nodes, output_nodes) -> object:
     if len(flow) != len(graph.nodes()) - len(output_nodes):
         return None, None, None, None
 
-    return lambda x: flow[x], lambda u, v: ln[u] > ln[v], max(flow.values()), ln
+    return lambda x: flow[x], lambda u, v: ln[u] > ln[v], max(ln.values(), default=0), ln
 
 
 def causal_flow_aux(graph: GraphState, inputs, outputs, C, past, k, g, l) -> object:
-- 
2.43.0


From 08f4ae096136fe6e434b02b6d8adf9d2f1044b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 03/23] fix: causal flow search exceeded the recursion limit on
 circuits with many layers

---
 mentpy/mbqc/flow.py | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index 2d13cfb..e53ab90 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -137,9 +137,11 @@ def find_cflow(graph: GraphState, input_nodes, output_nodes) -> object:
         if past[v] == 1:
             C_set = C_set.union({v})
 
-    flow, ln = causal_flow_aux(
-        graph, set(input_nodes), set(output_nodes), C_set, past, 1, g, l
-    )
+    inputs, outputs, k = set(input_nodes), set(output_nodes), 1
+    while len(C_set) > 0:
+        C_set = causal_flow_aux(graph, inputs, outputs, C_set, past, k, g, l)
+        k += 1
+    flow, ln = g, l
 
     if len(flow) != len(graph.nodes()) - len(output_nodes):
         return None, None, None, None
@@ -148,7 +150,7 @@ def find_cflow(graph: GraphState, input_nodes, output_nodes) -> object:
 
 
 def causal_flow_aux(graph: GraphState, inputs, outputs, C, past, k, g, l) -> object:
-    """Aux function for causal_flow"""
+    """Aux function for causal_flow. Does one round and returns the next candidates."""
     V = set(graph.nodes())
     C_prime = set()
 
@@ -169,20 +171,7 @@ def causal_flow_aux(graph: GraphState, inputs, outputs, C, past, k, g, l) -> obj
                     if past[w] == 1:
                         C_prime.add(w)
 
-    if len(C_prime) == 0:
-        return g, l
-
-    else:
-        return causal_flow_aux(
-            graph,
-            inputs,
-            outputs,
-            C_prime,
-            past,
-            k + 1,
-            g,
-            l,
-        )
+    return C_prime
 
 
 ### This section implements generalized flow -- Runs in time O(n^4)
-- 
2.43.0


From 3286c08d8d69dca6f760fe81c5088f7f63cb0cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 04/23] fix: measurement orders contradicted the flow (inputs
 forced to the front, inverted validity check)

---
 mentpy/mbqc/flow.py       | 12 ++++++------
 mentpy/mbqc/mbqcircuit.py | 41 +++++++++++++++++++++++++++------------
 2 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index e53ab90..fd325cf 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -74,12 +74,12 @@ class Flow:
             ]
             self.layers = ord_layers[::-1]
 
-            # This can be optimized!!
-            order = [item for sublist in self.layers for item in sublist]
-            for i in self.input_nodes[::-1]:
-                order.remove(i)
-                order.insert(0, i)
-            self.measurement_order = order
+            # within a layer, the input nodes go first
+            self.measurement_order = [
+                item
+                for sublist in self.layers
+                for item in sorted(sublist, key=lambda n: n not in self.input_nodes)
+            ]
         else:
             self.layers = None
             self.measurement_order = None
diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index c0f2910..68f84e0 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -147,15 +147,18 @@ class MBQCircuit:
         self._flow = flow
         self._partial_order = partial_order
 
-        if measurement_order is None and flow is not None:
-            measurement_order = self.calculate_order()
+        if measurement_order is not None:
+            self.measurement_order = measurement_order
+        else:
+            self._measurement_order = (
+                self.calculate_order() if flow is not None else None
+            )
 
         # in case we measure an output node
         quantum_output_nodes = [
             node for node, i in self.measurements.items() if i is None
         ]
         self._quantum_output_nodes = quantum_output_nodes
-        self._measurement_order = measurement_order
 
     def __repr__(self) -> str:
         """Return the representation of the current MBQC circuit state"""
@@ -299,9 +302,9 @@ class MBQCircuit:
     @measurement_order.setter
     def measurement_order(self, measurement_order: List[int]) -> None:
         r"""Set the measurement order of the MBQC circuit."""
-        if not _check_measurement_order(measurement_order, self.partial_order):
+        if not _check_measurement_order(measurement_order, self._dependency_graph()):
             raise ValueError(f"Invalid measurement order {measurement_order}.")
-        self._measurement_order = measurement_order
+        self._measurement_order = list(measurement_order)
 
     @cached_property
     def outputc(self) -> List:
@@ -418,11 +421,26 @@ class MBQCircuit:
 
         order = [item for sublist in sorted_labels for item in sublist]
 
+        # input nodes go first, unless they depend on the outcome of another node
         for i in self.input_nodes[::-1]:
             order.remove(i)
             order.insert(0, i)
 
-        return order
+        priority = {node: i for i, node in enumerate(order)}
+        return list(
+            nx.lexicographical_topological_sort(
+                self._dependency_graph(), key=priority.get
+            )
+        )
+
+    def _dependency_graph(self):
+        r"""Returns the directed graph whose edges (u, v) require that u is measured before v"""
+        dependencies = nx.DiGraph()
+        dependencies.add_nodes_from(self.graph.nodes())
+        for u in self.outputc if self.flow is not None else []:
+            corrected = {self.flow(u)} | set(self.graph.neighbors(self.flow(u)))
+            dependencies.add_edges_from((u, v) for v in corrected if v != u)
+        return dependencies
 
     def add_edge(self, u, v):
         r"""Adds an edge between nodes u and v"""
@@ -450,13 +468,12 @@ class MBQCircuit:
             raise ValueError(f"Cannot add edges {edges}.\n" + str(e))
 
 
-def _check_measurement_order(measurement_order: List, partial_order: Callable):
+def _check_measurement_order(measurement_order: List, dependencies: nx.DiGraph):
     r"""Checks that the measurement order is valid"""
-    for i in range(len(measurement_order)):
-        for j in range(i + 1, len(measurement_order)):
-            if partial_order(measurement_order[i], measurement_order[j]):
-                return False
-    return True
+    position = {node: i for i, node in enumerate(measurement_order)}
+    if len(position) != len(measurement_order) or set(position) != set(dependencies):
+        return False
+    return all(position[u] < position[v] for u, v in dependencies.edges())
 
 
 def merge(state1: MBQCircuit, state2: MBQCircuit, along=[]) -> MBQCircuit:
-- 
2.43.0


From d962b7620b54097824b8ff3b3e31ae289b21ddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 05/23] fix: a flow given by the caller recursed forever on use
 and was accepted without being one

---
 mentpy/mbqc/flow.py       |  5 ++++-
 mentpy/mbqc/mbqcircuit.py | 13 ++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index fd325cf..f6f6abf 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -596,10 +596,13 @@ def check_if_flow(
     conds = True
     for i in [v for v in graph.nodes() if v not in output_nodes]:
         nfi = list(graph.neighbors(flow(i)))
+        c0 = flow(i) not in input_nodes
         c1 = i in nfi
         c2 = partial_order(i, flow(i))
         c3 = math.prod([partial_order(i, k) for k in set(nfi) - {i}])
-        conds = conds * c1 * c2 * c3
+        conds = conds * c0 * c1 * c2 * c3
+        if not c0:
+            print(f"Condition 0 failed for node {i}. {flow(i)} is an input node")
         if not c1:
             print(f"Condition 1 failed for node {i}. {i} not in {nfi}")
         if not c2:
diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 68f84e0..8a5d668 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -76,9 +76,11 @@ class MBQCircuit:
             input_nodes = [mapping[i] for i in input_nodes]
             output_nodes = [mapping[i] for i in output_nodes]
             if flow is not None:
-                flow = lambda x: mapping[flow(inv_mapping[x])]
+                old_flow = flow
+                flow = lambda x: mapping[old_flow(inv_mapping[x])]
             if partial_order is not None:
-                partial_order = lambda x, y: partial_order(
+                old_partial_order = partial_order
+                partial_order = lambda x, y: old_partial_order(
                     inv_mapping[x], inv_mapping[y]
                 )
             if measurement_order is not None:
@@ -142,7 +144,12 @@ class MBQCircuit:
             self.gflow = Flow(graph, input_nodes, output_nodes)
 
         elif (flow is not None) and (partial_order is not None):
-            check_if_flow(graph, input_nodes, output_nodes, flow, partial_order)
+            if not check_if_flow(
+                graph, input_nodes, output_nodes, flow, partial_order
+            ):
+                raise ValueError("The given flow and partial order are not a flow.")
+            if len(input_nodes) == len(output_nodes):
+                self.gflow = Flow(graph, input_nodes, output_nodes)
 
         self._flow = flow
         self._partial_order = partial_order
-- 
2.43.0


From 84e767c89c7ef5efa14f75c6143f6d240c39a576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 06/23] fix: edits of a circuit dropped measurements, left
 stale attributes or were applied half when refused

---
 mentpy/mbqc/mbqcircuit.py | 104 +++++++++++++++++---------------------
 1 file changed, 45 insertions(+), 59 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 8a5d668..898f40e 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -113,29 +113,9 @@ class MBQCircuit:
             measurements = {node: default_measurement for node in self.outputc}
             for node in self.output_nodes:
                 measurements[node] = None
-        else:
-            if not all([v in self.graph.nodes for v in measurements.keys()]):
-                nodes_not_in_graph = [
-                    v for v in measurements.keys() if v not in self.graph.nodes
-                ]
-                raise ValueError(f"Nodes {nodes_not_in_graph} are not in the graph.")
-            if not all(
-                [isinstance(v, Ment) or v is None for v in measurements.values()]
-            ):
-                raise ValueError(
-                    f"Values {measurements.values()} are not instances of Ment."
-                )
 
-            # set X Ment in outputc nodes that are not in measurements
-            for node in self.graph.nodes:
-                if node not in measurements:
-                    measurements[node] = (
-                        self._default_measurement if node in self.outputc else None
-                    )
-
-        self._measurements = measurements
         self._flow, self._partial_order = None, None
-        self._update_attributes()
+        self._update_attributes(self._complete_measurements(measurements))
 
         if (flow is None) or (partial_order is None):
             flow, partial_order, depth, layers = find_cflow(
@@ -161,12 +141,6 @@ class MBQCircuit:
                 self.calculate_order() if flow is not None else None
             )
 
-        # in case we measure an output node
-        quantum_output_nodes = [
-            node for node, i in self.measurements.items() if i is None
-        ]
-        self._quantum_output_nodes = quantum_output_nodes
-
     def __repr__(self) -> str:
         """Return the representation of the current MBQC circuit state"""
         return f"MBQCircuit with {self.graph.number_of_nodes()} qubits."
@@ -196,10 +170,8 @@ class MBQCircuit:
         if not isinstance(value, Ment):
             raise ValueError(f"Value {value} is not a Measurement object.")
 
-        self._measurements[key] = value
-
         # self._update_attributes_key(key)
-        self._update_attributes()
+        self._update_attributes({**self._measurements, key: value})
 
         if isinstance(value, ControlMent):
             # recalculate measurement order
@@ -218,7 +190,7 @@ class MBQCircuit:
         if key not in self.graph.nodes:
             raise ValueError(f"Node {key} is not in the graph.")
 
-        self._measurements[key] = None
+        self._update_attributes({**self._measurements, key: None})
 
     @property
     def measurements(self) -> Dict[int, Ment]:
@@ -228,14 +200,26 @@ class MBQCircuit:
     @measurements.setter
     def measurements(self, measurements: Dict[int, Ment]) -> None:
         r"""Set the measurements of the MBQC circuit."""
-        if not all([v in self.graph.nodes for v in measurements.keys()]):
-            raise ValueError(f"Nodes {measurements.keys()} are not in the graph.")
-        if not all([isinstance(v, Ment) for v in measurements.values()]):
+        self._update_attributes(self._complete_measurements(measurements))
+
+    def _complete_measurements(self, measurements: Dict[int, Ment]) -> Dict[int, Ment]:
+        r"""Checks the measurements and adds those of the nodes that are not given."""
+        nodes_not_in_graph = [v for v in measurements if v not in self.graph.nodes]
+        if nodes_not_in_graph:
+            raise ValueError(f"Nodes {nodes_not_in_graph} are not in the graph.")
+        if not all([isinstance(v, Ment) or v is None for v in measurements.values()]):
             raise ValueError(
-                f"Values {measurements.values()} are not Measurement objects."
+                f"Values {measurements.values()} are not instances of Ment."
             )
-        self._measurements = measurements
-        self._update_attributes()
+
+        # set default Ment in outputc nodes that are not in measurements
+        measurements = dict(measurements)
+        for node in self.graph.nodes:
+            if node not in measurements:
+                measurements[node] = (
+                    self._default_measurement if node in self.outputc else None
+                )
+        return measurements
 
     @property
     def graph(self) -> GraphState:
@@ -335,13 +319,12 @@ class MBQCircuit:
             ]
         return self.gflow.layers
 
-    def _update_attributes(self) -> None:
+    def _update_attributes(self, measurements: Dict[int, Ment]) -> None:
+        measurements = dict(measurements)
         trainable_nodes = []
         controlled_nodes = []
         planes = {}
-        quantum_outputs = []
-        classical_outputs = []
-        for nodei, menti in self._measurements.items():
+        for nodei, menti in measurements.items():
             if menti is not None:
                 if isinstance(menti, ControlMent):
                     controlled_nodes.append(nodei)
@@ -350,20 +333,24 @@ class MBQCircuit:
                     trainable_nodes.append(nodei)
 
                 planes[nodei] = menti.plane
-                self._measurements[nodei] = copy.deepcopy(menti)
-                self._measurements[nodei].node_id = nodei
-                if nodei in self._output_nodes:
-                    classical_outputs.append(nodei)
+                measurements[nodei] = copy.deepcopy(menti)
+                measurements[nodei].node_id = nodei
             else:
                 planes[nodei] = ""
-                if nodei in self._output_nodes:
-                    quantum_outputs.append(nodei)
 
-        self._trainable_nodes = trainable_nodes
-        self._controlled_nodes = controlled_nodes
-        self._planes = planes
-        self._quantum_output_nodes = quantum_outputs
-        self._classical_output_nodes = classical_outputs
+        # set everything at once, so that an edit that fails changes nothing
+        self.__dict__.update(
+            _measurements=measurements,
+            _trainable_nodes=trainable_nodes,
+            _controlled_nodes=controlled_nodes,
+            _planes=planes,
+            _quantum_output_nodes=[
+                node for node in self._output_nodes if measurements[node] is None
+            ],
+            _classical_output_nodes=[
+                node for node in self._output_nodes if measurements[node] is not None
+            ],
+        )
 
         # update measurement order
 
@@ -451,28 +438,27 @@ class MBQCircuit:
 
     def add_edge(self, u, v):
         r"""Adds an edge between nodes u and v"""
-        self.graph.add_edge(u, v)
-        # try resetting self with new graph, if it fails, remove the edge
         try:
-            self.__init__(self.graph, self.input_nodes, self.output_nodes)
+            self.add_edges_from([(u, v)])
         except Exception as e:
-            self.graph.remove_edge(u, v)
             raise ValueError(f"Cannot add edge between {u} and {v}.\n" + str(e))
 
     def add_edges_from(self, edges, **kwargs):
         r"""Adds edges from a list of tuples"""
         new_graph = self.graph.copy()
         new_graph.add_edges_from(edges, **kwargs)
+        # build a circuit with the new graph, if it fails, self is not changed
         try:
-            self.__init__(
+            new_circuit = MBQCircuit(
                 new_graph,
                 self.input_nodes,
                 self.output_nodes,
-                self.flow,
-                self.partial_order,
+                measurements=self.measurements,
+                default_measurement=self._default_measurement,
             )
         except Exception as e:
             raise ValueError(f"Cannot add edges {edges}.\n" + str(e))
+        self.__dict__ = new_circuit.__dict__
 
 
 def _check_measurement_order(measurement_order: List, dependencies: nx.DiGraph):
-- 
2.43.0


From 7df6f443ac903d5e0884d23020a2a60686c41025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:13 +0000
Subject: [PATCH 07/23] fix: controlled measurements gave stale or missing
 orderings and failed for constant, negated, fixed-angle and Z-plane settings

---
 mentpy/mbqc/mbqcircuit.py            | 97 +++++++++++-----------------
 mentpy/operators/controlled_ment.py  |  8 +--
 mentpy/operators/ment.py             |  4 +-
 mentpy/simulators/np_simulator_dm.py | 14 ++--
 4 files changed, 49 insertions(+), 74 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 898f40e..ebcf00e 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -114,9 +114,6 @@ class MBQCircuit:
             for node in self.output_nodes:
                 measurements[node] = None
 
-        self._flow, self._partial_order = None, None
-        self._update_attributes(self._complete_measurements(measurements))
-
         if (flow is None) or (partial_order is None):
             flow, partial_order, depth, layers = find_cflow(
                 graph, input_nodes, output_nodes
@@ -132,14 +129,12 @@ class MBQCircuit:
                 self.gflow = Flow(graph, input_nodes, output_nodes)
 
         self._flow = flow
-        self._partial_order = partial_order
+        self._flow_partial_order = partial_order
+        self._controlled_nodes, self._measurement_order = [], None
+        self._update_attributes(self._complete_measurements(measurements))
 
         if measurement_order is not None:
             self.measurement_order = measurement_order
-        else:
-            self._measurement_order = (
-                self.calculate_order() if flow is not None else None
-            )
 
     def __repr__(self) -> str:
         """Return the representation of the current MBQC circuit state"""
@@ -173,10 +168,6 @@ class MBQCircuit:
         # self._update_attributes_key(key)
         self._update_attributes({**self._measurements, key: value})
 
-        if isinstance(value, ControlMent):
-            # recalculate measurement order
-            self._measurement_order = self.calculate_order()
-
     def __getitem__(self, key):
         r"""Return the value of the measurement of the node with index key."""
         try:
@@ -293,7 +284,8 @@ class MBQCircuit:
     @measurement_order.setter
     def measurement_order(self, measurement_order: List[int]) -> None:
         r"""Set the measurement order of the MBQC circuit."""
-        if not _check_measurement_order(measurement_order, self._dependency_graph()):
+        dependencies = self._dependency_graph(self.measurements)
+        if not _check_measurement_order(measurement_order, dependencies):
             raise ValueError(f"Invalid measurement order {measurement_order}.")
         self._measurement_order = list(measurement_order)
 
@@ -332,15 +324,31 @@ class MBQCircuit:
                 if menti.is_trainable():
                     trainable_nodes.append(nodei)
 
-                planes[nodei] = menti.plane
+                planes[nodei] = (
+                    menti.plane() if isinstance(menti, ControlMent) else menti.plane
+                )
                 measurements[nodei] = copy.deepcopy(menti)
                 measurements[nodei].node_id = nodei
             else:
                 planes[nodei] = ""
 
+        # recalculate the partial order and the measurement order if there are controls
+        partial_order, order = self._flow_partial_order, self._measurement_order
+        if controlled_nodes or self._controlled_nodes or order is None:
+            dependencies = self._dependency_graph(measurements)
+            if controlled_nodes and partial_order is not None:
+                after = {v: nx.descendants(dependencies, v) for v in dependencies}
+                partial_order = lambda x, y: y in after[x]
+            if partial_order is not None:
+                order = self.calculate_order(partial_order, dependencies)
+            elif order and not _check_measurement_order(order, dependencies):
+                raise ValueError(f"Conditions contradict measurement order {order}.")
+
         # set everything at once, so that an edit that fails changes nothing
         self.__dict__.update(
             _measurements=measurements,
+            _partial_order=partial_order,
+            _measurement_order=order,
             _trainable_nodes=trainable_nodes,
             _controlled_nodes=controlled_nodes,
             _planes=planes,
@@ -352,26 +360,6 @@ class MBQCircuit:
             ],
         )
 
-        # update measurement order
-
-        # make artificial graph for new flow with controls
-        # if len(self.controlled_nodes) > 0:
-        #     artificial_graph = self.graph
-        #     for nodei in self.controlled_nodes:
-        #         new_edges = [(nodei, v) for v in self.measurements[nodei].condition.cond_nodes]
-        #         artificial_graph.add_edges_from(new_edges)
-
-        #     flow, partial_order, depth = find_cflow(artificial_graph, self.input_nodes, self.output_nodes)
-        #     self._flow = flow
-        #     self._partial_order = partial_order
-        #     self._depth = depth
-
-        if self._partial_order is not None:
-            old_partial_order = self._partial_order
-            self._partial_order = _create_new_partial_order(
-                self.controlled_nodes, self.measurements, old_partial_order
-            )
-
     def _update_attributes_key(self, key) -> None:
         menti = self._measurements[key]
         if menti is not None:
@@ -387,14 +375,16 @@ class MBQCircuit:
             if key in self._trainable_nodes:
                 self._trainable_nodes.remove(key)
 
-    def calculate_order(self):
+    def calculate_order(self, partial_order=None, dependencies=None):
         r"""Returns the order of the measurements"""
+        partial_order = partial_order or self.partial_order
+        dependencies = dependencies or self._dependency_graph(self.measurements)
         n = len(self.graph)
         mat = np.zeros((n, n), dtype=int)
 
         for indi, i in enumerate(list(self.graph.nodes())):
             for indj, j in enumerate(list(self.graph.nodes())):
-                if self.partial_order(i, j):
+                if partial_order(i, j):
                     mat[indi, indj] = 1
 
         sum_mat = np.sum(mat, axis=1)
@@ -422,18 +412,24 @@ class MBQCircuit:
 
         priority = {node: i for i, node in enumerate(order)}
         return list(
-            nx.lexicographical_topological_sort(
-                self._dependency_graph(), key=priority.get
-            )
+            nx.lexicographical_topological_sort(dependencies, key=priority.get)
         )
 
-    def _dependency_graph(self):
+    def _dependency_graph(self, measurements):
         r"""Returns the directed graph whose edges (u, v) require that u is measured before v"""
         dependencies = nx.DiGraph()
         dependencies.add_nodes_from(self.graph.nodes())
         for u in self.outputc if self.flow is not None else []:
             corrected = {self.flow(u)} | set(self.graph.neighbors(self.flow(u)))
             dependencies.add_edges_from((u, v) for v in corrected if v != u)
+        for v, ment in measurements.items():
+            if isinstance(ment, ControlMent):
+                cond_nodes = getattr(ment.condition, "cond_nodes", set())
+                if not all(u in self.graph.nodes for u in cond_nodes):
+                    raise ValueError(f"Nodes {cond_nodes} are not in the graph.")
+                dependencies.add_edges_from((u, v) for u in cond_nodes)
+        if not nx.is_directed_acyclic_graph(dependencies):
+            raise ValueError("The measurements cannot be ordered.")
         return dependencies
 
     def add_edge(self, u, v):
@@ -622,24 +618,3 @@ def _hstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
 
     # TODO: Compute flow and partial order
     return MBQCircuit(graph, input_nodes, output_nodes, measurements=measurements)
-
-
-def _create_new_partial_order(controlled_nodes, measurements, old_partial_order):
-    def new_partial_order(i, j):
-        for c in controlled_nodes:
-            cns = measurements[c].condition.cond_nodes
-
-            ibeforecns = any([old_partial_order(i, cn) for cn in cns]) or i in cns
-            jafterc = old_partial_order(c, j) or j == c
-            # print(f"Comparing {i} and {j}")
-            # print(any([old_partial_order(i, cn) for cn in cns]), i in cns)
-            # print(old_partial_order(c, j), j == c)
-            if ibeforecns and jafterc and i != j:
-                return True
-
-            if j in cns and i == c:
-                return False
-
-        return old_partial_order(i, j)
-
-    return new_partial_order
diff --git a/mentpy/operators/controlled_ment.py b/mentpy/operators/controlled_ment.py
index aa0b13e..0257953 100644
--- a/mentpy/operators/controlled_ment.py
+++ b/mentpy/operators/controlled_ment.py
@@ -34,7 +34,7 @@ class ControlMent(Ment):
     @property
     def condition(self) -> bool:
         if isinstance(self._condition, bool):
-            return lambda x: self._condition
+            return MentOutcome(self._condition)
         elif isinstance(self._condition, MentOutcome):
             return self._condition
 
@@ -103,11 +103,5 @@ class ControlMent(Ment):
             else:
                 return super().matrix()
 
-    def get_povm(self, angle: float | None = None, *args, **kwargs):
-        if self.condition(*args, **kwargs):
-            return self._true_ment.get_povm(angle, *args, **kwargs)
-        else:
-            return super().get_povm(angle, *args, **kwargs)
-
 
 ControlledMent = ControlMent
diff --git a/mentpy/operators/ment.py b/mentpy/operators/ment.py
index 722123b..bbfa483 100644
--- a/mentpy/operators/ment.py
+++ b/mentpy/operators/ment.py
@@ -117,7 +117,9 @@ class MentOutcome:
         return self._binary_operation(lambda x, y: x ^ y, other)
 
     def __invert__(self):
-        return MentOutcome(lambda x: not self._outcome(x))
+        return MentOutcome(
+            lambda x: not self._outcome(x), cond_nodes=self._cond_nodes
+        )
 
 
 class Ment:
diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index b01aae1..007d75f 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -231,6 +231,8 @@ class NumpySimulatorDM(BaseSimulator):
             for i in self.schedule_measure:
                 if i in self.mbqcircuit.trainable_nodes:
                     angle = angles[self.mbqcircuit.trainable_nodes.index(i)]
+                elif isinstance(self.mbqcircuit[i], ControlledMent):
+                    angle = None
                 else:
                     angle = self.mbqcircuit[i].angle
 
@@ -255,9 +257,8 @@ class NumpySimulatorDM(BaseSimulator):
                     raise ValueError("WTF")
                 if node in self.mbqcircuit.trainable_nodes:
                     angle = angles[self.mbqcircuit.trainable_nodes.index(node)]
-                    if isinstance(self.mbqcircuit[node], ControlledMent):
-                        cond_angle = self.mbqcircuit[node].angle(self.outcomes) or angle
-                        angle = cond_angle
+                elif isinstance(self.mbqcircuit[node], ControlledMent):
+                    angle = None
                 elif isinstance(self.mbqcircuit[node], Ment):
                     angle = self.mbqcircuit[node].angle
 
@@ -324,9 +325,12 @@ class NumpySimulatorDM(BaseSimulator):
         prob0 = np.real(np.trace(self.qstate @ p0_extended))
         prob1 = np.real(np.trace(self.qstate @ p1_extended))
 
-        COND = (mode == "expectation" or mode == "exp") and ment.plane == "Z"
+        plane = ment.plane
+        if isinstance(ment, ControlledMent):
+            plane = ment.plane(self.outcomes)
+        COND = (mode == "expectation" or mode == "exp") and plane == "Z"
 
-        if not force0 or ment.plane == "Z":
+        if not force0 or plane == "Z":
             if COND:
                 outcome = prob1 / (prob0 + prob1)
             else:
-- 
2.43.0


From 80ef315ffa5cfbe075ac7704e603f4235a23a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:41 +0000
Subject: [PATCH 08/23] fix: stacking and merging mixed up nodes of circuits
 built in another node order, lost cancelling edges and shifted conditions

---
 mentpy/mbqc/mbqcircuit.py           | 78 +++++++++++++++--------------
 mentpy/operators/controlled_ment.py |  7 +++
 mentpy/operators/ment.py            | 12 +++++
 3 files changed, 59 insertions(+), 38 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index ebcf00e..5b11ee4 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -86,7 +86,7 @@ class MBQCircuit:
             if measurement_order is not None:
                 measurement_order = [mapping[i] for i in measurement_order]
             if measurements is not None:
-                measurements = {mapping[k]: v for k, v in measurements.items()}
+                measurements = _relabel_measurements(measurements, mapping)
 
         self._graph = graph
 
@@ -473,10 +473,10 @@ def merge(state1: MBQCircuit, state2: MBQCircuit, along=[]) -> MBQCircuit:
         if i not in state1.output_nodes or j not in state2.input_nodes:
             raise ValueError(f"Cannot merge states at indices {i} and {j}")
 
-    graph = nx.disjoint_union(state1.graph, state2.graph)
     along1, along2 = zip(*along)
+    graph, measurements, joined = _join(state1, state2, along)
 
-    input_nodes = state1.input_nodes + [
+    input_nodes = [joined.get(i, i) for i in state1.input_nodes] + [
         i + len(state1.graph) for i in state2.input_nodes if i not in along2
     ]
     output_nodes = []
@@ -496,16 +496,6 @@ def merge(state1: MBQCircuit, state2: MBQCircuit, along=[]) -> MBQCircuit:
         if indx not in added_ind
     ]
 
-    measurements = dict(state1.measurements)
-    measurements.update(
-        {i + len(state1.graph): ment for i, ment in state2.measurements.items()}
-    )
-
-    for i, j in along:
-        graph.add_edge(i, j + len(state1.graph))
-        graph = nx.contracted_edge(graph, (j + len(state1.graph), i), self_loops=False)
-        del measurements[i]
-
     return MBQCircuit(graph, input_nodes, output_nodes, measurements=measurements)
 
 
@@ -550,7 +540,7 @@ def _vstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
     -----
     states
     """
-    graph = nx.disjoint_union(state1.graph, state2.graph)
+    graph, measurements, _ = _join(state1, state2, [])
     input_nodes = state1.input_nodes + [
         i + len(state1.graph) for i in state2.input_nodes
     ]
@@ -558,11 +548,6 @@ def _vstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
         i + len(state1.graph) for i in state2.output_nodes
     ]
 
-    measurements = dict(state1.measurements)
-    measurements.update(
-        {i + len(state1.graph): plane for i, plane in state2.measurements.items()}
-    )
-
     # TODO: Compute flow and partial order
     return MBQCircuit(graph, input_nodes, output_nodes, measurements=measurements)
 
@@ -592,29 +577,46 @@ def _hstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
         )
 
     # create new graph
-    graph = nx.disjoint_union(state1.graph, state2.graph)
+    along = list(zip(state1.output_nodes, state2.input_nodes))
+    graph, measurements, joined = _join(state1, state2, along)
 
-    nodes1 = list(state1.graph.nodes())
-    nodes2 = list(state2.graph.nodes())
+    input_nodes = [joined.get(i, i) for i in state1.input_nodes]
+    output_nodes = [j + len(state1.graph) for j in state2.output_nodes]
 
-    for i in range(len(state1.output_nodes)):
-        graph.add_edge(
-            nodes1.index(state1.output_nodes[i]),
-            nodes2.index(state2.input_nodes[i]) + len(nodes1),
-        )
+    # TODO: Compute flow and partial order
+    return MBQCircuit(graph, input_nodes, output_nodes, measurements=measurements)
 
-    input_nodes = [nodes1.index(i) for i in state1.input_nodes]
-    output_nodes = [nodes2.index(j) + len(nodes1) for j in state2.output_nodes]
 
-    measurements = {nodes1.index(i): ment for i, ment in state1.measurements.items()}
-    measurements.update(
-        {nodes2.index(i) + len(nodes1): ment for i, ment in state2.measurements.items()}
-    )
+def _join(state1: MBQCircuit, state2: MBQCircuit, along):
+    """Returns the graph and the measurements of two states whose nodes i and j are
+    identified for each (i, j) in along. The nodes of the second state are shifted by
+    the size of the first one. Edges that both states have cancel, as CZ is its own
+    inverse."""
+    shifted = {j: j + len(state1.graph) for j in state2.graph.nodes()}
+    joined = {i: shifted[j] for i, j in along}
+    mapping1 = {i: joined.get(i, i) for i in state1.graph.nodes()}
+
+    graph = GraphState()
+    graph.add_nodes_from(i for i in state1.graph.nodes() if i not in joined)
+    graph.add_nodes_from(shifted.values())
+    graph.add_edges_from((mapping1[u], mapping1[v]) for u, v in state1.graph.edges())
+    for u, v in state2.graph.edges():
+        if graph.has_edge(shifted[u], shifted[v]):
+            graph.remove_edge(shifted[u], shifted[v])
+        else:
+            graph.add_edge(shifted[u], shifted[v])
 
-    for i, j in zip(state1.output_nodes, state2.input_nodes):
-        graph.add_edge(i, j + len(state1.graph))
-        graph = nx.contracted_edge(graph, (j + len(state1.graph), i), self_loops=False)
+    measurements = _relabel_measurements(state1.measurements, mapping1)
+    for i in joined.values():
         del measurements[i]
+    measurements.update(_relabel_measurements(state2.measurements, shifted))
 
-    # TODO: Compute flow and partial order
-    return MBQCircuit(graph, input_nodes, output_nodes, measurements=measurements)
+    return graph, measurements, joined
+
+
+def _relabel_measurements(measurements, mapping):
+    """Relabels the nodes of the measurements and of the conditions they depend on"""
+    return {
+        mapping[node]: ment.relabel(mapping) if isinstance(ment, ControlMent) else ment
+        for node, ment in measurements.items()
+    }
diff --git a/mentpy/operators/controlled_ment.py b/mentpy/operators/controlled_ment.py
index 0257953..94b3af0 100644
--- a/mentpy/operators/controlled_ment.py
+++ b/mentpy/operators/controlled_ment.py
@@ -87,6 +87,13 @@ class ControlMent(Ment):
             self._plane,
         )
 
+    def relabel(self, mapping):
+        """Return a copy whose condition refers to the relabeled nodes."""
+        ment = self.copy()
+        if isinstance(self._condition, MentOutcome):
+            ment._condition = self._condition.relabel(mapping)
+        return ment
+
     def matrix(self, angle: float | None = None, *args, **kwargs):
         """Return the matrix of the controlled measurement operator."""
         if (not self.is_trainable()) and (angle is not None):
diff --git a/mentpy/operators/ment.py b/mentpy/operators/ment.py
index bbfa483..390d623 100644
--- a/mentpy/operators/ment.py
+++ b/mentpy/operators/ment.py
@@ -49,6 +49,18 @@ class MentOutcome:
         except:
             raise UserWarning("Could not evaluate callable at given")
 
+    def relabel(self, mapping):
+        """Return the same outcome for a circuit whose nodes were relabeled."""
+        if all(old == new for old, new in mapping.items()):
+            return self
+        return MentOutcome(
+            lambda x: self._outcome(
+                {old: x[new] for old, new in mapping.items() if new in x}
+            ),
+            node_id=mapping.get(self._node_id, self._node_id),
+            cond_nodes={mapping.get(node, node) for node in self._cond_nodes},
+        )
+
     def _binary_operation(self, operation, other):
         if isinstance(other, (bool, int)):
             return MentOutcome(
-- 
2.43.0


From e717f7ad34951bfff703f5beb481c577ceb24c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 09/23] fix: numpy simulators dropped entangling gates that did
 not fit the window and refused windows that fit

---
 mentpy/simulators/base_simulator.py  | 47 ++++++++++++++++++++++++++
 mentpy/simulators/np_simulator_dm.py | 49 +++-------------------------
 mentpy/simulators/np_simulator_sv.py | 49 +++-------------------------
 3 files changed, 57 insertions(+), 88 deletions(-)

diff --git a/mentpy/simulators/base_simulator.py b/mentpy/simulators/base_simulator.py
index de9eb08..01571b0 100644
--- a/mentpy/simulators/base_simulator.py
+++ b/mentpy/simulators/base_simulator.py
@@ -67,6 +67,53 @@ class BaseSimulator(abc.ABC):
         """Sets the outcomes of the simulation."""
         self._outcomes = outcomes
 
+    def _prepare_window(self):
+        """Puts the nodes that are not measured at the end of the schedule, and checks
+        that the window holds the qubits that are needed at each step."""
+        circuit, nodes = self.mbqcircuit, self.schedule
+        if len(nodes) != len(circuit) or set(nodes) != set(circuit.graph.nodes):
+            raise ValueError(f"Schedule {nodes} does not list each node once.")
+        for node in circuit.outputc:
+            if circuit[node] is None:
+                raise ValueError(f"Node {node} has no measurement.")
+
+        self.schedule_measure = [i for i in nodes if circuit[i] is not None]
+        self.schedule = self.schedule_measure + [i for i in nodes if circuit[i] is None]
+
+        position = {node: i for i, node in enumerate(self.schedule)}
+        required = max(
+            [1, len(circuit) - len(self.schedule_measure)]
+            + [position[i] + 1 for i in circuit.input_nodes]
+            + [
+                position[j] - position[i] + 1
+                for i in self.schedule_measure
+                for j in circuit.graph.neighbors(i)
+            ]
+        )
+
+        if self.window_size == 1:
+            default = max(required, len(circuit.input_nodes) + 1)
+            self.window_size = min(default, len(circuit))
+
+        if self.window_size > len(circuit):
+            raise ValueError(
+                f"Window size is set to {self.window_size}, but the circuit only has {len(circuit)} nodes."
+            )
+
+        if self.window_size < required and not self.dev_mode:
+            raise ValueError(
+                f"Window size is set to {self.window_size}, but this schedule needs at least {required}."
+            )
+
+    def _initial_register(self, input_state):
+        """Returns the input state extended to the nodes of the first window."""
+        nodes = self.schedule[: self.window_size]
+        inputs = list(self.mbqcircuit.input_nodes)
+        order = inputs + [i for i in nodes if i not in inputs]
+        for _ in range(len(order) - len(inputs)):
+            input_state = np.kron(input_state, np.array([1, 1]) / np.sqrt(2))
+        return self.reorder_qubits(input_state, order, nodes)
+
     def __call__(self, angles: List[float], **kwargs):
         return self.run(angles, **kwargs)
 
diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index 007d75f..fef46d0 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -45,50 +45,18 @@ class NumpySimulatorDM(BaseSimulator):
             raise NotImplementedError("Numpy simulator does not support force0=False.")
 
         # TODO: FIND SCHEDULE IF NOT PROVIDED
-        if self.schedule is not None:
-            self.schedule_measure = [
-                i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
-            ]
-        elif mbqcircuit.measurement_order is not None:
-            # remove output nodes from the measurement order
-            self.schedule_measure = [
-                i
-                for i in mbqcircuit.measurement_order
-                if i not in mbqcircuit.quantum_output_nodes
-            ]
+        if self.schedule is None:
             self.schedule = mbqcircuit.measurement_order
-            if self.window_size == 1 and mbqcircuit.flow is not None:
-                self.window_size = len(mbqcircuit.input_nodes) + 1
-        else:
+        if self.schedule is None:
             raise ValueError(
                 "Schedule must be provided for numpy simulator as the MBQCircuit does not have a flow."
             )
+        self._prepare_window()
 
-        input_state = self.reorder_qubits(
-            input_state,
-            self.mbqcircuit.input_nodes,
-            self.schedule[: len(self.mbqcircuit.input_nodes)],
-        )
-        self.input_state = input_state
-
-        n_qubits_input = len(mbqcircuit.input_nodes)
-
-        if n_qubits_input > self.window_size:
-            raise ValueError(
-                f"Input state has {n_qubits_input} qubits, but window size is set to {self.window_size}."
-                " Input state must have at most as many qubits as the window size minus one."
-            )
-
-        if self.window_size > len(self.schedule_measure):
-            raise ValueError(
-                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule_measure)} measurements."
-            )
+        self.input_state = self._initial_register(input_state)
 
         self.current_measurement = 0
 
-        for i in range(self.window_size - n_qubits_input):
-            self.input_state = np.kron(self.input_state, qubit_plus)
-
         self.qstate = calc.pure2density(self.input_state)
         # get subgraph of the first window_size nodes
         self.subgraph = self.mbqcircuit.graph.subgraph(
@@ -288,14 +256,7 @@ class NumpySimulatorDM(BaseSimulator):
         self.current_measurement = 0
 
         if input_state is not None:
-            input_state = self.reorder_qubits(
-                input_state,
-                self.mbqcircuit.input_nodes,
-                self.schedule[: len(self.mbqcircuit.input_nodes)],
-            )
-            self.input_state = input_state
-            for i in range(self.window_size - len(self.mbqcircuit.input_nodes)):
-                self.input_state = np.kron(self.input_state, qubit_plus)
+            self.input_state = self._initial_register(input_state)
 
         self.qstate = calc.pure2density(self.input_state)
 
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index e7491f8..9ad7c11 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -59,50 +59,18 @@ class NumpySimulatorSV(BaseSimulator):
                     )
 
         # TODO: FIND SCHEDULE IF NOT PROVIDED
-        if self.schedule is not None:
-            self.schedule_measure = [
-                i for i in self.schedule if i not in mbqcircuit.output_nodes
-            ]
-        elif mbqcircuit.measurement_order is not None:
-            # remove output nodes from the measurement order
-            self.schedule_measure = [
-                i
-                for i in mbqcircuit.measurement_order
-                if i not in mbqcircuit.output_nodes
-            ]
+        if self.schedule is None:
             self.schedule = mbqcircuit.measurement_order
-            if self.window_size == 1 and mbqcircuit.flow is not None:
-                self.window_size = len(mbqcircuit.input_nodes) + 1
-        else:
+        if self.schedule is None:
             raise ValueError(
                 "Schedule must be provided for numpy simulator as the MBQCircuit does not have a flow."
             )
+        self._prepare_window()
 
-        input_state = self.reorder_qubits(
-            input_state,
-            self.mbqcircuit.input_nodes,
-            self.schedule[: len(self.mbqcircuit.input_nodes)],
-        )
-        self.input_state = input_state
-
-        n_qubits_input = len(mbqcircuit.input_nodes)
-
-        if n_qubits_input > self.window_size:
-            raise ValueError(
-                f"Input state has {n_qubits_input} qubits, but window size is set to {self.window_size}."
-                " Input state must have at most as many qubits as the window size minus one."
-            )
-
-        if self.window_size > len(self.schedule_measure):
-            raise ValueError(
-                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule_measure)} measurements."
-            )
+        self.input_state = self._initial_register(input_state)
 
         self.current_measurement = 0
 
-        for i in range(self.window_size - n_qubits_input):
-            self.input_state = np.kron(self.input_state, qubit_plus)
-
         self.qstate = self.input_state
         # get subgraph of the first window_size nodes
         self.subgraph = self.mbqcircuit.graph.subgraph(
@@ -301,14 +269,7 @@ class NumpySimulatorSV(BaseSimulator):
         self.current_measurement = 0
 
         if input_state is not None:
-            input_state = self.reorder_qubits(
-                input_state,
-                self.mbqcircuit.input_nodes,
-                self.schedule[: len(self.mbqcircuit.input_nodes)],
-            )
-            self.input_state = input_state
-            for i in range(self.window_size - len(self.mbqcircuit.input_nodes)):
-                self.input_state = np.kron(self.input_state, qubit_plus)
+            self.input_state = self._initial_register(input_state)
 
         self.qstate = self.input_state
 
-- 
2.43.0


From fb978fcc87aa40a4ea72c6a0d4fc12e58b45cf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 10/23] fix: numpy simulators mishandled measured output nodes
 and outcomes of zero or rounded probability

---
 mentpy/calculator/state_ops.py       |  8 ++++----
 mentpy/simulators/np_simulator_dm.py |  3 ++-
 mentpy/simulators/np_simulator_sv.py | 15 ++++-----------
 3 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/mentpy/calculator/state_ops.py b/mentpy/calculator/state_ops.py
index a978593..b7d7572 100644
--- a/mentpy/calculator/state_ops.py
+++ b/mentpy/calculator/state_ops.py
@@ -66,10 +66,10 @@ def partial_trace_pure_state(psi, indices):
     num_qubits = int(np.log2(psi.shape[0]))
     remaining_qubits = sorted(set(range(num_qubits)) - set(indices))
     tensor = psi.reshape([2] * num_qubits).transpose(remaining_qubits + indices)
-    traced_tensor = tensor.reshape([-1] + [2] * len(indices)).sum(
-        axis=tuple(range(1, 1 + len(indices)))
-    )
-    traced_tensor = traced_tensor.reshape(-1)
+    # the traced qubits are in a product state with the rest, so every non-zero
+    # branch is the state of the rest
+    branches = tensor.reshape(2 ** len(remaining_qubits), -1)
+    traced_tensor = branches[:, np.argmax(np.linalg.norm(branches, axis=0))].copy()
     traced_tensor /= np.linalg.norm(traced_tensor)
     return traced_tensor
 
diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index fef46d0..50da4f3 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -295,7 +295,8 @@ class NumpySimulatorDM(BaseSimulator):
             if COND:
                 outcome = prob1 / (prob0 + prob1)
             else:
-                outcome = np.random.choice([0, 1], p=[prob0, prob1] / (prob0 + prob1))
+                p = np.clip([prob0, prob1], 0, None)
+                outcome = np.random.choice([0, 1], p=p / np.sum(p))
         else:
             if prob0 < 1e-4:
                 outcome = 1  # important when measuring Z's -- should make pretty
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index 9ad7c11..1b131d0 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -243,18 +243,10 @@ class NumpySimulatorSV(BaseSimulator):
                 self.qstate, outcome = self.measure(angle)
                 self.outcomes[node] = outcome
 
-        # check if output nodes have a measurement, if so, measure them
-        for i in self.mbqcircuit.output_nodes:
-            if isinstance(self.mbqcircuit[i], Ment):
-                self.qstate, outcome = self.measure_ment(
-                    self.mbqcircuit[i], self.mbqcircuit[i].angle, i, force0=self.force0
-                )
-                self.outcomes[i] = outcome
-
         current_output_order = self.current_simulated_nodes()
         if self.mbqcircuit.quantum_output_nodes != current_output_order:
             self.qstate = self.reorder_qubits(
-                self.qstate, current_output_order, self.mbqcircuit.output_nodes
+                self.qstate, current_output_order, self.mbqcircuit.quantum_output_nodes
             )
 
         if output_form.lower() == "dm" or output_form.lower() == "densitymatrix":
@@ -305,9 +297,10 @@ class NumpySimulatorSV(BaseSimulator):
         prob1 = np.dot(np.conj(self.qstate), p1_extended @ self.qstate)
 
         if not force0:
-            outcome = np.random.choice([0, 1], p=[prob0, prob1] / (prob0 + prob1))
+            p = np.clip(np.real([prob0, prob1]), 0, None)
+            outcome = np.random.choice([0, 1], p=p / np.sum(p))
         else:
-            outcome = 0
+            outcome = 1 if np.real(prob0) < 1e-4 else 0
 
         if outcome == 0:
             self.qstate = p0_extended @ self.qstate
-- 
2.43.0


From bb0de930eae6cf408a3452e6d656ef203ea4e695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 11/23] fix: a reset refused for a wrong input state replaced
 the stored input state

---
 mentpy/simulators/base_simulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mentpy/simulators/base_simulator.py b/mentpy/simulators/base_simulator.py
index 01571b0..277e164 100644
--- a/mentpy/simulators/base_simulator.py
+++ b/mentpy/simulators/base_simulator.py
@@ -109,6 +109,10 @@ class BaseSimulator(abc.ABC):
         """Returns the input state extended to the nodes of the first window."""
         nodes = self.schedule[: self.window_size]
         inputs = list(self.mbqcircuit.input_nodes)
+        if np.shape(input_state) != (2 ** len(inputs),) and len(inputs) > 0:
+            raise ValueError(
+                f"Input state has shape {np.shape(input_state)}, expected {(2 ** len(inputs),)}."
+            )
         order = inputs + [i for i in nodes if i not in inputs]
         for _ in range(len(order) - len(inputs)):
             input_state = np.kron(input_state, np.array([1, 1]) / np.sqrt(2))
-- 
2.43.0


From 49ae2d84dba4532059b9e434272f00ecd596733a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 12/23] fix: PennyLane backend ignored input_state in run,
 measured outputs and other planes, and matched angles by dictionary order

---
 mentpy/simulators/pennylane_simulator.py | 51 ++++++++++++++----------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/mentpy/simulators/pennylane_simulator.py b/mentpy/simulators/pennylane_simulator.py
index 298f0cf..697ef91 100644
--- a/mentpy/simulators/pennylane_simulator.py
+++ b/mentpy/simulators/pennylane_simulator.py
@@ -45,13 +45,18 @@ class PennylaneSimulator(BaseSimulator):
             kwargs.pop("circuit_noise", None),
             p=kwargs.pop("p", 0),
         )
-        super().__init__(mbqcircuit, input_state)
+        super().__init__(mbqcircuit, np.array(input_state))
 
         if len(mbqcircuit.controlled_nodes) > 0:
             raise NotImplementedError(
                 "Controlled nodes are not supported with the PennyLane simulator."
             )
 
+        if len(mbqcircuit.classical_output_nodes) > 0:
+            raise NotImplementedError(
+                "Measured output nodes are not supported with the PennyLane simulator."
+            )
+
     def measure(self, angle: float, plane: str = "XY"):
         raise NotImplementedError
 
@@ -61,37 +66,39 @@ class PennylaneSimulator(BaseSimulator):
                 f"Number of angles ({len(angles)}) does not match number of trainable nodes ({len(self.mbqcircuit.trainable_nodes)})."
             )
 
+        if kwargs.get("input_state") is not None:
+            self.reset(input_state=kwargs.get("input_state"))
+        kwargs.pop("input_state", None)
+
         # extend angles to all nodes
 
         extended_angles = []
 
-        if len(self.mbqcircuit.trainable_nodes) != len(self.mbqcircuit.outputc):
-            for i in self.mbqcircuit.outputc:
-                if i in self.mbqcircuit.trainable_nodes:
-                    angle = angles[self.mbqcircuit.trainable_nodes.index(i)]
-                else:
-                    plane = self.mbqcircuit.planes[i]
-                    if plane == "X":
-                        angle = 0
-                    elif plane == "Y":
-                        angle = np.pi / 2
-                    elif plane == "XY":
-                        angle = self.mbqcircuit[i].angle
-                    else:
-                        raise ValueError(
-                            f"Plane {plane} is not supported for pennylane simulator."
-                        )
-
-                extended_angles.append(angle)
-        else:
-            extended_angles = angles
+        for i in self.mbqcircuit.outputc:
+            plane = self.mbqcircuit.planes[i]
+            if plane == "X":
+                angle = 0
+            elif plane == "Y":
+                angle = np.pi / 2
+            elif plane != "XY":
+                raise ValueError(
+                    f"Plane {plane} is not supported for pennylane simulator."
+                )
+            elif i in self.mbqcircuit.trainable_nodes:
+                angle = angles[self.mbqcircuit.trainable_nodes.index(i)]
+            else:
+                angle = self.mbqcircuit[i].angle
+
+            extended_angles.append(angle)
 
         return self.circuit(extended_angles, st=self.input_state, **kwargs)
 
     def reset(self, input_state=None):
         if input_state is None:
             input_state = self.input_state
-        self.input_state = input_state
+        if np.shape(input_state) != (2 ** len(self.mbqcircuit.input_nodes),):
+            raise ValueError(f"Input state has a wrong shape {np.shape(input_state)}.")
+        self.input_state = np.array(input_state)
 
 
 def mbqcircuit_to_circuit(
-- 
2.43.0


From 33e933c544d2a672cdce69ebd7208afc465eb325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:47 +0000
Subject: [PATCH 13/23] fix: amplitude and phase damping noise could not be
 used in the PennyLane backend

---
 mentpy/simulators/pennylane_simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/simulators/pennylane_simulator.py b/mentpy/simulators/pennylane_simulator.py
index 697ef91..d72e922 100644
--- a/mentpy/simulators/pennylane_simulator.py
+++ b/mentpy/simulators/pennylane_simulator.py
@@ -132,9 +132,9 @@ def mbqcircuit_to_circuit(
                 if circuit_noise == "depolarizing":
                     qml.DepolarizingChannel(wires=i, *args, **kwargs)
                 elif circuit_noise == "amplitude_damping":
-                    qml.AmplitudeDamping(wires=i, *args, **kwargs)
+                    qml.AmplitudeDamping(wires=i, gamma=kwargs["p"])
                 elif circuit_noise == "phase_damping":
-                    qml.PhaseDamping(wires=i, *args, **kwargs)
+                    qml.PhaseDamping(wires=i, gamma=kwargs["p"])
                 elif circuit_noise == "phase_flip":
                     qml.PhaseFlip(wires=i, *args, **kwargs)
                 elif circuit_noise == "generalized_amplitude_damping":
-- 
2.43.0


From 6fa41e1685c48a2e729b916e5ed959d7b1ee6210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 14/23] fix: random coordinate descent overwrote the caller's
 starting point and the iterates given to callbacks

---
 mentpy/optimizers/rcd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mentpy/optimizers/rcd.py b/mentpy/optimizers/rcd.py
index c51b93b..e956480 100644
--- a/mentpy/optimizers/rcd.py
+++ b/mentpy/optimizers/rcd.py
@@ -40,6 +40,7 @@ class RCDOptimizer(BaseOptimizer):
 
     def step(self, f, x, i, **kwargs):
         """Take a step using the random coordinate descent optimizer."""
+        x = np.array(x, dtype=float)  # do not modify the array of the caller
         coord_idx = random.randint(0, len(x) - 1)
         delta = np.zeros_like(x)
         delta[coord_idx] = 1e-5
@@ -78,6 +79,7 @@ class RCDOptimizer(BaseOptimizer):
 
         for i in range(num_iters):
             # Random coordinate descent optimizer
+            x = np.array(x, dtype=float)  # do not modify the array of the caller
             coord_idx = random.randint(0, len(x) - 1)
             coord_iters[coord_idx] += 1
             delta = np.zeros_like(x)
-- 
2.43.0


From 82098f14088243cbbb9e18eb7c03eba79eb1c755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 15/23] fix: datasets with one sample and shuffled splits of
 lists failed

---
 mentpy/utils/generate_data.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mentpy/utils/generate_data.py b/mentpy/utils/generate_data.py
index 9c7c8aa..d8d95ad 100644
--- a/mentpy/utils/generate_data.py
+++ b/mentpy/utils/generate_data.py
@@ -35,7 +35,7 @@ def generate_random_dataset(
 ) -> tuple:
     r"Return random training and test data (input, target) for a given unitary gate ``unitary``."
     n_qubits = int(np.log2(unitary.shape[0]))
-    random_inputs = generate_haar_random_states(n_qubits, n_samples=n_samples)
+    random_inputs = [_generate_haar_random_state(n_qubits) for _ in range(n_samples)]
     random_targets = [(unitary @ st.T).T for st in random_inputs]
     return train_test_split(random_inputs, random_targets, test_size=test_size)
 
@@ -48,8 +48,14 @@ def train_test_split(inputs, targets, test_size: float = 0.3, randomize=False) -
 
     if randomize:
         shuffled_indices = np.random.permutation(n_samples)
-        inputs = inputs[shuffled_indices]
-        targets = targets[shuffled_indices]
+        if isinstance(inputs, np.ndarray):
+            inputs = inputs[shuffled_indices]
+        else:
+            inputs = [inputs[i] for i in shuffled_indices]
+        if isinstance(targets, np.ndarray):
+            targets = targets[shuffled_indices]
+        else:
+            targets = [targets[i] for i in shuffled_indices]
 
     return (inputs[:n_train_samples], targets[:n_train_samples]), (
         inputs[n_train_samples:],
@@ -95,8 +101,7 @@ def generate_random_dataset_noisy(
         raise ValueError("noise_level must be between 0 and 1")
 
     n_qubits = int(np.log2(unitary.shape[0]))
-    random_inputs = generate_haar_random_states(n_qubits, n_samples=n_samples)
-    n_samples = len(random_inputs)
+    random_inputs = [_generate_haar_random_state(n_qubits) for _ in range(n_samples)]
     n_test_samples = int(n_samples * test_size)
     n_train_samples = n_samples - n_test_samples
 
-- 
2.43.0


From 797b4af893583eb66bbdd44dc38a790b82266d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 16/23] fix: adding an edge renamed the nodes of circuits built
 without relabeling

---
 mentpy/mbqc/mbqcircuit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 5b11ee4..41876b2 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -451,6 +451,7 @@ class MBQCircuit:
                 self.output_nodes,
                 measurements=self.measurements,
                 default_measurement=self._default_measurement,
+                relabel_indices=False,
             )
         except Exception as e:
             raise ValueError(f"Cannot add edges {edges}.\n" + str(e))
-- 
2.43.0


From e385cdb0f4122bca0bbe55a117b494121618f307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 17/23] fix: adaptive random coordinate descent used different
 step sizes in its two entry points

---
 mentpy/optimizers/rcd.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mentpy/optimizers/rcd.py b/mentpy/optimizers/rcd.py
index e956480..92c0dbe 100644
--- a/mentpy/optimizers/rcd.py
+++ b/mentpy/optimizers/rcd.py
@@ -74,21 +74,19 @@ class RCDOptimizer(BaseOptimizer):
     ):
         """Optimize a function f using the random coordinate descent optimizer."""
         x = x0
-        coord_iters = np.zeros(len(x))
         norm = []
 
         for i in range(num_iters):
             # Random coordinate descent optimizer
             x = np.array(x, dtype=float)  # do not modify the array of the caller
             coord_idx = random.randint(0, len(x) - 1)
-            coord_iters[coord_idx] += 1
             delta = np.zeros_like(x)
             delta[coord_idx] = 1e-5
             partial_gradient = (f(x + delta) - f(x - delta)) / (2 * delta[coord_idx])
 
             current_step_size = self.step_size
             if self.adaptive:
-                current_step_size /= np.sqrt(coord_iters[coord_idx])
+                current_step_size /= np.sqrt(i + 1)
 
             x[coord_idx] -= current_step_size * partial_gradient
 
-- 
2.43.0


From c96160f35db724f21df3a237e6697af47c88c6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 18/23] fix: outcomes whose probability is a rounding error
 could be sampled

---
 mentpy/simulators/np_simulator_dm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index 50da4f3..cebee81 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -295,7 +295,8 @@ class NumpySimulatorDM(BaseSimulator):
             if COND:
                 outcome = prob1 / (prob0 + prob1)
             else:
-                p = np.clip([prob0, prob1], 0, None)
+                # probabilities that are only rounding errors must not be sampled
+                p = np.array([x if x > 1e-12 else 0 for x in (prob0, prob1)])
                 outcome = np.random.choice([0, 1], p=p / np.sum(p))
         else:
             if prob0 < 1e-4:
-- 
2.43.0


From 753c26b15139b39eff99b59ad26a9aea603ba013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:37 +0000
Subject: [PATCH 19/23] fix: unknown noise types gave datasets without training
 targets

---
 mentpy/utils/generate_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mentpy/utils/generate_data.py b/mentpy/utils/generate_data.py
index d8d95ad..8c7a0b0 100644
--- a/mentpy/utils/generate_data.py
+++ b/mentpy/utils/generate_data.py
@@ -100,6 +100,9 @@ def generate_random_dataset_noisy(
     if noise_level > 1 or noise_level < 0:
         raise ValueError("noise_level must be between 0 and 1")
 
+    if noise_type not in ("brownian", "bitflip"):
+        raise ValueError(f"Noise type {noise_type} is not supported.")
+
     n_qubits = int(np.log2(unitary.shape[0]))
     random_inputs = [_generate_haar_random_state(n_qubits) for _ in range(n_samples)]
     n_test_samples = int(n_samples * test_size)
-- 
2.43.0


From e90cd6ae99468c0abb50799d733198df6d5a49b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:05 +0000
Subject: [PATCH 20/23] fix: generalised flow corrections depended on the hash
 seed

---
 mentpy/mbqc/flow.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index f6f6abf..943be90 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -212,11 +212,13 @@ def gflowaux(graph: GraphState, gamma, inputs, outputs, k, g, l) -> object:
     mapping = graph.index_mapping()
     V = set(graph.nodes())
     C = set()
-    vmol = list(V - outputs)
+    # solutions are vectors over these lists, so they follow the graph's order
+    vmol = [v for v in graph.nodes() if v not in outputs]
+    correctors = [w for w in graph.nodes() if w in outputs and w not in inputs]
     for u in vmol:
-        submatrix = np.zeros((len(vmol), len(outputs - inputs)), dtype=int)
+        submatrix = np.zeros((len(vmol), len(correctors)), dtype=int)
         for i, v in enumerate(vmol):
-            for j, w in enumerate(outputs - inputs):
+            for j, w in enumerate(correctors):
                 submatrix[i, j] = gamma[mapping[v], mapping[w]]
 
         b = np.zeros((len(vmol), 1), dtype=int)
-- 
2.43.0


From 2b0e5bbbdd3fdf1a1a2444cc159099f24f29999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:32 +0000
Subject: [PATCH 21/23] fix: flow search failed on plain networkx graphs
 without causal flow

---
 mentpy/mbqc/flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index 943be90..4e03071 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -209,7 +209,7 @@ def find_gflow(graph: GraphState, input_nodes, output_nodes) -> object:
 def gflowaux(graph: GraphState, gamma, inputs, outputs, k, g, l) -> object:
     """Aux function for gflow"""
 
-    mapping = graph.index_mapping()
+    mapping = {v: i for i, v in enumerate(graph.nodes())}
     V = set(graph.nodes())
     C = set()
     # solutions are vectors over these lists, so they follow the graph's order
-- 
2.43.0


From 6a60b7f06c07535bd8e1459209f372e98e596248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 22/23] fix: dev_mode measured nodes whose neighbours were
 outside the window

---
 mentpy/simulators/base_simulator.py  | 7 +++++++
 mentpy/simulators/np_simulator_dm.py | 4 ++++
 mentpy/simulators/np_simulator_sv.py | 4 ++++
 3 files changed, 15 insertions(+)

diff --git a/mentpy/simulators/base_simulator.py b/mentpy/simulators/base_simulator.py
index 277e164..df3edd4 100644
--- a/mentpy/simulators/base_simulator.py
+++ b/mentpy/simulators/base_simulator.py
@@ -105,6 +105,13 @@ class BaseSimulator(abc.ABC):
                 f"Window size is set to {self.window_size}, but this schedule needs at least {required}."
             )
 
+    def _is_ready(self, node):
+        """Returns whether the node is measured and entangled with all its neighbors."""
+        pending = self.schedule[self.current_measurement + self.window_size :]
+        return self.mbqcircuit[node] is not None and not any(
+            i in pending for i in self.mbqcircuit.graph.neighbors(node)
+        )
+
     def _initial_register(self, input_state):
         """Returns the input state extended to the nodes of the first window."""
         nodes = self.schedule[: self.window_size]
diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index cebee81..1dbbd0e 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -135,10 +135,13 @@ class NumpySimulatorDM(BaseSimulator):
                     cond = True
                 else:
                     cond = futnods[0] in self.current_simulated_nodes()
+                cond = cond and self._is_ready(node)
                 if cond:
                     current_ment = self.mbqcircuit[node].copy()
                     indx = self.current_simulated_nodes().index(node)
                     break
+            else:
+                raise ValueError("No node can be measured within this window.")
 
         self.qstate, outcome = self.measure_ment(
             current_ment, angle, indx, force0=self.force0, mode=mode
@@ -216,6 +219,7 @@ class NumpySimulatorDM(BaseSimulator):
                         cond = True
                     else:
                         cond = futnods[0] in self.current_simulated_nodes()
+                    cond = cond and self._is_ready(node)
                     if cond:
                         # current_ment = self.mbqcircuit[node].copy()
                         # indx = self.current_simulated_nodes().index(node)
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index 1b131d0..8ecf5ba 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -148,10 +148,13 @@ class NumpySimulatorSV(BaseSimulator):
                     cond = True
                 else:
                     cond = futnods[0] in self.current_simulated_nodes()
+                cond = cond and self._is_ready(node)
                 if cond:
                     current_ment = self.mbqcircuit[node].copy()
                     indx = self.current_simulated_nodes().index(node)
                     break
+            else:
+                raise ValueError("No node can be measured within this window.")
 
         self.qstate, outcome = self.measure_ment(
             current_ment, angle, indx, force0=self.force0
@@ -228,6 +231,7 @@ class NumpySimulatorSV(BaseSimulator):
                         cond = True
                     else:
                         cond = futnods[0] in self.current_simulated_nodes()
+                    cond = cond and self._is_ready(node)
                     if cond:
                         current_ment = self.mbqcircuit[node].copy()
                         indx = self.current_simulated_nodes().index(node)
-- 
2.43.0


From e80a9aeb9e8f9b3b968ebda2871b42281f185325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 23/23] fix: expressivity estimates called functions that do
 not exist

---
 mentpy/utils/expressivity.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mentpy/utils/expressivity.py b/mentpy/utils/expressivity.py
index 616fdab..50e8891 100644
--- a/mentpy/utils/expressivity.py
+++ b/mentpy/utils/expressivity.py
@@ -92,21 +92,22 @@ def sample_probability_density_of_fidelities(
 ):
     r"""Calculates samples of the probability of fidelities of the given graph state circuit"""
 
-    pattern_simulator = PatternSimulator(graph_state_circuit)
     random_input_states = generate_haar_random_states(
         len(graph_state_circuit.input_nodes), n_samples
     )
+    random_input_states = np.reshape(random_input_states, (n_samples, -1))
     fidelities = []
 
     if backend == "pennylane":
-        qmlcircuit = pattern_simulator.graphstate_to_circuit()
+        pattern_simulator = PatternSimulator(graph_state_circuit, backend=backend)
+        n_angles = len(graph_state_circuit.trainable_nodes)
         for random_st in random_input_states:
-            random_pattern = (
-                2 * np.pi * np.random.rand(pattern_simulator.max_measure_number)
+            random_pattern = 2 * np.pi * np.random.rand(n_angles)
+            final_state = pattern_simulator.run(
+                list(random_pattern), input_state=random_st
             )
-            final_state = qmlcircuit(random_pattern, output="density")
-            fid = qml.math.fidelity(np.kron(random_st.T, random_st), final_state)
-            fidelities.append(fid)
+            fid = np.real(np.conj(random_st) @ np.array(final_state) @ random_st)
+            fidelities.append(float(np.clip(fid, 0, 1)))
 
     # elif backend == "cirq":
     #     for random_st in random_input_states:
-- 
2.43.0

