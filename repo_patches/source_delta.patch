From 6bc379d58936f1288e06a5b01524f07b030f43e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:54 +0000
Subject: [PATCH 01/27] fix: keep the coordinate lookup in step when a node is
 moved or deleted

---
 src/compas_cem/diagrams/mixins/node_mixins.py | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/compas_cem/diagrams/mixins/node_mixins.py b/src/compas_cem/diagrams/mixins/node_mixins.py
index 2ddbf2b..c50c29a 100644
--- a/src/compas_cem/diagrams/mixins/node_mixins.py
+++ b/src/compas_cem/diagrams/mixins/node_mixins.py
@@ -21,6 +21,9 @@ class NodeMixins(object):
         xyz = node.xyz
         x, y, z = xyz
 
+        if key is not None:
+            self._forget_node_gkeys(key)
+
         node = super(NodeMixins, self).add_node(key=key, x=x, y=y, z=z)
         self.gkey_node[self.gkey(xyz)] = node
         return node
@@ -45,9 +48,6 @@ class NodeMixins(object):
         """
         Modifies
         """
-        gkey = self.gkey(xyz)
-        if gkey in self.gkey_node:
-            del self.gkey_node[gkey]
         self.add_node(Node(key, xyz))
 
     def node_xyz(self, key, xyz=None):
@@ -58,6 +58,22 @@ class NodeMixins(object):
             return self.node_coordinates(key)
         self.update_node_xyz(key, xyz)
 
+    def delete_node(self, key):
+        """
+        Deletes a node.
+        """
+        self._forget_node_gkeys(key)
+        super(NodeMixins, self).delete_node(key)
+
+    def _forget_node_gkeys(self, key):
+        """
+        Drops the geometric keys that point to an existing node.
+        """
+        if not self.has_node(key):
+            return
+        for gkey in [gkey for gkey, node in self.gkey_node.items() if node == key]:
+            del self.gkey_node[gkey]
+
     def gkey(self, xyz):
         """
         Gets
-- 
2.43.0


From 2931f4085d3e38152e90bc68ece5146f97907074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:54 +0000
Subject: [PATCH 02/27] fix: a form diagram finds its nodes at their
 equilibrium position

---
 src/compas_cem/diagrams/mixins/node_mixins.py | 8 ++++++++
 src/compas_cem/equilibrium/force.py           | 3 +++
 src/compas_cem/equilibrium/force_numpy.py     | 3 +++
 3 files changed, 14 insertions(+)

diff --git a/src/compas_cem/diagrams/mixins/node_mixins.py b/src/compas_cem/diagrams/mixins/node_mixins.py
index c50c29a..1c4b3e4 100644
--- a/src/compas_cem/diagrams/mixins/node_mixins.py
+++ b/src/compas_cem/diagrams/mixins/node_mixins.py
@@ -74,6 +74,14 @@ class NodeMixins(object):
         for gkey in [gkey for gkey, node in self.gkey_node.items() if node == key]:
             del self.gkey_node[gkey]
 
+    def update_gkeys(self):
+        """
+        Rebuilds the geometric keys from the current coordinates of the nodes.
+        """
+        self.gkey_node.clear()
+        for node in self.nodes():
+            self.gkey_node[self.gkey(self.node_coordinates(node))] = node
+
     def gkey(self, xyz):
         """
         Gets
diff --git a/src/compas_cem/equilibrium/force.py b/src/compas_cem/equilibrium/force.py
index 1ce5924..0a84757 100644
--- a/src/compas_cem/equilibrium/force.py
+++ b/src/compas_cem/equilibrium/force.py
@@ -203,6 +203,9 @@ def form_update(form, node_xyz, trail_forces, reaction_forces, **kwargs):
     for node, xyz in node_xyz.items():
         form.node_attributes(key=node, names=["x", "y", "z"], values=xyz)
 
+    # point lookups must find the nodes at their new location
+    form.update_gkeys()
+
     # assign forces on trail edges
     for edge, tforce in trail_forces.items():
         form.edge_attribute(key=edge, name="force", value=tforce)
diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index 8d4bd18..eb96c17 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -223,6 +223,9 @@ def form_update(form, node_xyz, trail_forces, reaction_forces, **kwargs):
     for node, xyz in node_xyz.items():
         form.node_attributes(key=node, names=["x", "y", "z"], values=xyz)
 
+    # point lookups must find the nodes at their new location
+    form.update_gkeys()
+
     # assign forces on trail edges
     for edge, tforce in trail_forces.items():
         form.edge_attribute(key=edge, name="force", value=tforce)
-- 
2.43.0


From 9b09f22ac5864430bf9328f791f95b8e02576a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:54 +0000
Subject: [PATCH 03/27] fix: rebuilding the trails forgets the origin nodes of
 previous trails

---
 src/compas_cem/diagrams/topology/topology.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 7367fa7..df041d3 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -329,6 +329,10 @@ class TopologyDiagram(Diagram, MeshMixins):
         """
         trails = {}
 
+        # forget the origin nodes from a previous search
+        for node in list(self.origin_nodes()):
+            self.unset_node_attribute(node, "type")
+
         # trail search
         nodes_in_trails = set()
 
-- 
2.43.0


From 634263c1c3acea9e667c2a78929173a3aa44b344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:54 +0000
Subject: [PATCH 04/27] fix: building auxiliary trails again does not lose the
 ones on record

---
 src/compas_cem/diagrams/topology/topology.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index df041d3..e6b2169 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -392,7 +392,8 @@ class TopologyDiagram(Diagram, MeshMixins):
         # automatically create auxiliary trails
         if auxiliary_trails:
 
-            aux_trails = dict()
+            # keep the auxiliary trails that were appended before
+            aux_trails = {n: e for n, e in self.auxiliary_trails(keys=True) if self.has_edge(*e)}
             aux_dir = normalize_vector(self.auxiliary_trail_vector)
 
             for node in unassigned:
@@ -405,7 +406,7 @@ class TopologyDiagram(Diagram, MeshMixins):
                 aux_trails[node] = edge
 
             self.attributes["_auxiliary_trails"] = aux_trails
-            print("Warning: {} auxiliary trails have been added to the topology diagram!".format(len(aux_trails)))
+            print("Warning: {} auxiliary trails have been added to the topology diagram!".format(len(unassigned)))
 
             return self.build_trails(auxiliary_trails=False)
 
-- 
2.43.0


From 773a5aba24b9ea65bd3af68855ed6c4bfaa20587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:54 +0000
Subject: [PATCH 05/27] fix: verbose form-finding works with a single iteration

---
 src/compas_cem/equilibrium/force.py       | 3 +++
 src/compas_cem/equilibrium/force_numpy.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/compas_cem/equilibrium/force.py b/src/compas_cem/equilibrium/force.py
index 0a84757..425f73c 100644
--- a/src/compas_cem/equilibrium/force.py
+++ b/src/compas_cem/equilibrium/force.py
@@ -80,6 +80,9 @@ def equilibrium_state(topology, kmax=None, tmax=100, eta=1e-6, verbose=False, ca
         if kmax < klast:
             klast = kmax
 
+    # residual distance, unknown until two iterations have been completed
+    distance = None
+
     for t in range(tmax):  # max iterations
 
         # store last positions for residual
diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index eb96c17..6eaeff3 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -84,6 +84,9 @@ def equilibrium_state_numpy(topology, tmax=100, eta=1e-6, verbose=False, callbac
     trail_forces = {}
     trail_directions = {}
 
+    # residual distance, unknown until two iterations have been completed
+    distance = None
+
     for t in range(tmax):  # max iterations
 
         # store last positions for residual
-- 
2.43.0


From f1dc95467668ed2dc8e8b40a22e1c5319d99ab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:54 +0000
Subject: [PATCH 06/27] fix: form-finding stops at the last requested sequence

---
 src/compas_cem/equilibrium/force.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/equilibrium/force.py b/src/compas_cem/equilibrium/force.py
index 425f73c..1ea2b82 100644
--- a/src/compas_cem/equilibrium/force.py
+++ b/src/compas_cem/equilibrium/force.py
@@ -88,7 +88,7 @@ def equilibrium_state(topology, kmax=None, tmax=100, eta=1e-6, verbose=False, ca
         # store last positions for residual
         last_xyz = {k: v for k, v in node_xyz.items()}
 
-        for k in range(topology.number_of_sequences()):  # sequences
+        for k in range(klast + 1):  # sequences
 
             for key, trail in topology.trails(keys=True):
 
-- 
2.43.0


From 6649fb8e1e166340a68162ba356ec8c7b9b176c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:54 +0000
Subject: [PATCH 07/27] fix: the numpy engine does not fill a form with NaNs
 when two nodes coincide

---
 src/compas_cem/equilibrium/force_numpy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index 6eaeff3..d7e9fff 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -426,7 +426,11 @@ def normalize_vector_numpy(vector):
     """
     Hand-made vector normalization.
     """
-    return vector / length_vector_numpy(vector)
+    length = length_vector_numpy(vector)
+    # NOTE: a zero-length vector has no direction, and must not produce NaNs
+    if length == 0.0:
+        return vector
+    return vector / length
 
 
 def length_vector_numpy(vector):
-- 
2.43.0


From df83f180aa364755b725dcc84b9faa2a15fe0a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:54 +0000
Subject: [PATCH 08/27] fix: the numpy engine compares the sum of node
 displacements to eta

---
 src/compas_cem/equilibrium/force_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/equilibrium/force_numpy.py b/src/compas_cem/equilibrium/force_numpy.py
index d7e9fff..5da92f9 100644
--- a/src/compas_cem/equilibrium/force_numpy.py
+++ b/src/compas_cem/equilibrium/force_numpy.py
@@ -193,7 +193,7 @@ def equilibrium_state_numpy(topology, tmax=100, eta=1e-6, verbose=False, callbac
         last_pos_array = np.array([last_positions[key] for key, pos in node_xyz.items()])
 
         # calculate residual distance
-        distance = np.sqrt(np.sum(np.square(last_pos_array - pos_array)))
+        distance = np.sum(np.sqrt(np.sum(np.square(last_pos_array - pos_array), axis=1)))
         # if residual distance smaller than threshold, stop iterating
         if distance < eta:
             break
-- 
2.43.0


From 3aa6731df15f08d1e3326b6d6e5643db03ef7dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:33 +0000
Subject: [PATCH 09/27] fix: the trails of a topology diagram survive a round
 trip through JSON

---
 src/compas_cem/diagrams/topology/topology.py | 26 ++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index e6b2169..604ff2d 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -83,6 +83,32 @@ class TopologyDiagram(Diagram, MeshMixins):
         """
         self.attributes["_aux_vector"] = vector
 
+# ==============================================================================
+# Data
+# ==============================================================================
+
+    @property
+    def data(self):
+        """
+        A data dictionary that represents the topology diagram.
+        """
+        return super(TopologyDiagram, self).data
+
+    @data.setter
+    def data(self, data):
+        """
+        Overwrites this diagram with a data dictionary.
+
+        Notes
+        -----
+        The JSON format turns dictionary keys into strings, and tuples into lists.
+        """
+        super(TopologyDiagram, type(self)).data.fset(self, data)
+
+        for name in ("_trails", "_auxiliary_trails"):
+            trails = self.attributes[name]
+            self.attributes[name] = {int(key): tuple(trail) for key, trail in trails.items()}
+
 # ==============================================================================
 # Node Additions
 # ==============================================================================
-- 
2.43.0


From 84875c6b4ac509eec597d04811df3ccb72726633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:35 +0000
Subject: [PATCH 10/27] fix: the optimizer returns the form of the optimal
 parameters, not of the last ones tried

---
 src/compas_cem/optimization/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index f568bdb..2c2596c 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -252,7 +252,8 @@ class Optimizer(Data):
 
         # fetch last optimum value of loss function
         time_opt = time() - start
-        loss_opt = solver.last_optimum_value()
+        # NOTE: the solver's last trial is not necessarily its best, so the best goes back to the topology
+        loss_opt = self._optimize_form(x_opt, topology, tmax, eta)
         evals = solver.get_numevals()
         status = nlopt_status(solver.last_optimize_result())
 
-- 
2.43.0


From 4853a80559d7e2e7474c08d611219002b1da1606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:35 +0000
Subject: [PATCH 11/27] fix: the optimizer form-finds its result with the
 iterations and threshold it was given

---
 src/compas_cem/optimization/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index 2c2596c..7078187 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -248,7 +248,7 @@ class Optimizer(Data):
         except RuntimeError:
             print("Optimization failed due to a runtime error!")
             print(f"Optimization total runtime: {round(time() - start, 4)} seconds")
-            return static_equilibrium(topology)
+            return static_equilibrium(topology, tmax=tmax, eta=eta)
 
         # fetch last optimum value of loss function
         time_opt = time() - start
@@ -278,7 +278,7 @@ class Optimizer(Data):
             print("----------")
 
         # exit like a champion
-        return static_equilibrium(topology)
+        return static_equilibrium(topology, tmax=tmax, eta=eta)
 
 # ------------------------------------------------------------------------------
 # Optimization parameters
-- 
2.43.0


From 6670119fe8f001a016e5ce3349fa42f0848c11f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:35 +0000
Subject: [PATCH 12/27] fix: the optimizer solves problems with removed
 parameters

---
 src/compas_cem/optimization/optimizer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index 7078187..be4a19e 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -292,8 +292,8 @@ class Optimizer(Data):
         """
         parameters = np.zeros(self.number_of_parameters())
 
-        for pkey, parameter in self.parameters.items():
-            parameters[pkey] = parameter.start_value(topology)
+        for index, parameter in enumerate(self.parameters.values()):
+            parameters[index] = parameter.start_value(topology)
 
         return parameters
 
@@ -305,9 +305,9 @@ class Optimizer(Data):
         bounds_low = np.zeros(self.number_of_parameters())
         bounds_up = np.zeros(self.number_of_parameters())
 
-        for pkey, parameter in self.parameters.items():
-            bounds_low[pkey] = parameter.bound_low(topology)
-            bounds_up[pkey] = parameter.bound_up(topology)
+        for index, parameter in enumerate(self.parameters.values()):
+            bounds_low[index] = parameter.bound_low(topology)
+            bounds_up[index] = parameter.bound_up(topology)
 
         return bounds_low, bounds_up
 
@@ -319,9 +319,9 @@ class Optimizer(Data):
         """
         Update the defined design parameters in a topology diagram.
         """
-        for pkey, parameter in self.parameters.items():
+        for index, parameter in enumerate(self.parameters.values()):
 
-            value = parameters[pkey]
+            value = parameters[index]
             name = parameter.attr_name()
             key = parameter.key()
 
-- 
2.43.0


From 271ea8737f019ffe1d256c69c87e57dc6a559d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:35 +0000
Subject: [PATCH 13/27] fix: a failed optimization does not report the results
 of a previous one

---
 src/compas_cem/optimization/optimizer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index be4a19e..ad05b9e 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -198,6 +198,15 @@ class Optimizer(Data):
         # test for bad stuff before going any further
         self.check_optimization_sanity()
 
+        # forget the results of a previous run
+        self.x_opt = None
+        self.time_opt = None
+        self.penalty = None
+        self.evals = None
+        self.gradient = None
+        self.gradient_norm = None
+        self.status = None
+
         # compose gradient and objective functions
         if grad not in ("AD", "FD"):
             raise ValueError(f"Gradient method {grad} is not supported!")
-- 
2.43.0


From 36a74208e3b244b4b10979c8129ee0cf1c23e2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:35 +0000
Subject: [PATCH 14/27] fix: constraints whose target is a plain list can be
 serialized

---
 .../optimization/constraints/constraint.py        | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/compas_cem/optimization/constraints/constraint.py b/src/compas_cem/optimization/constraints/constraint.py
index 891e8cb..cc738e4 100644
--- a/src/compas_cem/optimization/constraints/constraint.py
+++ b/src/compas_cem/optimization/constraints/constraint.py
@@ -74,8 +74,13 @@ class Constraint(Data):
 
         data["key"] = repr(self.key())
         data["weight"] = self._weight
-        data["target"] = self._target.to_data()
-        data["target_dtype"] = self._target.dtype
+        data["target"] = self._target
+        data["target_dtype"] = None
+
+        # NOTE: targets can also be plain lists or tuples of numbers
+        if hasattr(self._target, "to_data"):
+            data["target"] = self._target.to_data()
+            data["target_dtype"] = self._target.dtype
 
         return data
 
@@ -98,8 +103,10 @@ class Constraint(Data):
         self._weight = float(data["weight"])
 
         # TODO: Is hard-coding a Vector here is a good idea?
-        target_cls = cls_from_dtype(data["target_dtype"])
-        self._target = target_cls.from_data(data["target"])
+        self._target = data["target"]
+        if data["target_dtype"] is not None:
+            target_cls = cls_from_dtype(data["target_dtype"])
+            self._target = target_cls.from_data(data["target"])
 
     def __repr__(self):
         st = "{0}(key={1!r}, target={2!r}, weight={3!r})"
-- 
2.43.0


From f9af63e2aac826a10581faf3d21b701ab141ca87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:54 +0000
Subject: [PATCH 15/27] fix: a topology diagram finds the origin nodes that the
 optimizer moved

---
 src/compas_cem/optimization/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index ad05b9e..4de0b43 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -263,6 +263,8 @@ class Optimizer(Data):
         time_opt = time() - start
         # NOTE: the solver's last trial is not necessarily its best, so the best goes back to the topology
         loss_opt = self._optimize_form(x_opt, topology, tmax, eta)
+        # point lookups must find the origin nodes at their new location
+        topology.update_gkeys()
         evals = solver.get_numevals()
         status = nlopt_status(solver.last_optimize_result())
 
-- 
2.43.0


From 7d6a380beece10db363a31be6d874e95f36bb872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:14 +0000
Subject: [PATCH 16/27] fix: trails that share nodes, lack an origin or leave
 trail edges out are rejected

---
 src/compas_cem/diagrams/topology/topology.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 604ff2d..5f3ea2c 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -398,6 +398,12 @@ class TopologyDiagram(Diagram, MeshMixins):
                     visited.add(node)
                     break
 
+            # a trail must start at an origin node, and share no nodes with other trails
+            msg = "The trail of support {} has no origin. Check your topology!".format(support)
+            assert not self.is_node_support(origin_node), msg
+            msg = "Nodes {} are in more than one trail. Check your topology!".format(visited & nodes_in_trails)
+            assert not visited & nodes_in_trails, msg
+
             # set last node to be origin/start node
             self.node_attribute(origin_node, "type", "_origin")
 
@@ -445,6 +451,11 @@ class TopologyDiagram(Diagram, MeshMixins):
         msg = "Nodes {} haven't been assigned to a trail. Check your topology!".format(unassigned)
         assert len(unassigned) == 0, msg
 
+        # no loose trail edges
+        num_links = sum(len(trail) - 1 for trail in trails.values())
+        msg = "Some trail edges are not part of any trail. Check your topology!"
+        assert len(set(frozenset(edge) for edge in self.trail_edges())) == num_links, msg
+
         # store trails in topology diagram
         self.attributes["_trails"] = trails
 
-- 
2.43.0


From 87060586e96fec37da37b53de79b6d24e64772e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:00 +0000
Subject: [PATCH 17/27] fix: Grasshopper artists draw no supports when the
 selection has none, instead of all nodes

---
 src/compas_cem/ghpython/artists.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compas_cem/ghpython/artists.py b/src/compas_cem/ghpython/artists.py
index 5aa92ea..4db66df 100644
--- a/src/compas_cem/ghpython/artists.py
+++ b/src/compas_cem/ghpython/artists.py
@@ -202,7 +202,8 @@ class DiagramArtist(NetworkArtist):
         nodes : list of :class:`Rhino.Geometry.Point3d`
         """
         nodes = self._collection_keys("support_nodes", "is_node_support", nodes)
-        return self.draw_nodes(nodes)
+        if not len(nodes) == 0:
+            return self.draw_nodes(nodes)
 
     def _collection_keys(self, iterator_func, filter_func, keys=None):
         """
-- 
2.43.0


From b9d8e0d33cb2c8ad953eb01ba6d760a223252b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:00 +0000
Subject: [PATCH 18/27] fix: moving origin nodes in Grasshopper keeps the
 location lookup in step

---
 .../ghpython/components/CompasCem_OriginNodesMove/code.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/ghpython/components/CompasCem_OriginNodesMove/code.py b/src/compas_cem/ghpython/components/CompasCem_OriginNodesMove/code.py
index 641dcd8..5515d6f 100644
--- a/src/compas_cem/ghpython/components/CompasCem_OriginNodesMove/code.py
+++ b/src/compas_cem/ghpython/components/CompasCem_OriginNodesMove/code.py
@@ -17,6 +17,6 @@ class MoveOriginNodesComponent(component):
 
         for node_key, point in zip(origin_node_keys, points):
             point = RhinoPoint.from_geometry(point).to_compas()
-            topology.node_attributes(node_key, names="xyz", values=point)
+            topology.node_xyz(node_key, list(point))
 
         return topology
-- 
2.43.0


From 665f898ee2a29d9e0444ce0a433c2271b4b02853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:14 +0000
Subject: [PATCH 19/27] fix: showing the nodes of a diagram in a viewer does
 not switch its edges

---
 src/compas_cem/viewers/diagramobject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/viewers/diagramobject.py b/src/compas_cem/viewers/diagramobject.py
index 9447273..f02e289 100644
--- a/src/compas_cem/viewers/diagramobject.py
+++ b/src/compas_cem/viewers/diagramobject.py
@@ -371,7 +371,7 @@ class DiagramObject(NetworkObject):
     @show_nodes.setter
     def show_nodes(self, shownodes):
         if isinstance(shownodes, bool):
-            self._show_edges = shownodes
+            self._show_nodes = shownodes
             self.show_points = shownodes
 
     @property
-- 
2.43.0


From 2ec6ef1ac3f67e8f2ec00513a6516d37af60baae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:14 +0000
Subject: [PATCH 20/27] fix: viewers label nodes with their type

---
 src/compas_cem/viewers/diagramobject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compas_cem/viewers/diagramobject.py b/src/compas_cem/viewers/diagramobject.py
index f02e289..c136c88 100644
--- a/src/compas_cem/viewers/diagramobject.py
+++ b/src/compas_cem/viewers/diagramobject.py
@@ -632,7 +632,7 @@ class DiagramObject(NetworkObject):
             return "{}\n{}".format(x, gkey_format(x))
 
         def type_format(x):
-            return "{}".format(self.topology.node_attribute(x, "type"))
+            return "{}".format(self.diagram.node_attribute(x, "type"))
 
         tags_formatter = {"xyz": gkey_format,
                           "keyxyz": key_gkey_format,
-- 
2.43.0


From 89606397dde35b3cada55b7ca60dce3516249a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:14 +0000
Subject: [PATCH 21/27] fix: diagrams are shown without their edges, not with
 an error, when there is no CEM viewer

---
 src/compas_cem/viewers/diagramobject.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compas_cem/viewers/diagramobject.py b/src/compas_cem/viewers/diagramobject.py
index c136c88..9ecb868 100644
--- a/src/compas_cem/viewers/diagramobject.py
+++ b/src/compas_cem/viewers/diagramobject.py
@@ -410,6 +410,10 @@ class DiagramObject(NetworkObject):
         if not self.show_edges:
             return
 
+        if not self.viewer:
+            print("No viewer found as DiagramObject attribute. Cannot draw edges!")
+            return
+
         meshes = self._edge_meshes()
 
         for edge_type, edges in self.edges_by_type.items():
-- 
2.43.0


From 53d09862e1ca16e17ed2b40e074eb660d0c1a729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:00 +0000
Subject: [PATCH 22/27] fix: viewers label the edges of a form diagram with
 their state

---
 src/compas_cem/viewers/diagramobject.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compas_cem/viewers/diagramobject.py b/src/compas_cem/viewers/diagramobject.py
index 9ecb868..1063f0f 100644
--- a/src/compas_cem/viewers/diagramobject.py
+++ b/src/compas_cem/viewers/diagramobject.py
@@ -679,10 +679,10 @@ class DiagramObject(NetworkObject):
             return "f: {}\nl: {}".format(force_format(x), length_format(x))
 
         def state_format(x):
-            if self.diagram.is_trail_edge(x):
-                parameter = self.diagram.edge_length_2(edge)
+            if self.diagram.edge_attribute(x, "type") == "trail":
+                parameter = self.diagram.edge_length_2(x)
             else:
-                parameter = self.diagram.edge_force(edge)
+                parameter = self.diagram.edge_force(x)
             state = copysign(1.00, parameter)
             return "{0:.{1}}".format(state, self.default_floatprecision)
 
-- 
2.43.0


From 9940a469307551908015456c8f450c59a26f0888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:39 +0000
Subject: [PATCH 23/27] fix: a refused optimization leaves the results of a
 previous one alone

---
 src/compas_cem/optimization/optimizer.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/compas_cem/optimization/optimizer.py b/src/compas_cem/optimization/optimizer.py
index 4de0b43..09713db 100644
--- a/src/compas_cem/optimization/optimizer.py
+++ b/src/compas_cem/optimization/optimizer.py
@@ -198,15 +198,6 @@ class Optimizer(Data):
         # test for bad stuff before going any further
         self.check_optimization_sanity()
 
-        # forget the results of a previous run
-        self.x_opt = None
-        self.time_opt = None
-        self.penalty = None
-        self.evals = None
-        self.gradient = None
-        self.gradient_norm = None
-        self.status = None
-
         # compose gradient and objective functions
         if grad not in ("AD", "FD"):
             raise ValueError(f"Gradient method {grad} is not supported!")
@@ -243,6 +234,15 @@ class Optimizer(Data):
         # assemble optimization solver
         solver = nlopt_solver(**hyper_parameters)
 
+        # forget the results of a previous run
+        self.x_opt = None
+        self.time_opt = None
+        self.penalty = None
+        self.evals = None
+        self.gradient = None
+        self.gradient_norm = None
+        self.status = None
+
         # solve optimization problem
         x_opt = None
         start = time()
-- 
2.43.0


From b0addfad9f3d04510c90fa4dce116343bc5e11ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:08 +0000
Subject: [PATCH 24/27] fix: shifting a trail to a negative sequence is
 refused, form-finding would skip its nodes

---
 src/compas_cem/diagrams/topology/topology.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compas_cem/diagrams/topology/topology.py b/src/compas_cem/diagrams/topology/topology.py
index 5f3ea2c..a3dfbe9 100644
--- a/src/compas_cem/diagrams/topology/topology.py
+++ b/src/compas_cem/diagrams/topology/topology.py
@@ -323,6 +323,7 @@ class TopologyDiagram(Diagram, MeshMixins):
             then, the starting sequence of this trail becomes 3.
         """
         assert self.is_node_origin(key), "That is not an origin node!"
+        assert sequence >= 0, "The starting sequence must be a non-negative number!"
 
         if not self.has_trails():
             msg = "The diagram has no trails! Run topology.build_trails() first"
-- 
2.43.0


From 7ce878f8ce6e3788cd41effa472854d69511e7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:30 +0000
Subject: [PATCH 25/27] fix: a node is still found when another one at the same
 location is moved or deleted

---
 src/compas_cem/diagrams/mixins/node_mixins.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/compas_cem/diagrams/mixins/node_mixins.py b/src/compas_cem/diagrams/mixins/node_mixins.py
index 1c4b3e4..e1087d1 100644
--- a/src/compas_cem/diagrams/mixins/node_mixins.py
+++ b/src/compas_cem/diagrams/mixins/node_mixins.py
@@ -71,9 +71,17 @@ class NodeMixins(object):
         """
         if not self.has_node(key):
             return
-        for gkey in [gkey for gkey, node in self.gkey_node.items() if node == key]:
+        gkeys = [gkey for gkey, node in self.gkey_node.items() if node == key]
+        for gkey in gkeys:
             del self.gkey_node[gkey]
 
+        # another node at the same location takes over
+        if gkeys:
+            for node in self.nodes():
+                gkey = self.gkey(self.node_coordinates(node))
+                if node != key and gkey in gkeys:
+                    self.gkey_node[gkey] = node
+
     def update_gkeys(self):
         """
         Rebuilds the geometric keys from the current coordinates of the nodes.
-- 
2.43.0


From be9ea112e5ce1380ccf494522add2c90d2ea8f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:32 +0000
Subject: [PATCH 26/27] fix: changing the tolerance of a diagram updates its
 node lookup

---
 src/compas_cem/diagrams/diagram.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compas_cem/diagrams/diagram.py b/src/compas_cem/diagrams/diagram.py
index 38967ca..4df1085 100644
--- a/src/compas_cem/diagrams/diagram.py
+++ b/src/compas_cem/diagrams/diagram.py
@@ -57,6 +57,8 @@ class Diagram(Data, NodeMixins, EdgeMixins, Network):
         """
         """
         self.attributes["tol"] = tol
+        # nodes must be found to the new tolerance
+        self.update_gkeys()
 
     @property
     def gkey_node(self):
-- 
2.43.0


From 6a2f23bd52ae4b408c4b9afb9019e88ca7e10ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:58 +0000
Subject: [PATCH 27/27] fix: a temporary proxy server is stopped when the
 constrained form-finding component fails

---
 .../CompasCem_ConstrainedFormFinding/code.py  | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/compas_cem/ghpython/components/CompasCem_ConstrainedFormFinding/code.py b/src/compas_cem/ghpython/components/CompasCem_ConstrainedFormFinding/code.py
index 954e410..1d50917 100644
--- a/src/compas_cem/ghpython/components/CompasCem_ConstrainedFormFinding/code.py
+++ b/src/compas_cem/ghpython/components/CompasCem_ConstrainedFormFinding/code.py
@@ -34,19 +34,20 @@ class ConstrainedFormFindingComponent(component):
             opt = Proxy("compas_cem.optimization")
 
         # solve constrained form-finding problem
-        solution = opt.solve_proxy(topology=topology,
-                                   constraints=constraints,
-                                   parameters=parameters,
-                                   algorithm=algorithm,
-                                   iters=iters_max,
-                                   eps=eps,
-                                   kappa=kappa,
-                                   tmax=tmax,
-                                   eta=eta)
-
-        # shut down temporary proxy
-        if not proxy_temp_exists:
-            opt.stop_server()
+        try:
+            solution = opt.solve_proxy(topology=topology,
+                                       constraints=constraints,
+                                       parameters=parameters,
+                                       algorithm=algorithm,
+                                       iters=iters_max,
+                                       eps=eps,
+                                       kappa=kappa,
+                                       tmax=tmax,
+                                       eta=eta)
+        finally:
+            # shut down temporary proxy, also if the problem could not be solved
+            if not proxy_temp_exists:
+                opt.stop_server()
 
         # unpack solution
         topology, form, objective, grad_norm, iters, time, status = solution
-- 
2.43.0

