From e5840ce6278e7d420c36406ec51df0e19fa03deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:08 +0000
Subject: [PATCH 01/17] fix: interfaces with rsvp_enabled=False still carry IGP
 traffic and form circuits

---
 pyNTM/flex_model.py        | 6 ++++--
 pyNTM/performance_model.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 4a4160b..bc9d0b3 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -982,14 +982,16 @@ class FlexModel(_MasterModel):
                 for interface in self.interface_objects
                 if (
                     interface.failed is False
-                    and interface.reservable_bandwidth >= needed_bw
+                    and (
+                        needed_bw == 0 or interface.reservable_bandwidth >= needed_bw
+                    )
                 )
             )
         elif include_failed_circuits is True:
             considered_interfaces = (
                 interface
                 for interface in self.interface_objects
-                if interface.reservable_bandwidth >= needed_bw
+                if needed_bw == 0 or interface.reservable_bandwidth >= needed_bw
             )
 
         if rsvp_required is True:
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 62ec964..9a5b72a 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -529,14 +529,16 @@ class PerformanceModel(_MasterModel):
                 for interface in self.interface_objects
                 if (
                     interface.failed is False
-                    and interface.reservable_bandwidth >= needed_bw
+                    and (
+                        needed_bw == 0 or interface.reservable_bandwidth >= needed_bw
+                    )
                 )
             )
         elif include_failed_circuits is True:
             considered_interfaces = (
                 interface
                 for interface in self.interface_objects
-                if interface.reservable_bandwidth >= needed_bw
+                if needed_bw == 0 or interface.reservable_bandwidth >= needed_bw
             )
 
         if rsvp_required is True:
-- 
2.43.0


From 907878e7515f335d1bf547fbf7efe9113bf27452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:30 +0000
Subject: [PATCH 02/17] fix: FlexModel path queries only return interfaces that
 are edges of the considered topology

get_shortest_path and get_all_paths_reservable_bw rebuilt each hop from every
interface between the two nodes, so failed and (for shortest paths) higher-cost
parallel interfaces were returned.
---
 pyNTM/flex_model.py | 51 +++++----------------------------------------
 1 file changed, 5 insertions(+), 46 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index bc9d0b3..8fe80be 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1370,7 +1370,10 @@ class FlexModel(_MasterModel):
 
         try:
             for path in digraph_unique_paths:
-                model_path = self._convert_nx_path_to_model_path(path, needed_bw)
+                model_path = [
+                    [edge["interface"] for edge in G[hop][next_hop].values()]
+                    for hop, next_hop in zip(path, path[1:])
+                ]
                 converted_path["path"].append(model_path)
         except BaseException:
             return converted_path
@@ -1411,7 +1414,7 @@ class FlexModel(_MasterModel):
         # that have multiple links between nodes
         try:
             for path in multidigraph_shortest_paths:
-                model_path = self._convert_nx_path_to_model_path(path, needed_bw)
+                model_path = self._get_all_paths_mdg(G, [path])[0]
                 converted_path["path"].append(model_path)
                 converted_path["cost"] = nx.shortest_path_length(
                     G, source_node_name, dest_node_name, weight="cost"
@@ -1469,50 +1472,6 @@ class FlexModel(_MasterModel):
 
         return {"cost": converted_path["cost"], "path": path_info}
 
-    def _convert_nx_path_to_model_path(self, nx_graph_path, needed_bw):
-        """
-        Given a path from an networkx DiGraph, converts that
-        path to a Model style path and returns that Model style path
-
-        A networkx path is a list of nodes in order of transit.
-        ex: ['A', 'B', 'G', 'D', 'F']
-
-        The corresponding model style path would be::
-
-            [Interface(name = 'A-to-B', cost = 20, capacity = 125, node_object = Node('A'),
-                remote_node_object = Node('B'), circuit_id = 9),
-            Interface(name = 'B-to-G', cost = 10, capacity = 100, node_object = Node('B'),
-                remote_node_object = Node('G'), circuit_id = 6),
-            Interface(name = 'G-to-D', cost = 10, capacity = 100, node_object = Node('G'),
-                remote_node_object = Node('D'), circuit_id = 2),
-            Interface(name = 'D-to-F', cost = 10, capacity = 300, node_object = Node('D'),
-                remote_node_object = Node('F'), circuit_id = 1)]
-
-        :param nx_graph_path: list of node names
-        :param needed_bw: needed reservable bandwidth on the requested path
-        :return: List of Model Interfaces from source to destination
-        """
-
-        # Define a model-style path to build
-        model_path = []
-
-        # look at each hop in the path
-        for hop in nx_graph_path:
-            current_hop_index = nx_graph_path.index(hop)
-            next_hop_index = current_hop_index + 1
-            if next_hop_index < len(nx_graph_path):
-                next_hop = nx_graph_path[next_hop_index]
-
-                interface = [
-                    interface
-                    for interface in self.get_interface_object_from_nodes(hop, next_hop)
-                    if interface.reservable_bandwidth >= needed_bw
-                ]
-
-                model_path.append(interface)
-
-        return model_path
-
     def _convert_nx_path_to_model_path_routed_lsp(self, nx_graph_path, needed_bw, lsp):
         """
         Given a path from an networkx DiGraph, converts that
-- 
2.43.0


From 8e28243fc8a4192d8eab95b9ec8c48e25c407b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 03/17] fix: validate_model reports duplicate interface names
 on a node

---
 pyNTM/flex_model.py        |  2 +-
 pyNTM/performance_model.py | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 8fe80be..637650e 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -157,7 +157,7 @@ class FlexModel(_MasterModel):
         unique_interfaces_per_node = self._unique_interface_per_node()
 
         # Log any duplicate interfaces on a node
-        if not unique_interfaces_per_node:  # pragma: no cover
+        if unique_interfaces_per_node is not True:  # pragma: no cover
             error_data.append(unique_interfaces_per_node)
 
         # Make validate_model() check for matching failed statuses
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 9a5b72a..e08b0b4 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -161,13 +161,6 @@ class PerformanceModel(_MasterModel):
         if int_res_bw_sum_error:  # pragma: no cover
             error_data.append({"int_res_bw_sum_error": int_res_bw_sum_error})
 
-        # Validate there are no duplicate interfaces
-        unique_interfaces_per_node = self._unique_interface_per_node()
-
-        # Log any duplicate interfaces on a node
-        if not unique_interfaces_per_node:  # pragma: no cover
-            error_data.append(unique_interfaces_per_node)
-
         # Log any Nodes with IGP shortcuts enabled
         igp_shortcut_nodes = [
             node for node in self.node_objects if node.igp_shortcuts_enabled is True
@@ -199,6 +192,13 @@ class PerformanceModel(_MasterModel):
 
             error_data.append(multiple_links_between_nodes)
 
+        # Validate there are no duplicate interfaces
+        unique_interfaces_per_node = self._unique_interface_per_node()
+
+        # Log any duplicate interfaces on a node
+        if unique_interfaces_per_node is not True:  # pragma: no cover
+            error_data.append(unique_interfaces_per_node)
+
         srlg_errors = self.validate_srlg_nodes()
 
         if len(srlg_errors) > 0:
-- 
2.43.0


From 9c5cb0efd59e8eeabf87e8b512eaf5a072b48795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:51 +0000
Subject: [PATCH 04/17] fix: reserved bandwidth ledger keeps exact LSP
 reservations

Interface.reserved_bandwidth is rounded to one decimal when read, so adding
LSP reservations through it lost the fractions (4 LSPs of 0.25 reserved 0.8,
not 1.0) and update_simulation raised int_res_bw_sum_error on a valid model.
---
 pyNTM/flex_model.py        |  2 +-
 pyNTM/master_model.py      | 22 ++++++++++++++--------
 pyNTM/performance_model.py |  2 +-
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 637650e..ea3dace 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1626,7 +1626,7 @@ class FlexModel(_MasterModel):
                 for interface in lsp.path["interfaces"]
                 if lsp.path != "Unrouted"
             ]:
-                interface.reserved_bandwidth += lsp.reserved_bandwidth
+                interface._reserved_bandwidth += lsp.reserved_bandwidth
 
     def _make_weighted_network_graph_routed_lsp(self, lsp, needed_bw=0):
         """
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index d5d6875..6e287b7 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -145,9 +145,9 @@ class _MasterModel(object):
         for lsp in (lsp for lsp in self.rsvp_lsp_objects if "Unrouted" not in lsp.path):
             for interface in lsp.path["interfaces"]:
                 int_info[interface._key]["lsps"].append(lsp)
-                int_info[interface._key]["reserved_bandwidth"] += round(
-                    lsp.reserved_bandwidth, 1
-                )
+                int_info[interface._key][
+                    "reserved_bandwidth"
+                ] += lsp.reserved_bandwidth
         return int_info
 
     def _validate_circuit_interface_capacity(
@@ -196,10 +196,16 @@ class _MasterModel(object):
         :return: None
         """
 
-        if interface.reserved_bandwidth > interface.capacity:
+        # LSPs are admitted against values rounded to 1 decimal place, so
+        # differences that are within that rounding are not errors
+        if interface.reserved_bandwidth - interface.capacity > 0.2:
             int_res_bw_too_high.add(interface)
-        if round(interface.reserved_bandwidth, 1) != round(
-            int_info[interface._key]["reserved_bandwidth"], 1
+        if (
+            abs(
+                interface.reserved_bandwidth
+                - round(int_info[interface._key]["reserved_bandwidth"], 1)
+            )
+            > 0.15
         ):  # pragma: no cover  # noqa
             int_res_bw_sum_error.add(
                 (interface, interface.reserved_bandwidth, tuple(interface.lsps(self)))
@@ -348,11 +354,11 @@ class _MasterModel(object):
             # prior path['interfaces'] list
             if lsp_res_bw_before != lsp.reserved_bandwidth:
                 for interface in lsp_path_interfaces_before:
-                    interface.reserved_bandwidth -= lsp_res_bw_before
+                    interface._reserved_bandwidth -= lsp_res_bw_before
                 # . . . and then remove the new reserved bandwidth from the
                 # new path interfaces
                 for interface in lsp.path["interfaces"]:
-                    interface.reserved_bandwidth += lsp.reserved_bandwidth
+                    interface._reserved_bandwidth += lsp.reserved_bandwidth
 
     def parallel_lsp_groups(self):
         """
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index e08b0b4..5b596a9 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -466,7 +466,7 @@ class PerformanceModel(_MasterModel):
                 for interface in lsp.path["interfaces"]
                 if lsp.path != "Unrouted"
             ]:
-                interface.reserved_bandwidth += lsp.reserved_bandwidth
+                interface._reserved_bandwidth += lsp.reserved_bandwidth
 
     def _convert_graph_path_to_model_path(self, nx_sp):
         """
-- 
2.43.0


From b607c1cc80db5f1978cd50198770dfde28badd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 05/17] fix: path_detail of a demand that becomes unrouted no
 longer shows its previous path

---
 pyNTM/flex_model.py        | 1 +
 pyNTM/performance_model.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index ea3dace..8545a8d 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -263,6 +263,7 @@ class FlexModel(_MasterModel):
 
         for demand in iter(self.demand_objects):
             demand.path = "Unrouted"
+            demand._path_detail = "Unrouted_detail"
 
         time_before_lsp_load = datetime.now()
         print("Routing the LSPs . . . ")
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 5b596a9..51033d7 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -296,6 +296,7 @@ class PerformanceModel(_MasterModel):
 
         for demand in iter(self.demand_objects):
             demand.path = "Unrouted"
+            demand._path_detail = "Unrouted_detail"
 
         time_before_lsp_load = datetime.now()
         print("Routing the LSPs . . . ")
-- 
2.43.0


From 1e43b4ce3393f8d2cc7162361ef4d2351ba27fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:10 +0000
Subject: [PATCH 06/17] fix: LSPs with configured setup bandwidth keep it when
 the parallel group is optimized

---
 pyNTM/master_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 6e287b7..cdf1d72 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -343,6 +343,10 @@ class _MasterModel(object):
             # For each lsp in routed_lsp_group, see if it can signal for
             # a 'setup_bandwidth_optimized' amount of setup_bandwidth
 
+            # LSPs with a fixed setup bandwidth do not resignal
+            if lsp.configured_setup_bandwidth is not None:
+                continue
+
             lsp_path_interfaces_before = lsp.path["interfaces"]
             lsp_res_bw_before = lsp.reserved_bandwidth
 
-- 
2.43.0


From c98c7914ceddd2c79b7c372ba599d603f6797329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:36 +0000
Subject: [PATCH 07/17] fix: re-signaled FlexModel LSPs take a single eligible
 interface per hop

When an LSP re-signaled for more bandwidth, every eligible parallel interface
of a hop was put in series in the LSP path.
---
 pyNTM/flex_model.py | 66 +++------------------------------------------
 1 file changed, 3 insertions(+), 63 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 8545a8d..398c1e6 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1457,9 +1457,7 @@ class FlexModel(_MasterModel):
 
         try:
             for path in digraph_shortest_paths:
-                model_path = self._convert_nx_path_to_model_path_routed_lsp(
-                    path, needed_bw, lsp
-                )
+                model_path = self._get_all_paths_mdg(G, [path])[0]
                 converted_path["path"].append(model_path)
                 converted_path["cost"] = nx.shortest_path_length(
                     G, source_node_name, dest_node_name, weight="cost"
@@ -1473,64 +1471,6 @@ class FlexModel(_MasterModel):
 
         return {"cost": converted_path["cost"], "path": path_info}
 
-    def _convert_nx_path_to_model_path_routed_lsp(self, nx_graph_path, needed_bw, lsp):
-        """
-        Given a path from an networkx DiGraph, converts that
-        path to a Model style path and returns that Model style path
-
-        A networkx path is a list of nodes in order of transit.
-        ex: ['A', 'B', 'G', 'D', 'F']
-
-        Because a networkx path does not show the edges used, this def
-        examines the interface(s) from each hop to the next hop and adds them
-        to a hop_interface_list
-
-        The corresponding model style path could be::
-            [Interface(name = 'A-to-B', cost = 20, capacity = 125, node_object = Node('A'),
-                remote_node_object = Node('B'), circuit_id = 9),
-            Interface(name = 'B-to-G', cost = 10, capacity = 100, node_object = Node('B'),
-                remote_node_object = Node('G'), circuit_id = 6),
-            Interface(name = 'G-to-D', cost = 10, capacity = 100, node_object = Node('G'),
-                remote_node_object = Node('D'), circuit_id = 2),
-            Interface(name = 'D-to-F', cost = 10, capacity = 300, node_object = Node('D'),
-                remote_node_object = Node('F'), circuit_id = 1)]
-
-        :param nx_graph_path: list of node names
-        :param needed_bw: needed reservable bandwidth on the requested path
-        :param lsp: RSVP LSP object to be acted on
-        :return: List of Model Interfaces from source to destination
-        """
-
-        # Define a model-style path to build
-        model_path = []
-
-        # look at each hop in the path
-        for hop in nx_graph_path:
-            current_hop_index = nx_graph_path.index(hop)
-            next_hop_index = current_hop_index + 1
-            if next_hop_index < len(nx_graph_path):
-                next_hop = nx_graph_path[next_hop_index]
-                for interface in self.get_interface_object_from_nodes(hop, next_hop):
-                    # Look at all the interface(s) from (current) hop to next_hop; see if
-                    # any of those interfaces are in the current path for lsp; if they are,
-                    # see if any of them could handle the additional_needed_bandwidth for lsp
-                    hop_interface_list = []
-                    if interface in lsp.path["interfaces"] and (
-                        interface.reservable_bandwidth + lsp.reserved_bandwidth
-                        >= needed_bw
-                    ):
-                        hop_interface_list.append(interface)
-
-                    elif interface.reservable_bandwidth >= needed_bw:
-                        # If the interface is not in the current path but can
-                        # accommodate the needed_bw, then add that interface
-                        # to model_path
-                        hop_interface_list.append(interface)
-
-                    if hop_interface_list:
-                        model_path.append(hop_interface_list)
-        return model_path
-
     def _determine_lsp_state_info(self, lsps, traff_on_each_group_lsp):
         """
         Determine LSP's specific path and reserved bandwidth; also consume
@@ -1673,7 +1613,7 @@ class FlexModel(_MasterModel):
             (
                 interface.node_object.name,
                 interface.remote_node_object.name,
-                interface.cost,
+                {"cost": interface.cost, "interface": interface},
             )
             for interface in eligible_interfaces
         )
@@ -1683,7 +1623,7 @@ class FlexModel(_MasterModel):
         G = nx.MultiDiGraph()
 
         # Add edges to networkx MultiDiGraph
-        G.add_weighted_edges_from(edge_names, weight="cost")
+        G.add_edges_from(edge_names)
 
         # Add all the nodes
         node_name_iterator = (node.name for node in self.node_objects)
-- 
2.43.0


From fe791bd2251352fa85b1eb51ba40a4964e918355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:01 +0000
Subject: [PATCH 08/17] fix: models created with default arguments no longer
 share their object sets

---
 pyNTM/flex_model.py        | 16 ++++++++--------
 pyNTM/master_model.py      | 16 ++++++++--------
 pyNTM/performance_model.py | 16 ++++++++--------
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 398c1e6..9fc2f2b 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -66,10 +66,10 @@ class FlexModel(_MasterModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
@@ -1944,10 +1944,10 @@ class Parallel_Link_Model(FlexModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index cdf1d72..acecaf9 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -28,16 +28,16 @@ class _MasterModel(object):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
-        self.interface_objects = interface_objects
-        self.node_objects = node_objects
-        self.demand_objects = demand_objects
+        self.interface_objects = set() if interface_objects is None else interface_objects
+        self.node_objects = set() if node_objects is None else node_objects
+        self.demand_objects = set() if demand_objects is None else demand_objects
         self.circuit_objects = set()
-        self.rsvp_lsp_objects = rsvp_lsp_objects
+        self.rsvp_lsp_objects = set() if rsvp_lsp_objects is None else rsvp_lsp_objects
         self.srlg_objects = set()
         self._parallel_lsp_groups = {}
 
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 51033d7..b21170a 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -70,10 +70,10 @@ class PerformanceModel(_MasterModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
@@ -1559,10 +1559,10 @@ class Model(PerformanceModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
-- 
2.43.0


From d4ab8faaf97ffc717cecde3525a699383b84fb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 09/17] fix: an interface renamed by change_interface_name is
 still found in interface_objects

---
 pyNTM/master_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index acecaf9..8bb1ad5 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -705,7 +705,11 @@ class _MasterModel(object):
         :return: Interface with new name
         """
         interface_to_edit = self.get_interface_object(current_interface_name, node_name)
+        # The name is part of the Interface's hash, so take the Interface out of
+        # the set while its name changes
+        self.interface_objects.remove(interface_to_edit)
         interface_to_edit.name = new_interface_name
+        self.interface_objects.add(interface_to_edit)
 
         return interface_to_edit
 
-- 
2.43.0


From 253b49f446b8a5dd1b9725bac3a603de2b7c044d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:20 +0000
Subject: [PATCH 10/17] fix: unfail_node restores the node's other interfaces
 when one is in a failed SRLG

---
 pyNTM/master_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 8bb1ad5..26dddcf 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -831,6 +831,10 @@ class _MasterModel(object):
 
         for interface in ints_to_unfail_iterator:
 
+            # Interfaces that are members of a failed SRLG stay failed
+            if any(srlg.failed for srlg in interface.srlgs):
+                continue
+
             # Unfail the interfaces if the remote node is not failed
             if not interface.remote_node_object.failed:
                 # Unfail the specific interface
-- 
2.43.0


From 3bb34fbe58f9aa1628f4564bd6ae0ae10f38d17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 11/17] fix: removing an interface from an SRLG restores both
 ends of its circuit

---
 pyNTM/interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyNTM/interface.py b/pyNTM/interface.py
index 8254124..49eaa38 100644
--- a/pyNTM/interface.py
+++ b/pyNTM/interface.py
@@ -428,3 +428,4 @@ remote_node_object = %r, circuit_id = %r)" % (
             remote_int._srlgs.remove(get_srlg)
 
         self.failed = False
+        remote_int.failed = False
-- 
2.43.0


From 99b5df4b73b1da35181954e7d48f15130938dcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:53 +0000
Subject: [PATCH 12/17] fix: interfaces added from a list use the model's node
 objects

Each interface got private copies of its nodes, so failing a node, its SRLGs
and its IGP shortcut setting were not seen by the interface.
---
 pyNTM/master_model.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 26dddcf..bdeebf3 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -1213,23 +1213,25 @@ class _MasterModel(object):
         network_interface_objects = set([])
         network_node_objects = set([])
 
+        # Interfaces on the same Node must all share that Node's object
+        nodes_by_name = {node.name: node for node in self.node_objects}
+
         # Create the Interface objects
         for interface in interface_info_list:
+            # Check to see if the Interface's Node already exists, if not, add it
+            for node_name in (interface["node"], interface["remote_node"]):
+                if node_name not in nodes_by_name:
+                    nodes_by_name[node_name] = Node(node_name)
+                    network_node_objects.add(nodes_by_name[node_name])
+
             intf = Interface(
                 interface["name"],
                 interface["cost"],
                 interface["capacity"],
-                Node(interface["node"]),
-                Node(interface["remote_node"]),
+                nodes_by_name[interface["node"]],
+                nodes_by_name[interface["remote_node"]],
                 interface["circuit_id"],
             )
             network_interface_objects.add(intf)
 
-            # Check to see if the Interface's Node already exists, if not, add it
-            node_names = [node.name for node in self.node_objects]
-            if interface["node"] not in node_names:
-                network_node_objects.add(Node(interface["node"]))
-            if interface["remote_node"] not in node_names:
-                network_node_objects.add(Node(interface["remote_node"]))
-
         return (network_interface_objects, network_node_objects)
-- 
2.43.0


From 0bd9e35834482ac097e9ab72e23e6bab31517a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:14 +0000
Subject: [PATCH 13/17] fix: demands that use IGP shortcuts on some of their
 paths deliver all of their traffic

The ECMP split counted every item leaving a node, including items that no path
with the same history uses, and the share of the missing paths was lost.
---
 pyNTM/flex_model.py | 74 +++++----------------------------------------
 1 file changed, 8 insertions(+), 66 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 9fc2f2b..8cf6197 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -667,7 +667,12 @@ class FlexModel(_MasterModel):
         # shortest_path_int_set = set(shortest_path_int_list)
         shortest_path_item_set = set(shortest_path_item_list)
 
-        unique_next_hops = self._find_unique_next_hops(shortest_path_item_set)
+        # The items that can follow each path prefix.  With IGP shortcuts, not every
+        # item that egresses a node is available to each path that transits the node
+        next_items = {}
+        for path in demand.path:
+            for index, item in enumerate(path):
+                next_items.setdefault(tuple(path[:index]), set()).add(item)
 
         # shortest_path_info will be a dict with the following info for each path:
         # - an ordered list of interfaces in the path
@@ -712,17 +717,10 @@ class FlexModel(_MasterModel):
             total_splits = 1
 
             # Normalize any paths with LSPs
-            for item in path:
+            for index, item in enumerate(path):
                 # Update the total cumulative splits in the path before
                 # traffic reaches the item in the path
-                if isinstance(item, Interface):
-                    total_splits = total_splits * len(
-                        unique_next_hops[item.node_object.name]
-                    )
-                elif isinstance(item, RSVP_LSP):
-                    total_splits = total_splits * len(
-                        unique_next_hops[item.source_node_object.name]
-                    )
+                total_splits = total_splits * len(next_items[tuple(path[:index])])
 
                 traffic_splits_per_interface[item] = total_splits
 
@@ -753,62 +751,6 @@ class FlexModel(_MasterModel):
 
         return traff_per_int
 
-    def _find_unique_next_hops(self, shortest_path_item_set):
-        """
-        From a set of items from all the shortest paths, determine how many unique
-        next hops there are from a given node.
-
-        :param shortest_path_item_set: a set of items (Interfaces, RSVP_LSPs) from all
-        the shortest paths
-
-        :return: a dict with keys for each Node name and values being a list of each unique
-        next hop from that Node
-
-        In the example output below, Node B has 2 unique next hops, buth of which are RSVP LSPs
-
-        Example output::
-
-            {'A': [Interface(name = 'A-G', cost = 25, capacity = 100, node_object = Node('A'),
-                   remote_node_object = Node('G'), circuit_id = '6'),
-                   Interface(name = 'A-B', cost = 10, capacity = 100, node_object = Node('A'),
-                   remote_node_object = Node('B'), circuit_id = '1')],
-             'B': [RSVP_LSP(source = B, dest = D, lsp_name = 'lsp_b_d_1'),
-                   RSVP_LSP(source = B, dest = D, lsp_name = 'lsp_b_d_2')],
-             'D': [RSVP_LSP(source = D, dest = F, lsp_name = 'lsp_d_f_1')],
-             'G': [Interface(name = 'G-F', cost = 25, capacity = 100, node_object = Node('G'),
-                   remote_node_object = Node('F'), circuit_id = '7')]}
-        """
-        # Dict to store how many unique next hops each node has in the shortest paths
-        unique_next_hops = {}
-        # Iterate through all the items
-        for item in shortest_path_item_set:
-            if isinstance(item, Interface):
-                unique_next_hops[item.node_object.name] = []
-                # For a given Interface's node_object, determine how many
-                # Interfaces on that Node are facing next hops
-                for hop in shortest_path_item_set:
-                    if (
-                        isinstance(hop, Interface)
-                        and hop.node_object.name == item.node_object.name
-                        or not isinstance(hop, Interface)
-                        and isinstance(hop, RSVP_LSP)
-                        and hop.source_node_object.name == item.node_object.name
-                    ):
-                        unique_next_hops[item.node_object.name].append(hop)
-            elif isinstance(item, RSVP_LSP):
-                unique_next_hops[item.source_node_object.name] = []
-                # For an LSP's source_node_object,
-                for hop in shortest_path_item_set:
-                    if (
-                        isinstance(hop, Interface)
-                        and hop.node_object.name == item.source_node_object.name
-                        or not isinstance(hop, Interface)
-                        and isinstance(hop, RSVP_LSP)
-                        and hop.source_node_object.name == item.source_node_object.name
-                    ):
-                        unique_next_hops[item.source_node_object.name].append(hop)
-        return unique_next_hops
-
     def _insert_lsps_into_path(self, path_lsps, path):
         """
         Substitutes the path_lsps into the path.  Although the path
-- 
2.43.0


From bfce1c99ea19f950cc212e38dc331587dea7ed5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 14/17] fix: IGP shortcuts are found on every shortest path,
 not only on the last one

---
 pyNTM/flex_model.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 8cf6197..db3aa08 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -413,6 +413,8 @@ class FlexModel(_MasterModel):
         of the any applicable Interfaces
         """
 
+        finalized_paths = []
+
         # Substitute IGP enabled LSPs for Interfaces in paths
         for node_path in node_paths:
             # Find Nodes along the path that have igp_shortcuts_enabled and have
@@ -471,21 +473,14 @@ class FlexModel(_MasterModel):
                             next_node_to_check.append(lsp_end_node)
                             break
 
-        # Now that path_lsps is known, substitute those into path
-        finalized_paths = []
-        if len(path_lsps) > 0:
+            # Now that path_lsps is known, substitute those into the paths that
+            # transit the nodes in node_path
             for interface_path in paths:
-                finalized_path = self._insert_lsps_into_path(path_lsps, interface_path)
-                if finalized_path != -1:
-                    for path in finalized_path:
-                        # finalized_path may be a list of lists, so add each component path
+                if [intf.node_object.name for intf in interface_path] == node_path[:-1]:
+                    # There is a component path for each combination of parallel LSPs
+                    for path in self._insert_lsps_into_path(path_lsps, interface_path):
                         if path not in finalized_paths:
                             finalized_paths.append(path)
-                else:
-                    finalized_paths.append(interface_path)
-        else:
-            # No LSPs available for shortcuts
-            finalized_paths = paths
 
         return finalized_paths
 
-- 
2.43.0


From 336d458868e8b375b23f689940143cb35d120dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 15/17] fix: node names that contain a hyphen are not mistaken
 for parallel links

---
 pyNTM/performance_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index b21170a..c247fa3 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -1526,7 +1526,7 @@ class PerformanceModel(_MasterModel):
         """
 
         connected_nodes_list = [
-            (interface.node_object.name + "-" + interface.remote_node_object.name)
+            (interface.node_object.name, interface.remote_node_object.name)
             for interface in self.interface_objects
         ]
 
@@ -1536,7 +1536,7 @@ class PerformanceModel(_MasterModel):
         # parallel links, sort it, and return the list
         if len(connected_nodes_list) != len(connected_nodes_set):
             parallel_links = [
-                connection
+                "-".join(connection)
                 for connection in connected_nodes_list
                 if connected_nodes_list.count(connection) > 1
             ]
-- 
2.43.0


From 5bee4d41058dd29242e4e6d8cacee1e7fc1c09fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 16/17] fix: assigning manual_metric replaces a configured
 metric that was not read yet

---
 pyNTM/rsvp.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index 3a6af30..6214d8b 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -169,14 +169,7 @@ class RSVP_LSP(object):
 
     @manual_metric.setter
     def manual_metric(self, value):
-        if self.initial_manual_metric:
-            if (
-                isinstance(self.initial_manual_metric, int)
-                and self.initial_manual_metric > 0
-            ):
-                self._manual_metric = self.initial_manual_metric
-                self.initial_manual_metric = None
-        elif isinstance(value, int) and value > 0:
+        if isinstance(value, int) and value > 0:
             self.initial_manual_metric = None
             self._manual_metric = value
         elif value == -1:
-- 
2.43.0


From 6a2e1fd6d2f68a2a294df993a7d7ed38d9b2f50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:11 +0000
Subject: [PATCH 17/17] fix: add_circuit ignored its failed argument

---
 pyNTM/flex_model.py        | 4 ++++
 pyNTM/performance_model.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index db3aa08..0d9812c 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1227,6 +1227,10 @@ class FlexModel(_MasterModel):
             circuit_id,
         )
 
+        if failed:
+            int_a.failed = True
+            int_b.failed = True
+
         existing_int_keys = {interface._key for interface in self.interface_objects}
 
         if int_a._key in existing_int_keys:
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index c247fa3..62b749e 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -712,6 +712,10 @@ class PerformanceModel(_MasterModel):
             circuit_id,
         )
 
+        if failed:
+            int_a.failed = True
+            int_b.failed = True
+
         existing_int_keys = {interface._key for interface in self.interface_objects}
 
         if int_a._key in existing_int_keys:
-- 
2.43.0

