From 642ddf5d79fd3300c6779e31658f330cb96754f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 01/67] fix: wireless predecessors are decided by the incoming
 link

---
 terragraph_planner/common/topology_models/topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/topology_models/topology.py b/terragraph_planner/common/topology_models/topology.py
index bc0839b..8f28a09 100644
--- a/terragraph_planner/common/topology_models/topology.py
+++ b/terragraph_planner/common/topology_models/topology.py
@@ -310,7 +310,7 @@ class Topology:
         """
         wireless_predecessor_sites = []
         for predecessor in self.get_predecessor_sites(site):
-            link = self.get_link_by_site_ids(site.site_id, predecessor.site_id)
+            link = self.get_link_by_site_ids(predecessor.site_id, site.site_id)
             if link is not None and link.is_wireless:
                 wireless_predecessor_sites.append(predecessor)
         return wireless_predecessor_sites
-- 
2.43.0


From 7ce5a390c3eb0a9ce354fc9b4782ada68b9b8bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:30 +0000
Subject: [PATCH 02/67] fix: removing a site forgets its sectors, so it can be
 re-added and removed

---
 terragraph_planner/common/topology_models/topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/topology_models/topology.py b/terragraph_planner/common/topology_models/topology.py
index 8f28a09..301531d 100644
--- a/terragraph_planner/common/topology_models/topology.py
+++ b/terragraph_planner/common/topology_models/topology.py
@@ -111,7 +111,7 @@ class Topology:
         )
 
         # Remove sectors on this site
-        for sector_id in self.site_id_to_sector_ids[site_id]:
+        for sector_id in self.site_id_to_sector_ids.pop(site_id, set()):
             del self.sectors[sector_id]
 
         # Remove link from/to the site
-- 
2.43.0


From 69751519b41b12c0c782b0cd2e6ab9daf243d0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 03/67] fix: disjoint_paths restores the edges it removes with
 their attributes

---
 .../optimization/topology_networkx.py              | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/terragraph_planner/optimization/topology_networkx.py b/terragraph_planner/optimization/topology_networkx.py
index 056743a..b17214c 100644
--- a/terragraph_planner/optimization/topology_networkx.py
+++ b/terragraph_planner/optimization/topology_networkx.py
@@ -422,26 +422,20 @@ def disjoint_paths(topology: Topology, graph: nx.Graph) -> DisjointPath:
         # We remove edges (POP, DN1), (DN1, DN2), (DN2, DN3)
         # Example2: For a path: [SOURCE, POP, DN1, DN2, DN3, CN1, DEMAND]
         # We remove edges (POP, DN1), (DN1, DN2), (DN2, DN3)
-        link_ids = []
-        end = 0
+        removed_edges = []
         for n in range(1, len(shortest_path) - 2):
             tail_site_id = shortest_path[n + 1]
             if topology.sites[tail_site_id].site_type == SiteType.CN:
                 break
             edge = (shortest_path[n], shortest_path[n + 1])
-            link_id = "-".join(edge)
-            link_ids.append(link_id)
-            graph.remove_edge(shortest_path[n], shortest_path[n + 1])
-            end = n + 1
+            removed_edges.append((*edge, graph.edges[edge]))
+            graph.remove_edge(*edge)
 
         if nx.has_path(graph, source=SUPERSOURCE, target=demand_id):
             demand_with_disjoint_paths.add(demand_id)
 
         # Recover the graph back to initial version
-        for n in range(1, end):
-            graph.add_edge(
-                shortest_path[n], shortest_path[n + 1], link_id=link_ids[n - 1]
-            )
+        graph.add_edges_from(removed_edges)
     return DisjointPath(
         demand_with_disjoint_paths=demand_with_disjoint_paths,
         disconnected_demand_locations=disconnected_demand_locations,
-- 
2.43.0


From fde8933498425a1cf9d15a98a3b497d714c4c458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 04/67] fix: adversarial link selection copes with links that
 are missing from the candidate graph

---
 .../optimization/topology_networkx.py         | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/terragraph_planner/optimization/topology_networkx.py b/terragraph_planner/optimization/topology_networkx.py
index b17214c..0ea2a7c 100644
--- a/terragraph_planner/optimization/topology_networkx.py
+++ b/terragraph_planner/optimization/topology_networkx.py
@@ -252,31 +252,31 @@ def find_most_disruptive_links(
             break
         elif len(edge_disruptions[(u, v)]) == 0:
             break
-        elif proposed_graph[u][v]["link_type"] == LinkType.WIRELESS_ACCESS:
-            continue
         elif (u, v) in disruptive_edges:
             continue
 
-        has_rev = candidate_graph.has_edge(v, u)
+        # The candidate graph may lack either direction of the edge, e.g.,
+        # because the link has no capacity
+        candidate_edges = [
+            edge
+            for edge in ((u, v), (v, u))
+            if candidate_graph_copy.has_edge(*edge)
+        ]
+        if len(candidate_edges) == 0:
+            continue
 
         # If removing this edge from the candidate graph in addition
         # to the previous edges in disruptive_edges cuts off one or more
         # demands in the candidate graph, do not add this to disruptive_edges
-        candidate_graph_copy.remove_edge(u, v)
-        if has_rev:
-            candidate_graph_copy.remove_edge(v, u)
+        candidate_graph_copy.remove_edges_from(candidate_edges)
         descendents = nx.descendants(candidate_graph_copy, source=SUPERSOURCE)
 
         candidate_disruptions = candidate_connected_demands - descendents
 
         if len(candidate_disruptions) == 0:
-            disruptive_edges.add((u, v))
-            if has_rev:
-                disruptive_edges.add((v, u))
+            disruptive_edges.update(candidate_edges)
         else:
-            candidate_graph_copy.add_edge(u, v)
-            if has_rev:
-                candidate_graph_copy.add_edge(v, u)
+            candidate_graph_copy.add_edges_from(candidate_edges)
     end = time.time()
     logger.info(
         f"Found {len(disruptive_edges)} adversarial edges in {end-start:0.2f} seconds."
-- 
2.43.0


From 2e66cc2dd96e9f119dff32f7011a44f1c0964be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 05/67] fix: availability simulation orders simultaneous
 failure and repair of a link

---
 .../optimization/topology_availability.py           | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/terragraph_planner/optimization/topology_availability.py b/terragraph_planner/optimization/topology_availability.py
index c75afc3..35007e1 100644
--- a/terragraph_planner/optimization/topology_availability.py
+++ b/terragraph_planner/optimization/topology_availability.py
@@ -5,6 +5,7 @@
 
 
 import heapq
+import itertools
 import logging
 import time
 from copy import deepcopy
@@ -83,8 +84,10 @@ def compute_availability(
     _FAILED = 0
     _REPAIRED = 1
     _SIM_END = 2
-    events: List[Tuple[float, Tuple[str, str], int]] = [
-        (sim_length, ("", ""), _SIM_END)
+    # Events at the same time are processed in the order they are generated
+    order = itertools.count()
+    events: List[Tuple[float, int, Tuple[str, str], int]] = [
+        (sim_length, next(order), ("", ""), _SIM_END)
     ]
 
     # Generate failure and repair events for each backhaul edge; add to heap
@@ -107,11 +110,11 @@ def compute_availability(
         while curr < sim_length:
             time_to_failure = rng.exponential(mttf)
             curr += time_to_failure
-            heapq.heappush(events, (curr, key, _FAILED))
+            heapq.heappush(events, (curr, next(order), key, _FAILED))
 
             time_to_repair = rng.exponential(mttr)
             curr += time_to_repair
-            heapq.heappush(events, (curr, key, _REPAIRED))
+            heapq.heappush(events, (curr, next(order), key, _REPAIRED))
 
         processed_edges.add(key)
 
@@ -129,7 +132,7 @@ def compute_availability(
             logger.info(f"Simulating event {sim_events}...")
 
         # Get the next event
-        event_time, (u, v), event_type = heapq.heappop(events)
+        event_time, _, (u, v), event_type = heapq.heappop(events)
         planner_assert(
             event_time <= sim_length,
             "Event time should not exceed the desired simulation length",
-- 
2.43.0


From 0958fd5b4697bd640282f8d42fb63e74fdfa857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 06/67] fix: link availability is rescaled when the simulation
 stops at its time limit

---
 terragraph_planner/optimization/topology_availability.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terragraph_planner/optimization/topology_availability.py b/terragraph_planner/optimization/topology_availability.py
index 35007e1..2ff80ea 100644
--- a/terragraph_planner/optimization/topology_availability.py
+++ b/terragraph_planner/optimization/topology_availability.py
@@ -189,6 +189,10 @@ def compute_availability(
                 availability[demand_id] = (
                     val * sim_length / actual_simulation_time
                 )
+            for edge, val in sim_link_availability.items():
+                sim_link_availability[edge] = (
+                    val * sim_length / actual_simulation_time
+                )
             logger.warning(
                 "Availability computation terminated due to reaching time limit."
             )
-- 
2.43.0


From 8c565405a8ba60b98eddb330e28a86e455d25e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:41 +0000
Subject: [PATCH 07/67] fix: marking unreachable components leaves unavailable
 links as they are

---
 terragraph_planner/optimization/topology_operations.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index b2fb947..b172eb1 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -137,19 +137,21 @@ def mark_unreachable_components(
         ) and site.status_type is StatusType.CANDIDATE:
             site.status_type = StatusType.UNREACHABLE
 
-            # Mark connected links as unreachable
+            # Mark connected links as unreachable, unavailable links stay so
             successor_sites = topology.get_successor_sites(site)
             for successor in successor_sites:
                 link = none_throws(
                     topology.get_link_by_site_ids(site_id, successor.site_id)
                 )
-                link.status_type = StatusType.UNREACHABLE
+                if link.status_type not in StatusType.immutable_status():
+                    link.status_type = StatusType.UNREACHABLE
             predecessor_sites = topology.get_predecessor_sites(site)
             for predecessor in predecessor_sites:
                 link = none_throws(
                     topology.get_link_by_site_ids(predecessor.site_id, site_id)
                 )
-                link.status_type = StatusType.UNREACHABLE
+                if link.status_type not in StatusType.immutable_status():
+                    link.status_type = StatusType.UNREACHABLE
 
     # Mark sectors on unreachable sites as unreachable
     for sector in topology.sectors.values():
-- 
2.43.0


From 59f234f5930127742a494c4d818079176b000d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:45 +0000
Subject: [PATCH 08/67] fix: uniform demand grid ends when it extends across
 the antimeridian

---
 terragraph_planner/optimization/topology_demand.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/optimization/topology_demand.py b/terragraph_planner/optimization/topology_demand.py
index 64b5991..4a00df7 100644
--- a/terragraph_planner/optimization/topology_demand.py
+++ b/terragraph_planner/optimization/topology_demand.py
@@ -147,22 +147,28 @@ def _add_uniform_demand_sites(
     bottom -= dy
     top += dy
 
+    # The grid can extend beyond the antimeridian on either side
+    if antimeridian:
+        right += 360
     longitude = left
-    while longitude <= right or (antimeridian and longitude >= left):
+    while longitude <= right:
+        wrapped_longitude = longitude
+        if longitude > 180:
+            wrapped_longitude -= 360
+        elif longitude < -180:
+            wrapped_longitude += 360
         latitude = bottom
         while latitude <= top:
             topology.add_demand_site(
                 DemandSite(
                     location=GeoLocation(
-                        latitude=latitude, longitude=longitude
+                        latitude=latitude, longitude=wrapped_longitude
                     ),
                     demand=demand,
                 )
             )
             latitude += dy
         longitude += dx
-        if longitude > 180:
-            longitude -= 360
 
 
 def _add_dn_sites_to_cn_connected_demand(topology: Topology) -> None:
-- 
2.43.0


From f51145a1467d8a4f09aee49cb40a677c44350907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:31 +0000
Subject: [PATCH 09/67] fix: sectors created on unavailable or unreachable
 sites take the status of the site

---
 .../optimization/topology_preparation.py           | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 23c301e..47de1d1 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -151,6 +151,16 @@ def setup_node_structure(topology: Topology) -> None:
     )
 
 
+def _initial_sector_status(site: Site) -> StatusType:
+    """
+    Sectors on unavailable or unreachable sites must have the same status as
+    the site. All other sectors are candidates.
+    """
+    if site.status_type in StatusType.inactive_status():
+        return site.status_type
+    return StatusType.CANDIDATE
+
+
 def create_dn_sectors(topology: Topology) -> None:
 
     # sectors_for_sites is used to indicate that we have already added
@@ -196,7 +206,7 @@ def create_dn_sectors(topology: Topology) -> None:
                     node_id=i,
                     position_in_node=j,
                     ant_azimuth=sector_azimuth,
-                    status_type=StatusType.CANDIDATE,
+                    status_type=_initial_sector_status(site),
                 )
                 sectors_for_sites.setdefault(site_id, []).append(n.sector_id)
                 topology.add_sector(n)
@@ -247,7 +257,7 @@ def create_cn_sectors(topology: Topology) -> None:
                     node_id=i,
                     position_in_node=j,
                     ant_azimuth=sector_azimuth,
-                    status_type=StatusType.CANDIDATE,
+                    status_type=_initial_sector_status(site),
                 )
                 sectors_for_sites.setdefault(site_id, []).append(n.sector_id)
                 topology.add_sector(n)
-- 
2.43.0


From 5fde78ed09c673ab1d563382038ee42569440556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:31 +0000
Subject: [PATCH 10/67] fix: sectors of a node are ordered around their mean
 azimuth across north

---
 .../optimization/topology_preparation.py           | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 47de1d1..1ab875d 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -421,19 +421,7 @@ def validate_site_sectors(sectors: List[Sector]) -> None:
         sin_sum = sum([math.sin(math.radians(a)) for a in azimuths])
         cos_sum = sum([math.cos(math.radians(a)) for a in azimuths])
         circ_mean = math.degrees(math.atan2(sin_sum, cos_sum)) % 360
-        l1 = [
-            a
-            for a in azimuths
-            if (a <= circ_mean and a > circ_mean - 180) or a > circ_mean + 180
-        ]
-        l1.sort()
-        l2 = [
-            a
-            for a in azimuths
-            if (a > circ_mean and a <= circ_mean + 180) or a <= circ_mean - 180
-        ]
-        l2.sort()
-        sector_azimuths[node_id] = l1 + l2
+        azimuths.sort(key=lambda a: (a - circ_mean + 180) % 360)
 
     # First verify that each sector within the node are exactly horizontal scan
     # range apart. Note: azimuths should already be sorted
-- 
2.43.0


From 9bfa7a63400db0c72b9b7052a5006cbabb00d658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:01 +0000
Subject: [PATCH 11/67] fix: equidistant sectors consider links across north
 from the node

---
 terragraph_planner/optimization/topology_preparation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 1ab875d..ee5033f 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -564,7 +564,13 @@ def find_best_equidistant_sectors(
     node_ids = (
         np.round((link_angles - rotation_angles) / arc_length) % num_nodes
     )
-    delta_angles = link_angles - node_ids * arc_length - rotation_angles
+    # Angle delta between node and link in [-180, 180)
+    delta_angles = (
+        link_angles
+        - node_ids * arc_length
+        - rotation_angles
+        + FULL_ROTATION_ANGLE / 2
+    ) % FULL_ROTATION_ANGLE - FULL_ROTATION_ANGLE / 2
     delta_angles[abs(delta_angles) > inter_node_angle / 2] = FULL_ROTATION_ANGLE
     mets = np.sum(delta_angles**2, axis=1)
     best_met_idx = mets.argmin()
-- 
2.43.0


From 55de06ace072728711985e9c2e33cb6ac9010f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:01 +0000
Subject: [PATCH 12/67] fix: nodes exactly a scan range apart are not refused
 for rounding noise

---
 terragraph_planner/optimization/topology_preparation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index ee5033f..4636ad7 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -463,7 +463,8 @@ def validate_site_sectors(sectors: List[Sector]) -> None:
                 angle_diff1, angle_diff2, angle_diff3, angle_diff4
             )
             planner_assert(
-                min_angle_diff >= horizontal_scan_range,
+                min_angle_diff
+                > horizontal_scan_range - SECTOR_LINK_ANGLE_TOLERANCE,
                 f"Sector nodes are separated by {min_angle_diff:0.1f}, "
                 f"but must be separated by at least the horizontal scan range {horizontal_scan_range}",
                 OptimizerException,
-- 
2.43.0


From 5667d4da9956faa9d0d5f7e064c685f1ad64df33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 13/67] fix: active wired links need no sectors to be
 consistent

---
 terragraph_planner/optimization/topology_preparation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 4636ad7..3f7c97e 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -1033,8 +1033,10 @@ def validate_topology_status(topology: Topology) -> None:
                 f"Existing link {link.link_id} must be connected to existing sites.",
                 TopologyException,
             )
+            # Sectors are irrelevant for wired links
             planner_assert(
-                link.tx_sector is not None
+                link.link_type == LinkType.ETHERNET
+                or link.tx_sector is not None
                 and none_throws(link.tx_sector).status_type
                 == StatusType.EXISTING
                 and link.rx_sector is not None
@@ -1051,8 +1053,10 @@ def validate_topology_status(topology: Topology) -> None:
                 f"Active link {link.link_id} must be connected to active sites.",
                 TopologyException,
             )
+            # Sectors are irrelevant for wired links
             planner_assert(
-                link.tx_sector is not None
+                link.link_type == LinkType.ETHERNET
+                or link.tx_sector is not None
                 and none_throws(link.tx_sector).status_type
                 in StatusType.active_status()
                 and link.rx_sector is not None
-- 
2.43.0


From b52ed94bec19c2ccf0909e2566be8704d5df8b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:54 +0000
Subject: [PATCH 14/67] fix: sectors of active input links are active, existing
 sectors carry flow

---
 .../common/topology_models/sector.py            |  8 ++++++++
 .../ilp_models/flow_optimization.py             |  7 ++++---
 .../optimization/topology_preparation.py        | 17 ++++++++++++-----
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/terragraph_planner/common/topology_models/sector.py b/terragraph_planner/common/topology_models/sector.py
index d93236b..e71a6be 100644
--- a/terragraph_planner/common/topology_models/sector.py
+++ b/terragraph_planner/common/topology_models/sector.py
@@ -108,6 +108,14 @@ class Sector:
         self._check_compatible_status_type(status_type)
         self._status_type = status_type
 
+    def set_as_existing(self) -> None:
+        """
+        Sectors are created after the status of the links is known. When such
+        a sector is found to carry an existing link, it is existing, too.
+        """
+        self._check_compatible_status_type(StatusType.EXISTING)
+        self._status_type = StatusType.EXISTING
+
     def _check_compatible_status_type(self, status_type: StatusType) -> None:
         if self._site.status_type in StatusType.active_status():
             planner_assert(
diff --git a/terragraph_planner/optimization/ilp_models/flow_optimization.py b/terragraph_planner/optimization/ilp_models/flow_optimization.py
index 96c8e54..25639c0 100644
--- a/terragraph_planner/optimization/ilp_models/flow_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/flow_optimization.py
@@ -181,10 +181,11 @@ class MaxFlowNetwork(NetworkOptimization):
         }
 
     def create_sector_decisions(self) -> None:
+        active_sectors = self.topology.get_sector_ids(
+            status_filter=StatusType.active_status()
+        )
         self.sector_vars = {
-            (loc, sec, 0): 1
-            if sec in self.proposed_sectors.get(loc, set())
-            else 0
+            (loc, sec, 0): 1 if sec in active_sectors.get(loc, set()) else 0
             for loc in self.locations
             for sec in self.location_sectors[loc]
             if self.sector_to_type[sec] not in IMAGINARY_SECTOR_TYPES
diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 3f7c97e..56eb3ee 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -367,14 +367,21 @@ def add_sectors_to_links(
             reverse_link.tx_sector = rx_sector
             reverse_link.rx_sector = tx_sector
 
-        if (
-            link_channel_map is not None
-            and link.status_type in StatusType.active_status()
-        ):
+        if link.status_type not in StatusType.active_status():
+            continue
+        if link_channel_map is not None:
             tx_sector.channel = rx_sector.channel = link_channel_map[
                 link.link_id
             ]
-            tx_sector.status_type = rx_sector.status_type = StatusType.PROPOSED
+        # An active link requires active sectors
+        for sector in (tx_sector, rx_sector):
+            if link.status_type == StatusType.EXISTING:
+                # The entire node carrying an existing link exists already
+                for sector_id in sectors_for_sites[sector.site.site_id]:
+                    if topology.sectors[sector_id].node_id == sector.node_id:
+                        topology.sectors[sector_id].set_as_existing()
+            elif sector.status_type != StatusType.EXISTING:
+                sector.status_type = StatusType.PROPOSED
 
 
 def validate_site_sectors(sectors: List[Sector]) -> None:
-- 
2.43.0


From 69a4240e31c8cad28df7981883802f825b0abbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:24 +0000
Subject: [PATCH 15/67] fix: report metrics for networks with wired links

---
 terragraph_planner/optimization/topology_report.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index 4c54f58..675458f 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -414,7 +414,11 @@ def get_topology_metrics(
         and s.status_type in StatusType.active_status()
     }
     for link in topology.links.values():
-        if link.status_type in StatusType.active_status():
+        # Sectors are irrelevant for wired links
+        if (
+            link.status_type in StatusType.active_status()
+            and link.link_type != LinkType.ETHERNET
+        ):
             tx_sector = none_throws(link.tx_sector)
             rx_sector = none_throws(link.rx_sector)
 
-- 
2.43.0


From c3d42f3cd044cf9a0977b8951aaccac197738b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:24 +0000
Subject: [PATCH 16/67] fix: disconnected sites without sectors are removed
 from the plan

---
 terragraph_planner/optimization/topology_optimization.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/topology_optimization.py b/terragraph_planner/optimization/topology_optimization.py
index 32dfae9..4a7df4d 100644
--- a/terragraph_planner/optimization/topology_optimization.py
+++ b/terragraph_planner/optimization/topology_optimization.py
@@ -637,15 +637,17 @@ def _remove_disconnected_components_from_topology(topology: Topology) -> None:
     hop_counts = hops_from_pops(
         topology, status_filter=StatusType.active_status()
     )
-    for sector in topology.sectors.values():
-        site = sector.site
-        if site.site_id not in hop_counts:
+    # Sites without any sector, e.g., wired sites, can be disconnected too
+    for site_id, site in topology.sites.items():
+        if site_id not in hop_counts:
             current_site_status = site.status_type
             if current_site_status not in StatusType.immutable_status() | {
                 StatusType.UNREACHABLE
             }:
                 site.status_type = StatusType.CANDIDATE
 
+    for sector in topology.sectors.values():
+        if sector.site.site_id not in hop_counts:
             current_sector_status = sector.status_type
             if current_sector_status not in StatusType.immutable_status() | {
                 StatusType.UNREACHABLE
-- 
2.43.0


From 2e0d25e776e03a1dacd731e21db9fc6b8ed13cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:36 +0000
Subject: [PATCH 17/67] fix: tolerate active CNs without active incoming links
 in the interference analysis

---
 terragraph_planner/optimization/topology_interference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_interference.py b/terragraph_planner/optimization/topology_interference.py
index e25d9c5..96c6ffd 100644
--- a/terragraph_planner/optimization/topology_interference.py
+++ b/terragraph_planner/optimization/topology_interference.py
@@ -418,7 +418,8 @@ def _compatible_polarity(
 
     tx_pol = tx_site.polarity
     if rx_site.site_type == SiteType.CN:
-        rx_pol = cn_polarities[rx_site.site_id]
+        # An active CN without incoming active links has no polarity
+        rx_pol = cn_polarities.get(rx_site.site_id, PolarityType.UNASSIGNED)
     else:
         rx_pol = rx_site.polarity
 
-- 
2.43.0


From 69bd8e64f6a2ba4c96ec0b29552af978cb3f01a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:30 +0000
Subject: [PATCH 18/67] fix: back off to MCS levels of the mapping table only

---
 terragraph_planner/common/rf/link_budget_calculator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/terragraph_planner/common/rf/link_budget_calculator.py b/terragraph_planner/common/rf/link_budget_calculator.py
index 750864f..0287b71 100644
--- a/terragraph_planner/common/rf/link_budget_calculator.py
+++ b/terragraph_planner/common/rf/link_budget_calculator.py
@@ -413,7 +413,12 @@ def adjust_tx_power_with_backoff(
     until that is no longer the case. This function returns the adjusted MCS
     level and Tx power.
     """
+    mcs_levels = {row.mcs for row in mcs_snr_mbps_map}
     while mcs_level > 0:
+        # The mapping does not have to contain every MCS level
+        if mcs_level not in mcs_levels:
+            mcs_level -= 1
+            continue
         snr_dbm = get_snr_from_mcs(mcs_level, mcs_snr_mbps_map)
         rsl_dbm = get_snr_based_rsl(snr_dbm, np_dbm)
         tx_power = get_tx_power_from_rsl(rsl_dbm, net_gain_dbi)
-- 
2.43.0


From 66c36bd3be69a9cf9bc521901dd3c0947cae816a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:30 +0000
Subject: [PATCH 19/67] fix: rounding errors must not lower the MCS of
 power-controlled links

---
 terragraph_planner/common/rf/link_budget_calculator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/terragraph_planner/common/rf/link_budget_calculator.py b/terragraph_planner/common/rf/link_budget_calculator.py
index 0287b71..6e199fd 100644
--- a/terragraph_planner/common/rf/link_budget_calculator.py
+++ b/terragraph_planner/common/rf/link_budget_calculator.py
@@ -24,6 +24,8 @@ from terragraph_planner.common.structs import (
     ScanPatternData,
 )
 
+SNR_ROUNDING_TOLERANCE = 1e-9
+
 
 def mhz_to_ghz(mhz_value: float) -> float:
     return mhz_value / 1000
@@ -466,6 +468,9 @@ def get_mcs_from_snr(snr_dbm: float, mcs_snr_mbps_map: List[MCSMap]) -> int:
     MCS = max{mcs: snr_dbm >= SNR[mcs]}
     """
     mcs_snr_mapping = {row.mcs: row.snr for row in mcs_snr_mbps_map}
+    # When the tx power is adjusted to the lowest value needed for an MCS, the
+    # SNR equals its threshold, so rounding errors must not lower the MCS
+    snr_dbm += SNR_ROUNDING_TOLERANCE
     if math.isnan(snr_dbm) or snr_dbm < min(mcs_snr_mapping.values()):
         return 0
 
-- 
2.43.0


From 81a2936f1d0192fb6265da656cdd81a437e29adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:16 +0000
Subject: [PATCH 20/67] fix: refuse a non-positive maximum coverage time, and a
 non-positive availability time as a configuration error

---
 terragraph_planner/common/configuration/configs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index f77a353..813e3e3 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -681,6 +681,7 @@ class OptimizerParams(ConfigParser):
         planner_assert(
             min_cost_max_time > 0
             and redundancy_max_time > 0
+            and max_coverage_max_time > 0
             and interference_max_time > 0
             and pop_proposal_max_time > 0
             and demand_site_max_time > 0,
@@ -690,6 +691,7 @@ class OptimizerParams(ConfigParser):
         planner_assert(
             availability_max_time > 0,
             "Maximum availability solver time must be positive",
+            ConfigException,
         )
         if candidate_topology_file_path is not None:
             assert_file_extension(
-- 
2.43.0


From de8530712b75383fc9b20ec20c4f7daa1195391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 21/67] fix: SECTOR_PARAMS may be left out, and missing
 required fields are configuration errors

---
 .../common/configuration/configs.py           | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index 813e3e3..794a712 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -88,7 +88,8 @@ class ConfigParser:
         @param propdict: dict of args used in __init__
         @return: instance of cls
         """
-        args = getfullargspec(cls.__init__).args
+        spec = getfullargspec(cls.__init__)
+        args = spec.args
         prop_dict_lower = {k.casefold(): v for k, v in propdict.items()}
         func_arg_val = {}
         for key, value in prop_dict_lower.items():
@@ -138,9 +139,20 @@ class ConfigParser:
                     if sub_key.casefold() in set(args):
                         func_arg_val[sub_key.casefold()] = sub_value
         # If the input key has None value, use the default value in the class constructor
-        return cls(
-            **{key: val for key, val in func_arg_val.items() if val is not None}
+        func_arg_val = {
+            key: val for key, val in func_arg_val.items() if val is not None
+        }
+        missing_args = [
+            arg
+            for arg in args[1 : len(args) - len(spec.defaults or ())]
+            if arg not in func_arg_val
+        ]
+        planner_assert(
+            len(missing_args) == 0,
+            f"Missing necessary field(s): {', '.join(missing_args)}",
+            ConfigException,
         )
+        return cls(**func_arg_val)
 
     def __eq__(self, other: object) -> bool:
         """
@@ -287,7 +299,7 @@ class DeviceData(ConfigParser):
     def __init__(
         self,
         device_sku: str,
-        sector_params: SectorParams,
+        sector_params: Optional[SectorParams] = None,
         node_capex: float = 250.0,
         number_of_nodes_per_site: Optional[int] = None,
         device_type: DeviceType = DeviceType.DN,
@@ -307,8 +319,10 @@ class DeviceData(ConfigParser):
             "Number of nodes per site must be in at least 1",
             ConfigException,
         )
+        if sector_params is None:
+            sector_params = SectorParams()
         self.device_sku = device_sku
-        self.sector_params = sector_params
+        self.sector_params: SectorParams = sector_params
         self.node_capex = node_capex
         if number_of_nodes_per_site is None:
             self.number_of_nodes_per_site: int = (
-- 
2.43.0


From 0043f33cc96ae1268369ed86bc92023d9b567a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 22/67] fix: check project-level radio parameters, and refuse
 100% link availability, for which the rain loss is undefined

---
 .../common/configuration/configs.py           | 58 +++++++++++++------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index 794a712..d2b365d 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -219,25 +219,11 @@ class SectorParams(ConfigParser):
             "Horizontal scan range of each device must be in [0, 360]",
             ConfigException,
         )
-        planner_assert(
-            carrier_frequency > 0,
-            "Carrier frequency must be positive",
-            ConfigException,
-        )
-        planner_assert(
-            noise_figure >= 0,
-            "Noise figure must cannot be negative",
-            ConfigException,
-        )
-        planner_assert(
-            rain_rate >= 0,
-            "Rain rate cannot be negative",
-            ConfigException,
-        )
-        planner_assert(
-            0 <= link_availability_percentage <= 100,
-            "Link availability percentage must be in [0, 100]",
-            ConfigException,
+        _check_radio_parameters(
+            carrier_frequency,
+            noise_figure,
+            rain_rate,
+            link_availability_percentage,
         )
         planner_assert(
             tx_diversity_gain >= 0 and rx_diversity_gain >= 0,
@@ -793,6 +779,34 @@ class SystemParams(ConfigParser):
         self.log_to_stderr = log_to_stderr
 
 
+def _check_radio_parameters(
+    carrier_frequency: float,
+    noise_figure: float,
+    rain_rate: float,
+    link_availability_percentage: float,
+) -> None:
+    planner_assert(
+        carrier_frequency > 0,
+        "Carrier frequency must be positive",
+        ConfigException,
+    )
+    planner_assert(
+        noise_figure >= 0,
+        "Noise figure must cannot be negative",
+        ConfigException,
+    )
+    planner_assert(
+        rain_rate >= 0,
+        "Rain rate cannot be negative",
+        ConfigException,
+    )
+    planner_assert(
+        0 <= link_availability_percentage < 100,
+        "Link availability percentage must be in [0, 100)",
+        ConfigException,
+    )
+
+
 def _populate_project_level_parameter(
     device_list: List[DeviceData],
     carrier_frequency: float,
@@ -804,6 +818,12 @@ def _populate_project_level_parameter(
     """
     Populate project-level parameters to the sector parameters of each device
     """
+    _check_radio_parameters(
+        carrier_frequency,
+        noise_figure,
+        rain_rate,
+        link_availability_percentage,
+    )
     for device in device_list:
         device.sector_params.carrier_frequency = carrier_frequency
         device.sector_params.thermal_noise_power = thermal_noise_power
-- 
2.43.0


From 720b2edf597dd3d1432c780b211f2485adde0e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:56 +0000
Subject: [PATCH 23/67] fix: minimum MCS level and minimum tx power also apply
 to the default MCS table; refuse an empty table

---
 .../common/configuration/configs.py           |  3 +-
 .../common/data_io/csv_library.py             | 42 ++++++++++++++-----
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index d2b365d..8389d0b 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -20,6 +20,7 @@ from terragraph_planner.common.configuration.enums import (
 )
 from terragraph_planner.common.constants import DEFAULT_MCS_SNR_MBPS_MAP
 from terragraph_planner.common.data_io.csv_library import (
+    filter_mcs_snr_mbps_map,
     read_antenna_pattern_data,
     read_mcs_snr_mbps_map_data,
     read_scan_pattern_data,
@@ -277,7 +278,7 @@ class SectorParams(ConfigParser):
         self.mcs_map: List[MCSMap] = (
             read_mcs_snr_mbps_map_data(mcs_map_file_path, self)
             if mcs_map_file_path is not None
-            else DEFAULT_MCS_SNR_MBPS_MAP
+            else filter_mcs_snr_mbps_map(DEFAULT_MCS_SNR_MBPS_MAP, self)
         )
 
 
diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 6c55b14..78f59d1 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -388,7 +388,7 @@ def read_mcs_snr_mbps_map_data(
             DataException,
         )
     planner_assert(
-        len(raw_data) > 0,
+        len(raw_data) > 1,
         "The csv file must contain at least two lines including column names.",
         DataException,
     )
@@ -468,13 +468,6 @@ def read_mcs_snr_mbps_map_data(
         DataException,
     )
 
-    planner_assert(
-        sector_params.minimum_mcs_level is None
-        or max(mapping[MCS]) >= sector_params.minimum_mcs_level,
-        "The Max MCS level in the mapping table must not smaller than input Min MCS.",
-        DataException,
-    )
-
     mcs_snr_mbps_map = [
         MCSMap(
             mcs=int(mapping[MCS][i]),
@@ -483,14 +476,41 @@ def read_mcs_snr_mbps_map_data(
             tx_backoff=mapping[TX_BACKOFF][i],
         )
         for i in range(len(raw_data) - 1)
+    ]
+    return filter_mcs_snr_mbps_map(mcs_snr_mbps_map, sector_params)
+
+
+def filter_mcs_snr_mbps_map(
+    mcs_snr_mbps_map: List[MCSMap],
+    sector_params: "SectorParams",
+) -> List[MCSMap]:
+    """
+    Keep the MCS levels allowed by the minimum MCS level and the minimum tx
+    power of the sector.
+    """
+    planner_assert(
+        sector_params.minimum_mcs_level is None
+        or max(row.mcs for row in mcs_snr_mbps_map)
+        >= sector_params.minimum_mcs_level,
+        "The Max MCS level in the mapping table must not smaller than input Min MCS.",
+        DataException,
+    )
+    filtered_map = [
+        row
+        for row in mcs_snr_mbps_map
         if (
             sector_params.minimum_tx_power is None
-            or sector_params.maximum_tx_power - mapping[TX_BACKOFF][i]
+            or sector_params.maximum_tx_power - row.tx_backoff
             >= none_throws(sector_params.minimum_tx_power)
         )
         and (
             sector_params.minimum_mcs_level is None
-            or mapping[MCS][i] >= sector_params.minimum_mcs_level
+            or row.mcs >= sector_params.minimum_mcs_level
         )
     ]
-    return mcs_snr_mbps_map
+    planner_assert(
+        len(filtered_map) > 0,
+        "No MCS level is allowed by the minimum MCS level and the minimum tx power.",
+        DataException,
+    )
+    return filtered_map
-- 
2.43.0


From 3a802f3378f5392f68f0295d0567e6906b69c7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:33 +0000
Subject: [PATCH 24/67] fix: configuration names with other case or surrounding
 blanks are honoured, blank sections mean defaults

---
 terragraph_planner/common/configuration/configs.py | 9 ++++++---
 terragraph_planner/common/configuration/utils.py   | 7 ++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index 8389d0b..ce8cdbb 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -91,7 +91,9 @@ class ConfigParser:
         """
         spec = getfullargspec(cls.__init__)
         args = spec.args
-        prop_dict_lower = {k.casefold(): v for k, v in propdict.items()}
+        prop_dict_lower = {
+            k.strip().casefold(): v for k, v in propdict.items()
+        }
         func_arg_val = {}
         for key, value in prop_dict_lower.items():
             # Enable case in-sensitive
@@ -137,8 +139,9 @@ class ConfigParser:
                             raise Exception(f"Unexpected input objects: {err}")
             elif isinstance(value, dict):
                 for sub_key, sub_value in value.items():
-                    if sub_key.casefold() in set(args):
-                        func_arg_val[sub_key.casefold()] = sub_value
+                    sub_key = sub_key.strip().casefold()
+                    if sub_key in set(args):
+                        func_arg_val[sub_key] = sub_value
         # If the input key has None value, use the default value in the class constructor
         func_arg_val = {
             key: val for key, val in func_arg_val.items() if val is not None
diff --git a/terragraph_planner/common/configuration/utils.py b/terragraph_planner/common/configuration/utils.py
index c33c81f..db44fdc 100644
--- a/terragraph_planner/common/configuration/utils.py
+++ b/terragraph_planner/common/configuration/utils.py
@@ -92,7 +92,12 @@ def _load_dict_from_file(
 
 
 def struct_objects_from_file(obj_name: str, file_path: str) -> ConfigParser:
-    data_dict = _load_dict_from_file(file_path)
+    # The section names are case-insensitive, and a section left blank is the
+    # same as an empty section.
+    data_dict = {
+        k.strip().upper(): v if v is not None else {}
+        for k, v in _load_dict_from_file(file_path).items()
+    }
     try:
         if obj_name == SYSTEM:
             # If system parameters are missing in the config file, the default
-- 
2.43.0


From 4d25b85578c957611ebde16ba5ce3563f2e61a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:43 +0000
Subject: [PATCH 25/67] fix: configuration to_dict lists the constructor
 arguments only, so that loaded pattern files do not make it raise

---
 terragraph_planner/common/configuration/configs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index ce8cdbb..101a25c 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -56,7 +56,7 @@ class ConfigParser:
         @return: dict of args used in __init__
         """
         func_arg_val = {}
-        for key in self.__dict__:
+        for key in getfullargspec(self.__init__).args[1:]:
             value = getattr(self, key)
             if isinstance(value, (str, int, float)) or value is None:
                 func_arg_val[key] = value
@@ -65,7 +65,7 @@ class ConfigParser:
                 for obj in value:
                     if isinstance(obj, ConfigParser):
                         obj_list.append(obj.to_dict())
-                    elif isinstance(value, EnumParser):
+                    elif isinstance(obj, EnumParser):
                         obj_list.append(obj.to_string())
                     elif isinstance(obj, (str, int, float)):
                         obj_list.append(obj)
@@ -77,7 +77,7 @@ class ConfigParser:
                     func_arg_val[key] = value.to_string()
                 else:
                     raise Exception(
-                        "No internal definition with {type(value).}"
+                        f"No internal definition with {type(value)}"
                     )
         return func_arg_val
 
-- 
2.43.0


From f553c1e59a9a4b4a34981acf2261889b60c10180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:37 +0000
Subject: [PATCH 26/67] fix: configurations are equal only when every setting
 is equal, and comparing them leaves them unchanged

---
 terragraph_planner/common/configuration/configs.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index 101a25c..d9a117e 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -165,17 +165,11 @@ class ConfigParser:
         if isinstance(other, self.__class__):
             for key, value in self.__dict__.items():
                 other_value = other.__dict__[key]
-                if isinstance(value, (int, float, tuple, str)):
-                    if value != other_value:
+                if isinstance(value, list) and isinstance(other_value, list):
+                    if sorted(value) != sorted(other_value):
                         return False
-                elif isinstance(value, list):
-                    value.sort()
-                    other_value.sort()
-                    for i in range(len(value)):
-                        if not value[i].__eq__(other_value[i]):
-                            return False
-                else:
-                    return value.__eq__(other_value)
+                elif value != other_value:
+                    return False
             return True
         else:
             return NotImplemented
-- 
2.43.0


From a54f4edc88ecb8a9516e273fdafb0ab9413a5b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:46 +0000
Subject: [PATCH 27/67] fix: rooftop sites from user input are not taken to be
 on the same building

---
 terragraph_planner/los/base_los_validator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terragraph_planner/los/base_los_validator.py b/terragraph_planner/los/base_los_validator.py
index 0a0ec32..8a2353d 100644
--- a/terragraph_planner/los/base_los_validator.py
+++ b/terragraph_planner/los/base_los_validator.py
@@ -10,6 +10,9 @@ from typing import List, Optional, Tuple
 from shapely.geometry import LineString, Polygon
 from shapely.prepared import PreparedGeometry, prep
 
+from terragraph_planner.common.configuration.constants import (
+    UNKNOWN_BUILDING_ID,
+)
 from terragraph_planner.common.configuration.enums import LocationType
 from terragraph_planner.common.exceptions import LOSException, planner_assert
 from terragraph_planner.common.topology_models.site import LOSSite
@@ -109,6 +112,7 @@ class BaseLOSValidator(ABC):
             == site2.location_type
             == LocationType.ROOFTOP.value
             and site1.building_id == site2.building_id
+            and site1.building_id != UNKNOWN_BUILDING_ID
         )
 
     def _los_out_of_distance_range(self, distance: float) -> bool:
-- 
2.43.0


From 573fc569a655892092f8044a38f110417d7b057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:46 +0000
Subject: [PATCH 28/67] fix: link new sites with line of sight to the sites of
 the base topology

---
 terragraph_planner/los/helper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index cc0f6e6..198222d 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -896,6 +896,8 @@ def add_sites_to_topology(
         if not isinstance(site, DetectedSite):
             if site.site_id not in topology.sites:
                 topology.add_site(site)
+            # The sites of the base topology are already in the topology
+            if topology.sites[site.site_id] is site:
                 site_map[site_idx] = [site]
         else:
             detected_site = site
-- 
2.43.0


From 7c5f14236e545cb05bd8824fbb74a57cf43663ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:08 +0000
Subject: [PATCH 29/67] fix: sight verdicts are not shared between co-located
 sites on different buildings

---
 terragraph_planner/los/helper.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index 198222d..9334fab 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -556,15 +556,14 @@ def compute_los_batch(
     for site1_idx, site2_idx, is_bidirectional in candidate_links:
         site1 = los_sites[site1_idx]
         site2 = los_sites[site2_idx]
-        key1 = (site1.utm_x, site1.utm_y, site1.altitude)
-        key2 = (site2.utm_x, site2.utm_y, site2.altitude)
-        if (key1, key2) in memoized_calculations:
-            confidence = memoized_calculations[(key1, key2)]
-        elif (key2, key1) in memoized_calculations:
-            confidence = memoized_calculations[(key2, key1)]
+        # Sites at the same location may still be on different buildings
+        if (site1, site2) in memoized_calculations:
+            confidence = memoized_calculations[(site1, site2)]
+        elif (site2, site1) in memoized_calculations:
+            confidence = memoized_calculations[(site2, site1)]
         else:
             confidence = los_validator.compute_confidence(site1, site2)
-            memoized_calculations[(key1, key2)] = confidence
+            memoized_calculations[(site1, site2)] = confidence
 
         if confidence > 0:
             valid_los_links.append(ValidLOS(site1_idx, site2_idx, confidence))
-- 
2.43.0


From 1c78649557961c99e73de6f9d54bf5c283919f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 30/67] fix: no candidate links are made for unavailable or
 unreachable sites

---
 terragraph_planner/los/helper.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index 9334fab..4f0810d 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -938,6 +938,12 @@ def add_links_to_topology(
                 continue
             for tx_site in site_map[tx_site_idx]:
                 for rx_site in site_map[rx_site_idx]:
+                    # No candidate link from/to an unavailable/unreachable site
+                    if {
+                        tx_site.status_type,
+                        rx_site.status_type,
+                    } & StatusType.inactive_status():
+                        continue
                     link = Link(
                         tx_site=tx_site,
                         rx_site=rx_site,
-- 
2.43.0


From 3992263cd24aedb53ab795a76cda02d1f6503f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:22 +0000
Subject: [PATCH 31/67] fix: the best place on a building does not depend on
 which building is looked at first

---
 terragraph_planner/los/helper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index 4f0810d..9ae59d1 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -617,10 +617,10 @@ def pick_best_sites_per_building(
             # User input sites must be picked
             picked_sites.append(site_idx)
 
+    # The CNs added below must not count for the buildings processed after them
+    los_counts = [len(neighbors) for neighbors in rx_neighbors]
     for sites_on_building in building_to_sites.values():
-        sites_on_building.sort(
-            reverse=True, key=lambda site: len(rx_neighbors[site])
-        )
+        sites_on_building.sort(reverse=True, key=lambda site: los_counts[site])
         if dn_deployment:
             picked_sites.append(sites_on_building[0])
 
-- 
2.43.0


From 310e402695cf052b94a8d81a633d4fdfa3d6a3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 32/67] fix: keep the cells of input CSV files as they are
 written

A blank or a non-numeric cell turned the whole altitude, height or
latitude column into text, a blank device SKU was looked up as a device,
numeric names lost their leading zeros, short rows were named nan, and
the documented location type column was ignored.
---
 .../common/data_io/csv_library.py             | 50 +++++++++++++------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 78f59d1..52664af 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -42,6 +42,8 @@ def dms_to_decimal(dms: str) -> float:
     try:
         dms_split = re.split("[\\s°'\"]+", dms.strip())
         slen = len(dms_split)
+        if slen == 1:  # in decimal format, with no direction
+            return float(dms)
         direction = dms_split[slen - 1]
         planner_assert(
             (slen == 2 or slen == 4) and direction in ["N", "E", "S", "W"],
@@ -85,8 +87,12 @@ def load_csv_and_validate(
     # Read file
     try:
         df = pd.read_csv(
-            csv_file_path, header=0, keep_default_na=False, encoding="utf-8-sig"
-        )
+            csv_file_path,
+            header=0,
+            dtype=str,
+            keep_default_na=False,
+            encoding="utf-8-sig",
+        ).fillna("")
     except Exception:
         planner_assert(
             False,
@@ -105,8 +111,8 @@ def load_csv_and_validate(
         )
         # Rename the column name as the input key
         for col in matched_cols:
-            if input_key not in NUMERIC_KEYS:
-                df[col] = df[col].apply(str)
+            if input_key in NUMERIC_KEYS and (df[col].str.strip() != "").all():
+                df[col] = pd.to_numeric(df[col], errors="ignore")
             df.rename(columns={col: input_key}, inplace=True)
         nb_matched_cols[input_key] = len(matched_cols)
         if nb_matched_cols[input_key] > 1:
@@ -144,13 +150,21 @@ def load_csv_and_validate(
             df.loc[idx, SiteKey.LONGITUDE] = dms_to_decimal(
                 row[SiteKey.LONGITUDE]
             )
-        if SiteKey.NUMBER_OF_SUBSCRIBERS in row:
-            if df.loc[idx, SiteKey.NUMBER_OF_SUBSCRIBERS] == "":
-                df.loc[idx, SiteKey.NUMBER_OF_SUBSCRIBERS] = None
-            elif isinstance(row[SiteKey.NUMBER_OF_SUBSCRIBERS], str):
-                df.loc[idx, SiteKey.NUMBER_OF_SUBSCRIBERS] = int(
-                    row[SiteKey.NUMBER_OF_SUBSCRIBERS]
-                )
+        for input_key, convert in (
+            (SiteKey.ALTITUDE, float),
+            (SiteKey.HEIGHT, float),
+            (SiteKey.NUMBER_OF_SUBSCRIBERS, int),
+        ):
+            if input_key in row and isinstance(row[input_key], str):
+                try:
+                    value = row[input_key].strip()
+                    df.loc[idx, input_key] = (
+                        convert(value) if len(value) > 0 else None
+                    )
+                except ValueError:
+                    raise DataException(
+                        f"Provided input contains a malformed {input_key.value.output_name}: {row[input_key]}."
+                    )
         for input_key in input_key_list:
             if input_key in row and input_key not in NUMERIC_KEYS:
                 df.loc[idx, input_key] = row[input_key].strip()
@@ -194,17 +208,25 @@ def load_input_sites_from_csv_file(
         longitude = site_row[SiteKey.LONGITUDE]
         if latitude is None or longitude is None:
             continue
+        # A blank cell means that the attribute is not provided
+        location_type = LocationType.__members__.get(
+            site_row.get(SiteKey.LOCATION_TYPE, "").upper(),
+            LocationType.UNKNOWN,
+        )
+        building_id = site_row.get(SiteKey.BUILDING_ID, "")
         site = RawSite(
             site_type=site_type,
             status_type=StatusType.CANDIDATE,
-            device_sku=site_row.get(SiteKey.DEVICE_SKU, None),
+            device_sku=site_row.get(SiteKey.DEVICE_SKU, None) or None,
             name=site_row.get(SiteKey.NAME, None),
             latitude=latitude,
             longitude=longitude,
             altitude=site_row.get(SiteKey.ALTITUDE, None),
             height=site_row.get(SiteKey.HEIGHT, None),
-            location_type=LocationType.UNKNOWN,
-            building_id=site_row.get(SiteKey.BUILDING_ID, None),
+            location_type=location_type,
+            building_id=int(building_id)
+            if location_type is LocationType.ROOFTOP and building_id.isdecimal()
+            else None,
             number_of_subscribers=site_row.get(
                 SiteKey.NUMBER_OF_SUBSCRIBERS, None
             ),
-- 
2.43.0


From dd7c8cadde76b883b45ed05cc750e9092b1c08c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 33/67] fix: refuse a site name already taken when the device
 SKU is appended

---
 terragraph_planner/common/data_io/input_sites.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/input_sites.py b/terragraph_planner/common/data_io/input_sites.py
index dbd9162..96cdcd5 100644
--- a/terragraph_planner/common/data_io/input_sites.py
+++ b/terragraph_planner/common/data_io/input_sites.py
@@ -99,10 +99,16 @@ class InputSites(abc.Sized, abc.Iterable):
         if len(self._site_name_to_device_skus[site.name]) > 1:
             self._append_device_sku_to_site_name(site)
         else:  # That's the first site with this site name. Then no need to append device_sku
-            self._site_name_to_site[site.name] = site
+            self._add_site_name(site)
 
     def _append_device_sku_to_site_name(self, site: Site) -> None:
         if site.name in self._site_name_to_site:
             del self._site_name_to_site[site.name]
         site.name = f"{site.name}_{site.device.device_sku.casefold()}"
+        self._add_site_name(site)
+
+    def _add_site_name(self, site: Site) -> None:
+        # The name may have been taken by another site in the input already
+        if site.name in self._site_name_to_site:
+            raise DataException(f"Duplicate site name {site.name}")
         self._site_name_to_site[site.name] = site
-- 
2.43.0


From 6c057853320c6d45a1dbf2c13df53959a0d781b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 34/67] fix: accept an input rooftop site whose building is
 unknown

A candidate topology with rooftop sites could not be read back.
---
 terragraph_planner/common/data_io/input_sites_loader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/terragraph_planner/common/data_io/input_sites_loader.py b/terragraph_planner/common/data_io/input_sites_loader.py
index 9e83db1..35c6c81 100644
--- a/terragraph_planner/common/data_io/input_sites_loader.py
+++ b/terragraph_planner/common/data_io/input_sites_loader.py
@@ -168,6 +168,9 @@ class InputSitesLoader:
             location = GeoLocation(
                 latitude=latitude, longitude=longitude, altitude=altitude
             )
+            # The building where an input rooftop site is located may be unknown
+            if location_type == LocationType.ROOFTOP and building_id is None:
+                building_id = UNKNOWN_BUILDING_ID
 
         if device_sku is not None:
             planner_assert(
-- 
2.43.0


From e34075dd609ed79ad885bef9a9b7c1ce6641ea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 35/67] fix: a link to an unreachable site may be unavailable

Such links are left by mark_unreachable_components, and are required
between an unavailable and an unreachable site.
---
 terragraph_planner/common/topology_models/link.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/topology_models/link.py b/terragraph_planner/common/topology_models/link.py
index 4e7d7a5..f733c7d 100644
--- a/terragraph_planner/common/topology_models/link.py
+++ b/terragraph_planner/common/topology_models/link.py
@@ -379,7 +379,10 @@ class Link:
         if (
             self._tx_site.status_type == StatusType.UNREACHABLE
             or self._rx_site.status_type == StatusType.UNREACHABLE
-        ) and status_type != StatusType.UNREACHABLE:
+        ) and status_type not in (
+            StatusType.UNREACHABLE,
+            StatusType.UNAVAILABLE,
+        ):
             raise TopologyException(
                 "The status of the link with an unreachable tx or rx site must be unreachable."
             )
-- 
2.43.0


From 3d265a26471de0e644bcb944baa9c17a9a6d10dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 36/67] fix: read all the fields of the placemarks in KML files

Typed fields failed the whole file, the choice among several fields with
the same meaning depended on the hash seed, confidence levels with
decimals were dropped, links without site names were never matched by
position, and the end of a line with more than two points was wrong.
---
 .../common/data_io/kml_library.py             | 44 ++++++++++++-------
 terragraph_planner/common/structs.py          |  4 +-
 2 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index fdd384c..7ab92fe 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -5,6 +5,7 @@
 
 import json
 import logging
+import math
 import os
 import zipfile
 from typing import List, Optional, Tuple, Union
@@ -35,14 +36,24 @@ def _get_feature_field(
     Get the value from the corresponding filed of an ogr feature.
     Only the first field in the feature would be returned if multiple matches.
     """
+    for idx, key in enumerate(feature.keys()):
+        if key.casefold() in input.value.possible_input_names:
+            field = feature.GetField(idx)
+            # A placemark may not have a value for all the fields in its folder
+            if field is not None and field != "":
+                return str(field)
+    return ""
+
+
+def _parse_number(field: str) -> Optional[float]:
+    """
+    Parse the number in a field. Return None if there is no number in it.
+    """
     try:
-        feature_key_set = {k.casefold() for k in feature.keys()}
-        field = feature.GetField(
-            (feature_key_set & input.value.possible_input_names).pop()
-        )
-        return field if field is not None else ""
-    except:
-        return ""
+        number = float(field)
+    except ValueError:
+        return None
+    return number if math.isfinite(number) else None
 
 
 def _get_site_altitude_height(
@@ -98,8 +109,8 @@ def extract_sites(
             else LocationType.STREET_LEVEL
         )
         building_id = _get_feature_field(feature, SiteKey.BUILDING_ID)
-        number_of_subscribers = _get_feature_field(
-            feature, SiteKey.NUMBER_OF_SUBSCRIBERS
+        number_of_subscribers = _parse_number(
+            _get_feature_field(feature, SiteKey.NUMBER_OF_SUBSCRIBERS)
         )
         site = RawSite(
             site_type=site_type,
@@ -115,7 +126,7 @@ def extract_sites(
             if location_type is LocationType.ROOFTOP and building_id.isdecimal()
             else None,
             number_of_subscribers=int(number_of_subscribers)
-            if number_of_subscribers.isdecimal()
+            if number_of_subscribers is not None and number_of_subscribers >= 0
             else None,
         )
         raw_sites.append(site)
@@ -141,18 +152,17 @@ def extract_links(
         tx_site_name = _get_feature_field(feature, LinkKey.TX_SITE_NAME)
         rx_site_name = _get_feature_field(feature, LinkKey.RX_SITE_NAME)
         confidence_level = _get_feature_field(feature, LinkKey.CONFIDENCE_LEVEL)
+        end_point = geometry.GetPoint(geometry.GetPointCount() - 1)
         link = RawLink(
             status_type=status_type,
             link_type=link_type,
-            confidence_level=float(confidence_level)
-            if confidence_level.isdecimal()
-            else None,
-            tx_site_name=tx_site_name,
+            confidence_level=_parse_number(confidence_level),
+            tx_site_name=tx_site_name if len(tx_site_name) > 0 else None,
             tx_latitude=geometry.GetPoint(0)[1],
             tx_longitude=geometry.GetPoint(0)[0],
-            rx_site_name=rx_site_name,
-            rx_latitude=geometry.GetPoint(1)[1],
-            rx_longitude=geometry.GetPoint(1)[0],
+            rx_site_name=rx_site_name if len(rx_site_name) > 0 else None,
+            rx_latitude=end_point[1],
+            rx_longitude=end_point[0],
         )
         raw_links.append(link)
 
diff --git a/terragraph_planner/common/structs.py b/terragraph_planner/common/structs.py
index 4fdd8b6..3f06aa9 100644
--- a/terragraph_planner/common/structs.py
+++ b/terragraph_planner/common/structs.py
@@ -83,10 +83,10 @@ class RawLink(NamedTuple):
     link_type: LinkType
     status_type: StatusType
     confidence_level: Optional[float]
-    tx_site_name: str
+    tx_site_name: Optional[str]
     tx_latitude: float
     tx_longitude: float
-    rx_site_name: str
+    rx_site_name: Optional[str]
     rx_latitude: float
     rx_longitude: float
 
-- 
2.43.0


From 713ce195f0e52131c919a8fde30d096170108aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 37/67] fix: take the type of a KML link from its folder when
 it has no link type field

---
 terragraph_planner/common/data_io/kml_library.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index 7ab92fe..7807eab 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -144,10 +144,10 @@ def extract_links(
     for feature in layer:
         geometry = feature.GetGeometryRef()
         link_type_str = _get_feature_field(feature, LinkKey.LINK_TYPE)
-        link_type = (
+        raw_link_type = (
             LinkType[link_type_str.upper()]
             if link_type_str.upper() in LinkType.__members__
-            else LinkType.WIRELESS_BACKHAUL
+            else link_type
         )
         tx_site_name = _get_feature_field(feature, LinkKey.TX_SITE_NAME)
         rx_site_name = _get_feature_field(feature, LinkKey.RX_SITE_NAME)
@@ -155,7 +155,7 @@ def extract_links(
         end_point = geometry.GetPoint(geometry.GetPointCount() - 1)
         link = RawLink(
             status_type=status_type,
-            link_type=link_type,
+            link_type=raw_link_type,
             confidence_level=_parse_number(confidence_level),
             tx_site_name=tx_site_name if len(tx_site_name) > 0 else None,
             tx_latitude=geometry.GetPoint(0)[1],
-- 
2.43.0


From 40748d5a88a6145a1c8fb3244141fe9f81f5f8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 38/67] fix: escape the name of the network in the KML file

---
 terragraph_planner/common/data_io/topology_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/topology_serializer.py b/terragraph_planner/common/data_io/topology_serializer.py
index d3300fe..ebfaeaa 100644
--- a/terragraph_planner/common/data_io/topology_serializer.py
+++ b/terragraph_planner/common/data_io/topology_serializer.py
@@ -475,7 +475,7 @@ def _set_styles(markup_string: StringIO, topology_name: Optional[str]) -> None:
         <kml xmlns="http://www.opengis.net/kml/2.2"
              xmlns:gx="http://www.google.com/kml/ext/2.2">
         <Document>
-        <name>{topology_name or "topology"}</name>
+        <name>{escape(topology_name or "topology")}</name>
         <Schema name="site_metadata" id="site_metadata">
             <SimpleField name="description" type="string"></SimpleField>
             <SimpleField name="site_hash" type="string"></SimpleField>
-- 
2.43.0


From 08e42b168c4adbba0a532c6db4b03ecbd089c346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 39/67] fix: keep inactive POPs off when POPs are always active

---
 .../ilp_models/network_optimization.py        | 26 +++++++------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 72a4696..6f9e3dc 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -845,22 +845,16 @@ class NetworkOptimization(OptimizationSetup):
         # links because topology validation ensures their connected sites are
         # already active
         for loc in self.locations:
-            if (
-                self.params.always_active_pops
-                and loc in self.type_sets[SiteType.POP]
+            if loc in self.inactive_sites:
+                self.problem.addConstraint(self.site_vars[loc] == 0)
+            elif (
+                (
+                    self.params.always_active_pops
+                    and loc in self.type_sets[SiteType.POP]
+                )
+                or loc in self.proposed_sites
+                or loc in self.existing_sites
             ):
-                if (
-                    loc not in self.inactive_sites
-                    # Colocated sites handled in create_colocated_site_relationship
-                    and len(
-                        self.colocated_locations.get(
-                            self.location_to_geoloc[loc], []
-                        )
-                    )
-                    <= 1
-                ):
-                    self.problem.addConstraint(self.site_vars[loc] == 1)
-            elif loc in self.proposed_sites or loc in self.existing_sites:
                 # Colocated sites handled in create_colocated_site_relationship
                 if (
                     len(
@@ -871,8 +865,6 @@ class NetworkOptimization(OptimizationSetup):
                     <= 1
                 ):
                     self.problem.addConstraint(self.site_vars[loc] == 1)
-            elif loc in self.inactive_sites:
-                self.problem.addConstraint(self.site_vars[loc] == 0)
 
     def create_active_link_polarity_constraints(self) -> None:
         if self.params.ignore_polarities:
-- 
2.43.0


From a9e5881ac8e800ff9cb5f3dfb5c22144321fdf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 40/67] fix: find connectable demand without touching statuses
 and as the co-location rules do

---
 .../ilp_models/network_optimization.py        | 49 ++++++++-----------
 .../ilp_models/site_optimization.py           |  2 +-
 .../optimization/topology_operations.py       | 31 +++++++++---
 3 files changed, 46 insertions(+), 36 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 6f9e3dc..002dd83 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -10,7 +10,6 @@ from time import time
 from typing import Any, Dict, List, Optional, Set, Tuple
 
 import xpress as xp
-from pyre_extensions import none_throws
 
 from terragraph_planner.common.configuration.configs import OptimizerParams
 from terragraph_planner.common.configuration.enums import (
@@ -155,31 +154,15 @@ class NetworkOptimization(OptimizationSetup):
         """
         if status_filter is None:
             status_filter = StatusType.reachable_status()
-        ignore_links = self._get_ignore_links()
-        ignore_sites = self._get_ignore_sites()
-        sites_status: Dict[str, StatusType] = {}
-        links_status: Dict[Tuple[str, str], StatusType] = {}
-        for (tx_site_id, rx_site_id) in ignore_links:
-            link = self.topology.get_link_by_site_ids(tx_site_id, rx_site_id)
-            if link is not None:
-                links_status[(tx_site_id, rx_site_id)] = link.status_type
-                link.status_type = StatusType.UNREACHABLE
-        for site_id in ignore_sites:
-            site = self.topology.sites.get(site_id, None)
-            if site is not None:
-                sites_status[site_id] = site.status_type
-                site.status_type = StatusType.UNREACHABLE
+        # The statuses in the topology can not be changed temporarily because
+        # existing sites and links are immutable
         reachable_demand_sites = get_reachable_demand_sites(
-            self.topology, status_filter
+            self.topology,
+            status_filter,
+            ignore_sites=self._get_ignore_sites(),
+            ignore_links=self._get_ignore_links()
+            | self.topology.get_sectorless_links(),
         )
-        for (tx_site_id, rx_site_id) in ignore_links:
-            link = none_throws(
-                self.topology.get_link_by_site_ids(tx_site_id, rx_site_id)
-            )
-            link.status_type = links_status[(tx_site_id, rx_site_id)]
-        for site_id in ignore_sites:
-            site = none_throws(self.topology.sites.get(site_id, None))
-            site.status_type = sites_status[site_id]
         return {
             demand_id if num_dem == 0 else demand_id + "_" + str(num_dem)
             for demand_id, demand_data in self.topology.demand_sites.items()
@@ -645,10 +628,11 @@ class NetworkOptimization(OptimizationSetup):
 
         return max_site_type, valid_site_types
 
-    def create_colocated_site_relationship(self) -> None:
-        # The logic for co-located sites must match that of _get_ignore_sites()
-        # in SiteOptimization and the logic for finding adversarial links.
-
+    def _get_input_active_sites(self) -> Set[str]:
+        """
+        Sites that must be active, unless an upgraded co-located site takes
+        their place.
+        """
         input_active_sites = self.proposed_sites | self.existing_sites
         for (i, j) in self.proposed_links | self.existing_links:
             input_active_sites.add(i)
@@ -660,6 +644,13 @@ class NetworkOptimization(OptimizationSetup):
                     and i not in self.inactive_sites
                 ):
                     input_active_sites.add(i)
+        return input_active_sites
+
+    def create_colocated_site_relationship(self) -> None:
+        # The logic for co-located sites must match that of _get_ignore_sites()
+        # in SiteOptimization and the logic for finding adversarial links.
+
+        input_active_sites = self._get_input_active_sites()
         for locs in self.colocated_locations.values():
             if len(locs) <= 1:
                 continue
@@ -763,6 +754,8 @@ class NetworkOptimization(OptimizationSetup):
         if len(self.type_sets[DEMAND]) == 0:
             return
         if self.params.maximize_common_bandwidth:
+            if len(self.connected_demand_sites) == 0:
+                return
             # Common bandwidth cannot exceeed the minimum of the demand at all
             # connectable demand sites. Thus, x% coverage would mean that the
             # bandwidth at every demand site is at least x% of the minimum
diff --git a/terragraph_planner/optimization/ilp_models/site_optimization.py b/terragraph_planner/optimization/ilp_models/site_optimization.py
index 5849d29..72b5d0a 100644
--- a/terragraph_planner/optimization/ilp_models/site_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/site_optimization.py
@@ -89,7 +89,7 @@ class SiteOptimization(NetworkOptimization):
         """
         ignore_sites = super(SiteOptimization, self)._get_ignore_sites()
 
-        input_active_sites = self.proposed_sites | self.existing_sites
+        input_active_sites = self._get_input_active_sites()
         for locs in self.colocated_locations.values():
             active_colocated_sites = input_active_sites.intersection(set(locs))
             if len(active_colocated_sites) == 0:
diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index b172eb1..fade56a 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -6,7 +6,7 @@
 import logging
 import math
 from collections import defaultdict
-from typing import Dict, List, Optional, Set, Tuple
+from typing import AbstractSet, Dict, List, Optional, Set, Tuple
 
 from pyre_extensions import none_throws
 
@@ -57,13 +57,18 @@ logger: logging.Logger = logging.getLogger(__name__)
 def hops_from_pops(
     topology: Topology,
     status_filter: Optional[Set[StatusType]],
+    ignore_sites: AbstractSet[str] = frozenset(),
+    ignore_links: AbstractSet[Tuple[str, str]] = frozenset(),
 ) -> Dict[str, int]:
     if status_filter is None:
         status_filter = set(StatusType)
     hop_counts = {}
-    current_site_ids = topology.get_site_ids(
-        status_filter=status_filter,
-        site_type_filter={SiteType.POP},
+    current_site_ids = (
+        topology.get_site_ids(
+            status_filter=status_filter,
+            site_type_filter={SiteType.POP},
+        )
+        - ignore_sites
     )
     site_count = len(current_site_ids)
     if site_count == 0:
@@ -82,6 +87,8 @@ def hops_from_pops(
             if (
                 link.tx_site.site_id in current_site_ids
                 and link.status_type in status_filter
+                and (link.tx_site.site_id, link.rx_site.site_id)
+                not in ignore_links
             )
         ]
         new_ids = {
@@ -91,6 +98,7 @@ def hops_from_pops(
             if (
                 topology.sites[site_id].status_type in status_filter
                 and site_id not in current_site_ids
+                and site_id not in ignore_sites
             )
         }
         if len(new_ids) > 0:
@@ -103,12 +111,21 @@ def hops_from_pops(
 
 
 def get_reachable_demand_sites(
-    topology: Topology, status_filter: Set[StatusType]
+    topology: Topology,
+    status_filter: Set[StatusType],
+    ignore_sites: AbstractSet[str] = frozenset(),
+    ignore_links: AbstractSet[Tuple[str, str]] = frozenset(),
 ) -> Set[str]:
     """
-    Get all demand sites that can be reached from any POP.
+    Get all demand sites that can be reached from any POP without using the
+    ignored sites and links.
     """
-    hops_counts = hops_from_pops(topology, status_filter=status_filter)
+    hops_counts = hops_from_pops(
+        topology,
+        status_filter=status_filter,
+        ignore_sites=ignore_sites,
+        ignore_links=ignore_links,
+    )
     reachable_demand_sites = set()
     for demand_site in topology.demand_sites.values():
         for site in demand_site.connected_sites:
-- 
2.43.0


From 0998e086937ad436640a6b49e1f6f05ce45bcdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:43 +0000
Subject: [PATCH 41/67] fix: do not exit cost optimization early for demand
 served at the POPs, exempt wired links from polarity

---
 .../ilp_models/cost_optimization.py           | 27 +++++++++++++++++--
 .../ilp_models/network_optimization.py        |  3 +++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/cost_optimization.py b/terragraph_planner/optimization/ilp_models/cost_optimization.py
index 8defa95..f39523e 100644
--- a/terragraph_planner/optimization/ilp_models/cost_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/cost_optimization.py
@@ -8,8 +8,13 @@ import time
 from typing import Optional
 
 from terragraph_planner.common.configuration.configs import OptimizerParams
-from terragraph_planner.common.configuration.enums import DebugFile, StatusType
+from terragraph_planner.common.configuration.enums import (
+    DebugFile,
+    SiteType,
+    StatusType,
+)
 from terragraph_planner.common.topology_models.topology import Topology
+from terragraph_planner.optimization.constants import DEMAND, EPSILON
 from terragraph_planner.optimization.ilp_models.site_optimization import (
     SiteOptimization,
 )
@@ -73,7 +78,25 @@ class MinCostNetwork(SiteOptimization):
             pop_capacity=self.params.pop_capacity,
             status_filter=StatusType.reachable_status(),
         )
-        if max_capacity < self.max_throughput * self.params.coverage_percentage:
+        # Demand connected to a POP itself can be served without using any of
+        # the outgoing links of the POPs
+        max_capacity += sum(
+            self.demand_at_location[loc]
+            for loc in self.locations
+            if loc in self.type_sets[DEMAND]
+            and any(
+                site in self.type_sets[SiteType.POP]
+                and site not in self.inactive_sites
+                for site, _ in self.incoming_links[loc]
+            )
+        )
+        # Common bandwidth only has to cover the minimum of the connectable
+        # demand rather than the total demand
+        if (
+            not self.params.maximize_common_bandwidth
+            and max_capacity + EPSILON
+            < self.max_throughput * self.params.coverage_percentage
+        ):
             # The maximum capacity that the POPs can support is less than the
             # total demand in the area. Flow balance constraints can not be
             # satisfied.
diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 002dd83..7123bf8 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -864,6 +864,9 @@ class NetworkOptimization(OptimizationSetup):
             return
         # If a link should be active, then the end sites must be of opposite polarities
         for (i, j) in self.links:
+            if (i, j) in self.wired_links:
+                # Polarity is irrelevant for wired links
+                continue
             if (i, j) in self.proposed_links or (i, j) in self.existing_links:
                 if i in self.odd and j in self.odd:
                     # Because only co-located CN sites can be upgraded and CN
-- 
2.43.0


From 900328942640141965fef265059503a9c1fd98fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 42/67] fix: redundancy with isolated DNs, DNs on a line, idle
 POPs and inexact shortages

---
 .../ilp_models/redundancy_optimization.py     | 60 ++++++++++++-------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
index a8568a9..dcc941e 100644
--- a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
@@ -13,7 +13,7 @@ from typing import Any, List, Optional, Set, Tuple
 import networkx as nx
 import numpy as np
 import xpress as xp
-from scipy.spatial import Delaunay
+from scipy.spatial import Delaunay, QhullError
 
 from terragraph_planner.common.configuration.configs import OptimizerParams
 from terragraph_planner.common.configuration.enums import (
@@ -101,11 +101,9 @@ class RedundantNetwork(SiteOptimization):
         self.restricted_sites: Set[str] = {
             loc for link in self.restricted_links for loc in link
         }
-        planner_assert(
-            set(self.dns).issubset(self.restricted_sites),
-            "Restricted sites must include all active DNs",
-            OptimizerException,
-        )
+        # Redundancy cannot be built for active DNs that do not have any link in
+        # the backhaul (e.g., isolated existing DNs)
+        self.dns = [dn for dn in self.dns if dn in self.restricted_sites]
 
         # Variables created when building the optimization model
         self.problem = None  # pyre-fixme
@@ -456,8 +454,15 @@ class RedundantNetwork(SiteOptimization):
             shortage_decisions = self._extract_flat_dictionary(
                 solution_vector, self.shortage, binary=False
             )
-            # Set shortage to decisions output for second solve
-            self.shortage = shortage_decisions
+            # Set shortage to decisions output for second solve; because all
+            # capacities are integers, so is the shortage apart from numerical
+            # errors, which would make the second problem infeasible
+            self.shortage = {
+                dn: float(round(decision))
+                if math.isclose(decision, round(decision), abs_tol=EPSILON)
+                else decision
+                for dn, decision in shortage_decisions.items()
+            }
         else:
             self.shortage = None
         end_time = time.time()
@@ -734,6 +739,13 @@ def compute_candidate_edges_for_redundancy(
         and site.status_type in StatusType.active_status()
     ]
 
+    # All of the POPs connected to the supersource, even if they are not active
+    source_pops = [
+        site_id
+        for site_id, site in topology.sites.items()
+        if G.has_edge(SUPERSOURCE, _get_node_in(site_id))
+    ]
+
     edges = set()
 
     # Compute max flow from each POP to each DN
@@ -742,7 +754,7 @@ def compute_candidate_edges_for_redundancy(
         logger.info("Computing disjoint paths from POP")
         for (i, dn) in enumerate(dns):
             for pop in pops:
-                for other in pops:
+                for other in source_pops:
                     G[SUPERSOURCE][_get_node_in(other)]["capacity"] = (
                         pop_source_capacity if pop == other else 0.0
                     )
@@ -772,7 +784,7 @@ def compute_candidate_edges_for_redundancy(
                 logger.info(f"{i+1}/{len(dns)} DNs processed")
 
         # Restore pop capacity
-        for pop in pops:
+        for pop in source_pops:
             G[SUPERSOURCE][_get_node_in(pop)]["capacity"] = pop_source_capacity
 
     # Compute max flow from each DN to each other DN it is connected to in the
@@ -782,7 +794,7 @@ def compute_candidate_edges_for_redundancy(
         logger.info("Computing disjoint paths between DNs")
 
         B = G.copy()
-        B.remove_node(SUPERSOURCE)
+        B.remove_nodes_from([SUPERSOURCE])
 
         is_symmetric = all(
             B.has_edge(_get_node_out(v[1]), _get_node_in(u[1]))
@@ -795,22 +807,28 @@ def compute_candidate_edges_for_redundancy(
         if len(dns) > 2:
             # Compute Delaunay triangulation (in 2D space)
             # Note: two proposed DNs with the same lat/lon should not occur
-            tri = Delaunay(
-                np.array(
+            points = np.array(
+                [
                     [
-                        [
-                            topology.sites[dn].latitude,
-                            topology.sites[dn].longitude,
-                        ]
-                        for dn in dns
+                        topology.sites[dn].latitude,
+                        topology.sites[dn].longitude,
                     ]
-                )
+                    for dn in dns
+                ]
             )
 
             # Build graph from Delaunay triangulation
             delaunay_graph = nx.Graph()
-            for T in tri.simplices:
-                nx.add_cycle(delaunay_graph, T)
+            try:
+                for T in Delaunay(points).simplices:
+                    nx.add_cycle(delaunay_graph, T)
+            except QhullError:
+                # If all of the DNs are along a line, there is no triangulation
+                # and each of them is connected to the next one on the line
+                nx.add_path(
+                    delaunay_graph,
+                    sorted(range(len(dns)), key=lambda k: tuple(points[k])),
+                )
 
             # Pair vertices together that are one hop or two hops away in
             # Delaunay triangulation; if graph is symmetric, only add one of
-- 
2.43.0


From 6bd713ce9b294eebf25f5c2661d61505a8d347ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 43/67] fix: duplicate the links of a proposed POP from the
 link itself, ruled out links stay ruled out

---
 .../ilp_models/pop_proposal_optimization.py   | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index ea864e3..ec1c7a8 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -37,13 +37,22 @@ from terragraph_planner.optimization.topology_operations import (
 logger: logging.Logger = logging.getLogger(__name__)
 
 
+def _get_duplicate_link_status(link: Link) -> StatusType:
+    """
+    The duplicate of a link that is ruled out is ruled out as well.
+    """
+    if link.status_type in StatusType.inactive_status():
+        return link.status_type
+    return StatusType.CANDIDATE
+
+
 def add_duplicate_pop_to_dn_site(
     topology: Topology, solution: OptimizationSolution
 ) -> None:
     """
     Once the access network optimization is ran and a solution is found, duplicate all
-    activated DN sites to create new POPs (with duplicated links and sectors) to the same
-    location. Set corresponding DNs/POPs to CANDIDATE for optimizer to pick.
+    activated candidate DN sites to create new POPs (with duplicated links and sectors)
+    to the same location. Set corresponding DNs/POPs to CANDIDATE for optimizer to pick.
     """
     sectors_for_sites: Dict[str, List[Sector]] = defaultdict(list)
     for sector in topology.sectors.values():
@@ -56,6 +65,7 @@ def add_duplicate_pop_to_dn_site(
         if (
             solution.site_decisions.get(site_id, 0) == 1
             and site.site_type == SiteType.DN
+            and site.status_type == StatusType.CANDIDATE
         ):
             # Create POP at same location as DN
             new_pop = Site(
@@ -101,7 +111,7 @@ def add_duplicate_pop_to_dn_site(
                 rx_site=neighbor_site,
                 tx_sector=duplicated_sectors[tx_link.tx_sector.sector_id],
                 rx_sector=tx_link.rx_sector,
-                status_type=StatusType.CANDIDATE,
+                status_type=_get_duplicate_link_status(tx_link),
                 is_wireless=tx_link.is_wireless,
                 confidence_level=tx_link.confidence_level,
             )
@@ -123,9 +133,9 @@ def add_duplicate_pop_to_dn_site(
                 rx_site=pop_site,
                 tx_sector=rx_link.tx_sector,
                 rx_sector=duplicated_sectors[rx_link.rx_sector.sector_id],
-                status_type=StatusType.CANDIDATE,
-                is_wireless=tx_link.is_wireless,
-                confidence_level=tx_link.confidence_level,
+                status_type=_get_duplicate_link_status(rx_link),
+                is_wireless=rx_link.is_wireless,
+                confidence_level=rx_link.confidence_level,
             )
             new_rx_link.link_budget = deepcopy(rx_link.link_budget)
             topology.add_link(new_rx_link)
-- 
2.43.0


From d0f802b7793314b3b452b0a496e44f3c03546350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 44/67] fix: propose POPs among candidate DNs only, with
 existing and co-located POPs and without CNs

---
 .../ilp_models/pop_proposal_optimization.py   | 54 ++++++++++++-------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index ec1c7a8..29644a1 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -150,17 +150,23 @@ def add_duplicate_pop_to_dn_site(
 
 def _compute_access_candidate_topology(topology: Topology) -> Topology:
     """
-    Assume that all DNs can be used as POPs and the only links are from POPs to CNs.
-    This function converts DNs into POPs and deletes all backhaul links.
+    Assume that all candidate DNs can be used as POPs and the only links are from POPs
+    to CNs. This function converts DNs into POPs and deletes all backhaul links.
     """
     topology_copy = deepcopy(topology)
     colocated_sites = topology_copy.get_colocated_sites()
 
-    # Find DNs that are co-located with other POPs
+    # Find DNs that are co-located with other POPs or with active DNs; the
+    # latter can not be replaced by a POP
     dns_on_pops = set()
     for sites in colocated_sites.values():
         any_pops = any(
             topology_copy.sites[site_id].site_type == SiteType.POP
+            or (
+                topology_copy.sites[site_id].site_type == SiteType.DN
+                and topology_copy.sites[site_id].status_type
+                in StatusType.active_status()
+            )
             for site_id in sites
         )
         if any_pops:
@@ -218,24 +224,32 @@ class POPProposalNetwork(SiteOptimization):
         params.always_active_pops = always_active_pops
         params.maximize_common_bandwidth = maximize_common_bandwidth
 
-    def create_pop_constraint(self) -> None:
-        num_input_pops = len(
-            [
-                site.site_id
-                for site in self.input_topology.sites.values()
-                if site.site_type == SiteType.POP
-                and site.status_type not in StatusType.inactive_status()
-            ]
-        )
-        num_access_pops = len(
-            [
-                site.site_id
-                for site in self.topology.sites.values()
-                if site.site_type == SiteType.POP
-                and site.status_type not in StatusType.inactive_status()
-            ]
+    def check_pop_feasibility(self, topology: Topology) -> None:
+        """
+        POPs without any CNs can still serve the demand connected to them.
+        """
+
+    def check_demand_feasibility(self, topology: Topology) -> None:
+        """
+        The DNs proposed as POPs do not need any incoming links.
+        """
+
+    def _count_pop_locations(self, topology: Topology) -> int:
+        return sum(
+            any(
+                topology.sites[site_id].site_type == SiteType.POP
+                and topology.sites[site_id].status_type
+                not in StatusType.inactive_status()
+                for site_id in site_ids
+            )
+            for site_ids in topology.get_colocated_sites().values()
         )
 
+    def create_pop_constraint(self) -> None:
+        # At most one of several co-located POPs can be active
+        num_input_pops = self._count_pop_locations(self.input_topology)
+        num_access_pops = self._count_pop_locations(self.topology)
+
         # Number of POPs to be proposed should equal to the number of extra
         # POPs plus the input POPs. That number should not exceed the number of
         # POPs in the access topology.
@@ -272,7 +286,7 @@ class POPProposalNetwork(SiteOptimization):
         for site in self.input_topology.sites.values():
             if (
                 site.site_type == SiteType.POP
-                and site.status_type not in StatusType.inactive_status()
+                and site.status_type == StatusType.CANDIDATE
             ):
                 self.proposed_sites.add(site.site_id)
                 # Modifying the topology site status directly is not necessary
-- 
2.43.0


From 80264c11418a2397876e5876ad88b9a44d5bdc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 45/67] fix: sectors of one node must be active together in the
 flow models

---
 .../optimization/ilp_models/network_optimization.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 7123bf8..60fb670 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -388,7 +388,7 @@ class NetworkOptimization(OptimizationSetup):
                 if self.sector_to_type[sec] in IMAGINARY_SECTOR_TYPES:
                     continue  # skip imaginary sectors - they're their own thing
                 node_id = self.topology.sectors[sec].node_id
-                if (loc, sec) in self.sector_vars:
+                if (loc, sec, 0) in self.sector_vars:
                     nodes.setdefault((loc, node_id), []).append((loc, sec))
         for linked_sectors in nodes.values():
             for s1, s2 in itertools.combinations(linked_sectors, 2):
-- 
2.43.0


From 11fcba5a435d722c131ff0dbf3d86e8e31397ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 46/67] fix: no flow through inactive sites when minimizing
 interference

---
 .../optimization/ilp_models/interference_optimization.py         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/terragraph_planner/optimization/ilp_models/interference_optimization.py b/terragraph_planner/optimization/ilp_models/interference_optimization.py
index e90f03f..8f4e431 100644
--- a/terragraph_planner/optimization/ilp_models/interference_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/interference_optimization.py
@@ -177,6 +177,7 @@ class MinInterferenceNetwork(NetworkOptimization):
         # Constraints
         self.create_tdm_flow_relationship()
         self.create_tdm_link_relationship()
+        self.create_flow_site_relationship()
         self.create_flow_balance_with_shortage()
         self.create_pop_load_constraints()
         self.create_flow_link_relationship()
-- 
2.43.0


From 0e858255fccaa5f3cf1de35819402f4d9cac53aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 47/67] fix: given wired links have no sectors to activate

---
 .../optimization/ilp_models/interference_optimization.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/interference_optimization.py b/terragraph_planner/optimization/ilp_models/interference_optimization.py
index 8f4e431..e2aca5e 100644
--- a/terragraph_planner/optimization/ilp_models/interference_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/interference_optimization.py
@@ -368,6 +368,10 @@ class MinInterferenceNetwork(NetworkOptimization):
             if (i, j) in self.active_link:
                 self.problem.addConstraint(self.active_link[(i, j)] == 1)
 
+            # Wired links have no sectors
+            if (i, j) in self.wired_links:
+                continue
+
             # Ensure one of the sectors are active if the link is active
             (sector1, sector2) = self.link_to_sectors.get((i, j), (None, None))
             planner_assert(
-- 
2.43.0


From 29adc4dbb42f01291243abebd56aa9e5f7a4135f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 48/67] fix: unavailable wired links stay inactive in the
 interference solution

---
 .../optimization/ilp_models/interference_optimization.py         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/terragraph_planner/optimization/ilp_models/interference_optimization.py b/terragraph_planner/optimization/ilp_models/interference_optimization.py
index e2aca5e..d1cc036 100644
--- a/terragraph_planner/optimization/ilp_models/interference_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/interference_optimization.py
@@ -1107,6 +1107,7 @@ class MinInterferenceNetwork(NetworkOptimization):
             if (
                 self.location_to_type[i] in IMAGINARY_SITE_TYPES
                 or self.location_to_type[j] in IMAGINARY_SITE_TYPES
+                or (i, j) in self.inactive_links
             ):
                 continue
             tx_active = self.site_vars[i]
-- 
2.43.0


From 28a847a861d54104b69fadfdab7d0dc4a714e221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 49/67] fix: an existing CN left unserved aborted the planning
 when sectors were aimed anew

---
 .../optimization/topology_operations.py             | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index fade56a..9a41514 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -448,13 +448,14 @@ def readjust_sectors_post_opt(
     for sector in sectors_to_add:
         topology.add_sector(sector)
 
-    # Sectors on inactive CN sites do not have well-defined orientation even
-    # post-optimization; clear the sectors for all incoming links to such sites
-    # (also needed for validate_link_sectors in add_sectors_to_links)
+    # Sectors on inactive or unserved CN sites do not have well-defined
+    # orientation even post-optimization; clear the sectors for all incoming
+    # links to such sites (also needed for validate_link_sectors in
+    # add_sectors_to_links)
     for link in topology.links.values():
-        if (
-            link.rx_site.site_type == SiteType.CN
-            and link.rx_site.status_type not in StatusType.active_status()
+        if link.rx_site.site_type == SiteType.CN and (
+            link.rx_site.status_type not in StatusType.active_status()
+            or (link.is_wireless and not neighbor_sites[link.rx_site.site_id])
         ):
             planner_assert(
                 link.status_type not in StatusType.active_status(),
-- 
2.43.0


From b038d8b6f722d794570cfb3017c6f6447beba26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 50/67] fix: a plan without active links aborted the report

---
 terragraph_planner/optimization/topology_report.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index 675458f..2ba2b20 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -379,9 +379,15 @@ def get_topology_metrics(
             * len(flow_solution.connected_demand_sites),
             minimum_bandwdith_for_connected_demand=flow_solution.buffer_decision,
             link_capacity_utilization=MetricStatistics(
-                avg=sum(active_link_utilization) / len(active_link_utilization),
-                max=max(active_link_utilization),
-                min=min(active_link_utilization),
+                avg=sum(active_link_utilization) / len(active_link_utilization)
+                if len(active_link_utilization) > 0
+                else 0,
+                max=max(active_link_utilization)
+                if len(active_link_utilization) > 0
+                else 0,
+                min=min(active_link_utilization)
+                if len(active_link_utilization) > 0
+                else 0,
             ),
         )
     else:
-- 
2.43.0


From 6368add6946fd8e50f4a4c4755c2c9351c7a09c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:01 +0000
Subject: [PATCH 51/67] fix: proposed links among disconnected existing sites
 aborted the planning

---
 terragraph_planner/optimization/topology_optimization.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/topology_optimization.py b/terragraph_planner/optimization/topology_optimization.py
index 4a7df4d..dbc5bb5 100644
--- a/terragraph_planner/optimization/topology_optimization.py
+++ b/terragraph_planner/optimization/topology_optimization.py
@@ -654,14 +654,16 @@ def _remove_disconnected_components_from_topology(topology: Topology) -> None:
             }:
                 sector.status_type = StatusType.CANDIDATE
 
-    # Some active links may have ended up with candidate end-sites
-    # Ensure that those links are also set to candidate.
+    # Some active links may have ended up with disconnected or candidate
+    # end-sites. Ensure that those links are also set to candidate.
     for link in topology.links.values():
         if link.status_type in StatusType.active_status():
             tx_site = link.tx_site
             rx_site = link.rx_site
             if (
-                tx_site.status_type == StatusType.CANDIDATE
+                tx_site.site_id not in hop_counts
+                or rx_site.site_id not in hop_counts
+                or tx_site.status_type == StatusType.CANDIDATE
                 or rx_site.status_type == StatusType.CANDIDATE
             ):
                 current_link_status = link.status_type
-- 
2.43.0


From 2907b1477b9017fb8a7e4b8afef14b1e93868c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 52/67] fix: a GeoTIFF with a date could not be loaded

---
 terragraph_planner/common/data_io/elevation_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/elevation_loader.py b/terragraph_planner/common/data_io/elevation_loader.py
index 71c9717..70fbe11 100644
--- a/terragraph_planner/common/data_io/elevation_loader.py
+++ b/terragraph_planner/common/data_io/elevation_loader.py
@@ -147,7 +147,7 @@ class ElevationLoader(DataValidator[Elevation]):
             geotransform[0],
             geotransform[3],
             ds.GetSpatialRef(),
-            ds.GetMetadata_Dict["TIFFTAG_DATETIME"]
+            ds.GetMetadata_Dict()["TIFFTAG_DATETIME"]
             if "TIFFTAG_DATETIME" in ds.GetMetadata_Dict()
             else None,
         )
-- 
2.43.0


From acd2a2d27de3681548f43e2c7000056dd9d90715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 53/67] fix: a zipped shape file with a resource fork folder
 was refused

---
 terragraph_planner/common/data_io/building_group_loader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/building_group_loader.py b/terragraph_planner/common/data_io/building_group_loader.py
index 1f92809..7c5d347 100644
--- a/terragraph_planner/common/data_io/building_group_loader.py
+++ b/terragraph_planner/common/data_io/building_group_loader.py
@@ -15,6 +15,7 @@ from shapely import geometry, wkt
 
 from terragraph_planner.common.constants import LAT_LON_EPSG
 from terragraph_planner.common.data_io.building_group_rules import (
+    MAC_RESOURCE_FORK_DIR,
     BuildingGroupRules,
     ZippedShpFileRules,
 )
@@ -60,7 +61,10 @@ class BuildingGroupLoader(DataValidator[BuildingGroup], DataWorkSpace):
             self.validate_shp_file(zip_ref.namelist())
             zip_ref.extractall(unzipped_dir)
             dir_names = [
-                ref.filename for ref in zip_ref.infolist() if ref.is_dir()
+                ref.filename
+                for ref in zip_ref.infolist()
+                if ref.is_dir()
+                and ref.filename.rstrip("/") != MAC_RESOURCE_FORK_DIR
             ]
             if len(dir_names) > 1:
                 raise DataException(
-- 
2.43.0


From f7ea4b6a23d82138ae0e740b1b51cabedb711592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 54/67] fix: an outline with a repeated vertex aborted the
 corner detection

---
 terragraph_planner/los/building.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/los/building.py b/terragraph_planner/los/building.py
index 9b16e19..b8d1bd9 100644
--- a/terragraph_planner/los/building.py
+++ b/terragraph_planner/los/building.py
@@ -3,6 +3,7 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
+from itertools import groupby
 from typing import List, Optional, Tuple
 
 from pyre_extensions import none_throws
@@ -147,7 +148,10 @@ class Building:
         ]
 
         corners = []
-        polygon_vertices = list(self.polygon.exterior.coords)
+        # A vertex may be repeated in the outline
+        polygon_vertices = [
+            vertex for vertex, _ in groupby(self.polygon.exterior.coords)
+        ]
         if len(polygon_vertices) < POLYGON_MINIMUM_VERTICES:
             return corners
 
-- 
2.43.0


From 41750117c29a9a1af9bbf9cbd9bb6c7787a332e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 55/67] fix: no site was detected at the highest point without
 surface elevation

---
 terragraph_planner/los/building_group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/los/building_group.py b/terragraph_planner/los/building_group.py
index 03bfdf8..d89685a 100644
--- a/terragraph_planner/los/building_group.py
+++ b/terragraph_planner/los/building_group.py
@@ -176,7 +176,9 @@ class BuildingGroup(GISData):
         )
 
         for building_id, building in enumerate(self.building_list):
-            if detect_center:
+            # The highest point can't be found without surface elevation, so the
+            # center is used instead
+            if detect_center or (detect_highest and surface_elevation is None):
                 site_candidates.append(
                     _convert_point_3d_to_site(
                         none_throws(building.detect_center(surface_elevation)),
-- 
2.43.0


From abff792596214c4807fde18b33e0ed691d2e43c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 56/67] fix: holes of KML polygons were read as polygons, and
 KML files with empty placemarks or grouped points aborted

---
 terragraph_planner/common/data_io/kml_library.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index 7807eab..419be51 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -277,7 +277,13 @@ def extract_polygons(
         for layer in kml_ds:
             for feature in layer:
                 geo = feature.GetGeometryRef()
-                for i in range(geo.GetGeometryCount()):
+                # Skip the placemarks without any geometry
+                if geo is None:
+                    continue
+                # The first ring of a Polygon is its outline and the others are
+                # the holes in it, which are not polygons on their own
+                is_polygon = ogr.GT_Flatten(geo.GetGeometryType()) == ogr.wkbPolygon
+                for i in range(1 if is_polygon else geo.GetGeometryCount()):
                     coords = json.loads(geo.GetGeometryRef(i).ExportToJson())[
                         "coordinates"
                     ]
@@ -286,6 +292,7 @@ def extract_polygons(
                     # We only use the first polygon in the multipolygon
                     if (
                         len(coords) > 0
+                        and type(coords[0]) is list
                         and len(coords[0]) > 0
                         and type(coords[0][0]) is list
                     ):
-- 
2.43.0


From e3a3f385b2c6d5db6b2d4cd86461ab77e7d610ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 57/67] fix: holes in a sum or difference of elevations became
 heights

---
 terragraph_planner/los/elevation.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/los/elevation.py b/terragraph_planner/los/elevation.py
index fb741df..34cfcbd 100644
--- a/terragraph_planner/los/elevation.py
+++ b/terragraph_planner/los/elevation.py
@@ -281,10 +281,28 @@ class Elevation(GISData):
             and self.left_top_y == other_geogrids.left_top_y
         )
 
+    def _mask_no_data(
+        self,
+        data_matrix: npt.NDArray[np.float32],
+        other_geogrids: "Elevation",
+    ) -> npt.NDArray[np.float32]:
+        """
+        There is no data wherever either of the two elevations has no data
+        """
+        return np.where(
+            (self.data_matrix == NO_DATA_VALUE)
+            | (other_geogrids.data_matrix == NO_DATA_VALUE),
+            NO_DATA_VALUE,
+            data_matrix,
+        ).astype(data_matrix.dtype)
+
     def __add__(self, other_geogrids: "Elevation") -> "Elevation":
         if self._has_same_metadata(other_geogrids):
             result = Elevation(
-                self.data_matrix + other_geogrids.data_matrix,
+                self._mask_no_data(
+                    self.data_matrix + other_geogrids.data_matrix,
+                    other_geogrids,
+                ),
                 self.utm_bounding_box,
                 self.x_resolution,
                 self.y_resolution,
@@ -302,7 +320,10 @@ class Elevation(GISData):
     def __sub__(self, other_geogrids: "Elevation") -> "Elevation":
         if self._has_same_metadata(other_geogrids):
             result = Elevation(
-                self.data_matrix - other_geogrids.data_matrix,
+                self._mask_no_data(
+                    self.data_matrix - other_geogrids.data_matrix,
+                    other_geogrids,
+                ),
                 self.utm_bounding_box,
                 self.x_resolution,
                 self.y_resolution,
-- 
2.43.0


From 4e6dae3a43b45cd0dcf47bf2934741179476607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 58/67] fix: elevations were taken from the other end of the
 grid beyond its left and top edge

---
 terragraph_planner/los/elevation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/los/elevation.py b/terragraph_planner/los/elevation.py
index 34cfcbd..0721492 100644
--- a/terragraph_planner/los/elevation.py
+++ b/terragraph_planner/los/elevation.py
@@ -261,8 +261,10 @@ class Elevation(GISData):
             (max_utm_x - self.left_top_x) / self.x_resolution
         )
         min_idx_y = math.ceil((self.left_top_y - max_utm_y) / self.y_resolution)
+        # Negative indices would be counted from the other end of the matrix
         result_matrix = self.data_matrix[
-            min_idx_y : max_idx_y + 1, min_idx_x : max_idx_x + 1
+            max(min_idx_y, 0) : max(max_idx_y + 1, 0),
+            max(min_idx_x, 0) : max(max_idx_x + 1, 0),
         ]
         # If the bound is outside of the region with valid data, return a 1 * 1 matrix with
         # the closest elevation as the only element in the matrix
-- 
2.43.0


From 444de55b678f54fca82a66a61bb204711700c9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 59/67] fix: DTM and DHM of different resolutions or frames
 could not be combined

---
 terragraph_planner/los/core.py      |  1 +
 terragraph_planner/los/elevation.py | 28 ++++++++++++++++++++++++++++
 terragraph_planner/los/helper.py    |  4 +++-
 3 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/los/core.py b/terragraph_planner/los/core.py
index 1bc3af6..cf863a0 100644
--- a/terragraph_planner/los/core.py
+++ b/terragraph_planner/los/core.py
@@ -233,6 +233,7 @@ def load_gis_data(
         upsample_to_same_resolution(dtm, dhm)
         dsm = dtm + dhm
     elif dsm is not None and dtm is None and dhm is not None:
+        upsample_to_same_resolution(dsm, dhm)
         dtm = dsm - dhm
 
     errors = building_group_loader.errors + elevation_loader.errors
diff --git a/terragraph_planner/los/elevation.py b/terragraph_planner/los/elevation.py
index 0721492..284e552 100644
--- a/terragraph_planner/los/elevation.py
+++ b/terragraph_planner/los/elevation.py
@@ -189,6 +189,34 @@ class Elevation(GISData):
         self.x_resolution = x_resolution
         self.y_resolution = y_resolution
 
+    def align_with(self, other_geogrids: "Elevation") -> None:
+        """
+        Re-sample data_matrix by nearest neighbor to the grids of other_geogrids
+        """
+        if (
+            self.x_size == other_geogrids.x_size
+            and self.y_size == other_geogrids.y_size
+            and self.x_resolution == other_geogrids.x_resolution
+            and self.y_resolution == other_geogrids.y_resolution
+            and self.left_top_x == other_geogrids.left_top_x
+            and self.left_top_y == other_geogrids.left_top_y
+        ):
+            return
+        data_matrix = np.zeros(
+            (other_geogrids.y_size, other_geogrids.x_size),
+            dtype=self.data_matrix.dtype,
+        )
+        for idx_y in range(other_geogrids.y_size):
+            for idx_x in range(other_geogrids.x_size):
+                data_matrix[idx_y][idx_x] = self.get_value(
+                    *other_geogrids.idx_to_utm(idx_x, idx_y)
+                )
+        self.data_matrix = data_matrix
+        self.x_resolution = other_geogrids.x_resolution
+        self.y_resolution = other_geogrids.y_resolution
+        self.left_top_x = other_geogrids.left_top_x
+        self.left_top_y = other_geogrids.left_top_y
+
     def get_data_as_list(self) -> List[Tuple[float, float, float]]:
         """
         Get data in the format of List[Tuple[utm_x, utm_y, elevation]]
diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index 9ae59d1..30ee881 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -973,10 +973,12 @@ def upsample_to_same_resolution(
     elevation1: Elevation, elevation2: Elevation
 ) -> None:
     """
-    Upsample the two elevations to the same resolution.
+    Upsample the two elevations to the same resolution and the same grids.
     The minimum x/y resolution of the two input elevations is set to match.
     """
     x_res = min(elevation1.x_resolution, elevation2.x_resolution)
     y_res = min(elevation1.y_resolution, elevation2.y_resolution)
     elevation1.set_resolution(x_res, y_res)
     elevation2.set_resolution(x_res, y_res)
+    # The same resolution may still come with different origins or sizes
+    elevation2.align_with(elevation1)
-- 
2.43.0


From 9773d0b069c4c3bea07c5cfa3c0e1495745225c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 60/67] fix: incomplete antenna patterns were accepted, blank
 rows shifted them or aborted with a foreign error

---
 terragraph_planner/common/data_io/csv_library.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 52664af..443934a 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -318,6 +318,8 @@ def read_antenna_pattern_data(
         data = data.replace("", pd.NA)
         # drop columns and rows filled with NA values
         data = data.dropna(axis=1, how="all").dropna(axis=0, how="all")
+        # the rows are looked up by their positions
+        data = data.reset_index(drop=True)
     except Exception:
         planner_assert(
             False,
@@ -334,6 +336,11 @@ def read_antenna_pattern_data(
 
     az_startlist = data[data[0] == "HORIZONTAL"].index
     el_startlist = data[data[0] == "VERTICAL"].index
+    planner_assert(
+        len(az_startlist) == len(idx) and len(el_startlist) == len(idx),
+        "Each antenna pattern must have both horizontal and vertical losses!",
+        DataException,
+    )
     for i in range(len(idx)):
         az_start = az_startlist[i]
         el_start = el_startlist[i]
@@ -344,6 +351,8 @@ def read_antenna_pattern_data(
             el_pattern = data.iloc[el_start + 1 : el_start + 361].astype(
                 "float"
             )
+            if az_pattern[1].count() != 360 or el_pattern[1].count() != 360:
+                raise ValueError
         except ValueError:
             planner_assert(
                 False,
-- 
2.43.0


From 28e8a26f4ea11ef110db1e79983c37068f833e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 61/67] fix: scan pattern files with missing or non-numeric
 entries were accepted or aborted with a foreign error

---
 terragraph_planner/common/data_io/csv_library.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 443934a..5373caa 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -377,17 +377,22 @@ def read_scan_pattern_data(
     pattern_data = {}
     try:
         df = pd.read_csv(pattern_file_path, index_col=0)
+        df_dict = df.to_dict("index")
+        pattern_data = {
+            float(hor): {float(ver): float(v) for ver, v in row.items()}
+            for hor, row in df_dict.items()
+        }
     except Exception:
         planner_assert(
             False,
             "Imported scan pattern file is not in the expected .csv format!",
             DataException,
         )
-    df_dict = df.to_dict("index")
-    pattern_data = {
-        float(hor): {float(ver): float(v) for ver, v in row.items()}
-        for hor, row in df_dict.items()
-    }
+    planner_assert(
+        not df.isna().any(axis=None),
+        "Imported scan pattern file has missing entries!",
+        DataException,
+    )
     return pattern_data
 
 
-- 
2.43.0


From 991a286a84b950db7974c2ee9c09ab6fb3fef0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 62/67] fix: elevation blocks that are zero throughout were
 written as blocks without data

---
 terragraph_planner/common/data_io/elevation_loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/elevation_loader.py b/terragraph_planner/common/data_io/elevation_loader.py
index 70fbe11..afed3bc 100644
--- a/terragraph_planner/common/data_io/elevation_loader.py
+++ b/terragraph_planner/common/data_io/elevation_loader.py
@@ -69,8 +69,9 @@ class ElevationLoader(DataValidator[Elevation]):
             outds.SetSpatialRef(data.spatial_reference)
 
             outband = outds.GetRasterBand(1)
-            outband.WriteArray(data.data_matrix)
+            # Set it first, or blocks of zeros are left out as blocks without data
             outband.SetNoDataValue(NO_DATA_VALUE)
+            outband.WriteArray(data.data_matrix)
             outband.FlushCache()
 
             outband = None
-- 
2.43.0


From f3ac39b0890ad147100b6b942028de7e8ec53ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 63/67] fix: exclusion zones were compared in degrees with
 sight lines in metres and excluded nothing

---
 terragraph_planner/los/helper.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index 30ee881..8d009cb 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -13,7 +13,7 @@ import numpy as np
 import numpy.typing as npt
 from osgeo import osr
 from pyre_extensions import none_throws
-from shapely import wkt
+from shapely import ops, wkt
 from shapely.geometry import Polygon
 from shapely.prepared import prep
 
@@ -30,6 +30,7 @@ from terragraph_planner.common.configuration.enums import (
     StatusType,
 )
 from terragraph_planner.common.constants import (
+    LAT_LON_EPSG,
     LOWER_BOUND_FOR_LOS_DISTANCE,
     UPPER_BOUND_FOR_LOS_DISTANCE,
 )
@@ -43,7 +44,11 @@ from terragraph_planner.common.exceptions import (
     LOSException,
     planner_assert,
 )
-from terragraph_planner.common.geos import GeoLocation
+from terragraph_planner.common.geos import (
+    GeoLocation,
+    TransformerLib,
+    lat_lon_to_utm_epsg,
+)
 from terragraph_planner.common.rf.link_budget_calculator import (
     fspl_based_estimation,
     get_max_tx_power,
@@ -296,9 +301,17 @@ def get_los_topology(
             elif (site2.site_type, site1.site_type) in DIRECTED_LINKS:
                 candidate_links.append(CandidateLOS(j, i, False))
 
-    exclusion_zones = get_exclusion_zones(
-        gis_data_params.site_file_path, ll_boundary
+    # LOS is validated in UTM, while the zones are in lat/lon
+    transformer = TransformerLib.get_tranformer(
+        LAT_LON_EPSG,
+        lat_lon_to_utm_epsg(ll_boundary.centroid.y, ll_boundary.centroid.x),
     )
+    exclusion_zones = [
+        ops.transform(transformer.transform, zone)
+        for zone in get_exclusion_zones(
+            gis_data_params.site_file_path, ll_boundary
+        )
+    ]
 
     logger.info(
         f"{len(candidate_links)} links are prepared for computing line-of-sight."
-- 
2.43.0


From d4e580e21b6cf16d0ed331cf6f6d5cd99efb0184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:13 +0000
Subject: [PATCH 64/67] fix: re-aiming dropped nodes whose sectors serve links
 on different channels

---
 .../optimization/topology_preparation.py           | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 56eb3ee..b8ca2cb 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -995,6 +995,15 @@ def find_best_sectors(
         "Could not find best sector position",
         OptimizerException,
     )
+    # If the channel constraints leave a link without a sector, the links were
+    # better served by the current sectors
+    if (
+        sector_channel_list is not None
+        and not np.any(
+            sector_azimuth_link_mat[none_throws(best_position)], axis=(0, 1)
+        ).all()
+    ):
+        return []
     return [
         get_sector_azimuths_from_node_center(
             azimuth_candidates[sector_idx],
@@ -1002,8 +1011,9 @@ def find_best_sectors(
             horizontal_scan_range,
         )
         for sector_idx in reversed(none_throws(best_position))
-        if sum(node_azimuth_link_mat[sector_idx])
-        > 0  # drop nodes that cover nothing
+        # drop nodes that cover nothing
+        if sum(node_azimuth_link_mat[sector_idx]) > 0
+        or sector_azimuth_link_mat[sector_idx].any()
     ]
 
 
-- 
2.43.0


From 6b2120c9d06ddcc71df572eeb0528a3c19cb7d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:00 +0000
Subject: [PATCH 65/67] fix: keep the part of a building inside the area when
 it also touches the boundary

---
 terragraph_planner/los/building_group.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/los/building_group.py b/terragraph_planner/los/building_group.py
index d89685a..4195ba1 100644
--- a/terragraph_planner/los/building_group.py
+++ b/terragraph_planner/los/building_group.py
@@ -11,7 +11,7 @@ from osgeo import osr
 from PIL import Image, ImageDraw
 from pyre_extensions import none_throws
 from shapely import ops, prepared
-from shapely.geometry import MultiPolygon, Polygon
+from shapely.geometry import GeometryCollection, MultiPolygon, Polygon
 
 from terragraph_planner.common.configuration.enums import SiteType
 from terragraph_planner.common.constants import LAT_LON_EPSG
@@ -96,6 +96,16 @@ class BuildingGroup(GISData):
                     self.add_building(building=building)
                 elif prep_boundary.intersects(geom):
                     cut_geom = geom.intersection(ll_boundary_polygon)
+                    if isinstance(cut_geom, GeometryCollection):
+                        # Points or lines remain, too, where the building
+                        # only touches the boundary
+                        cut_geom = MultiPolygon(
+                            [
+                                subgeom
+                                for subgeom in cut_geom.geoms
+                                if isinstance(subgeom, Polygon)
+                            ]
+                        )
                     if isinstance(cut_geom, Polygon):
                         self.add_building(polygon=cut_geom)
                     elif isinstance(cut_geom, MultiPolygon):
-- 
2.43.0


From 94671337b0a1276df820cf9ed19c3b975a216cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:38 +0000
Subject: [PATCH 66/67] fix: check the statuses around access links that have
 no reverse link

---
 terragraph_planner/optimization/topology_preparation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index b8ca2cb..b2f425e 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -1034,10 +1034,9 @@ def validate_topology_status(topology: Topology) -> None:
                 f"Backhaul link {link.link_id} must be bidirectional.",
                 TopologyException,
             )
-        if reverse_link is None:
-            continue
         planner_assert(
-            link.status_type == reverse_link.status_type,
+            reverse_link is None
+            or link.status_type == reverse_link.status_type,
             f"A link {link.link_id} and its symmetric link have conflicting status types.",
             TopologyException,
         )
-- 
2.43.0


From 808fabd965ff48992f7cba23580af3a771115431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:15 +0000
Subject: [PATCH 67/67] fix: a candidate file with an upper-case KML extension
 or that is no archive aborted with a foreign error

---
 terragraph_planner/common/data_io/utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/terragraph_planner/common/data_io/utils.py b/terragraph_planner/common/data_io/utils.py
index 2f9e40b..ea39b5c 100644
--- a/terragraph_planner/common/data_io/utils.py
+++ b/terragraph_planner/common/data_io/utils.py
@@ -9,7 +9,7 @@ import tempfile
 from collections import defaultdict
 from itertools import product
 from typing import Callable, Dict, List, Optional, Tuple
-from zipfile import ZipFile
+from zipfile import BadZipFile, ZipFile
 
 from pyproj import Transformer
 from pyre_extensions import none_throws
@@ -277,14 +277,16 @@ def extract_topology_from_file(
         ]
     ],
 ) -> Topology:
-    if topology_file_path.endswith(".kml") or topology_file_path.endswith(
-        ".kmz"
-    ):
+    extension = os.path.splitext(topology_file_path)[-1].casefold()
+    if extension == ".kml" or extension == ".kmz":
         return extract_topology_from_kml_file(
             topology_file_path, device_list, infer_input_site_location
         )
     else:
-        zip_ref = ZipFile(topology_file_path, "r")
+        try:
+            zip_ref = ZipFile(topology_file_path, "r")
+        except (BadZipFile, OSError):
+            raise DataException(f"Could not read from {topology_file_path}.")
         planner_assert(
             "sites.csv" in zip_ref.namelist()
             and "links.csv" in zip_ref.namelist(),
-- 
2.43.0

