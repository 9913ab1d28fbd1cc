From 1a6ae26dd5a7b3640e13524c8a4c341bc15c95ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 01/45] fix: del_node on undirected graphs and on nodes with
 self-loops

---
 src/gimpy/graph.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 1d3638e..5f0bfa0 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -316,18 +316,24 @@ class Graph(object):
         '''
         if name not in self.neighbors:
             raise Exception('Node %s does not exist!' %str(name))
-        for n in self.neighbors[name]:
-            del self.edge_attr[(name, n)]
+        for n in dict.fromkeys(self.neighbors[name]):
             if self.graph_type == UNDIRECTED_GRAPH:
-                self.neighbors[n].remove(name)
+                # the edge is kept in one direction only, (name, n) or (n, name)
+                if (name, n) in self.edge_attr:
+                    del self.edge_attr[(name, n)]
+                else:
+                    del self.edge_attr[(n, name)]
+                if n != name:
+                    self.neighbors[n].remove(name)
             else:
+                del self.edge_attr[(name, n)]
                 self.in_neighbors[n].remove(name)
         if self.graph_type is DIRECTED_GRAPH:
             for n in self.in_neighbors[name]:
                 del self.edge_attr[(n, name)]
                 self.neighbors[n].remove(name)
+            del self.in_neighbors[name]
         del self.neighbors[name]
-        del self.in_neighbors[name]
         del self.nodes[name]
 
     def add_edge(self, name1, name2, **attr):
-- 
2.43.0


From dfb45c8123d383767ccf9892c5f1b4a12566f265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 02/45] fix: degrees and diameter of graphs built without an
 explicit type, directed degrees

---
 src/gimpy/graph.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 5f0bfa0..6245ca8 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3376,7 +3376,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.attr['type'] is not DIRECTED_GRAPH:
+        if self.graph_type is not DIRECTED_GRAPH:
             for n in self.get_node_list():
                 degree[n] = len(self.get_neighbors(n))
             return degree
@@ -3384,6 +3384,7 @@ After installation, ensure that the PATH variable is properly set.''')
             for n in self.get_node_list():
                 degree[n] = (len(self.get_in_neighbors(n)) +
                              len(self.get_out_neighbors(n)))
+            return degree
 
     def get_in_degrees(self):
         '''
@@ -3396,7 +3397,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.attr['type'] is not DIRECTED_GRAPH:
+        if self.graph_type is not DIRECTED_GRAPH:
             print('This function only works for directed graphs')
             return
         for n in self.get_node_list():
@@ -3414,7 +3415,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.attr['type'] is not DIRECTED_GRAPH:
+        if self.graph_type is not DIRECTED_GRAPH:
             print('This function only works for directed graphs')
             return
         for n in self.get_node_list():
@@ -3434,7 +3435,7 @@ After installation, ensure that the PATH variable is properly set.''')
             Returns diameter of the graph.
         '''
 
-        if self.attr['type'] is not UNDIRECTED_GRAPH:
+        if self.graph_type is not UNDIRECTED_GRAPH:
             print('This function only works for undirected graphs')
             return
         diameter = 'infinity'
-- 
2.43.0


From 17d31d791164e5f784bf9546e26d94095026d59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 03/45] fix: search follows self-loops back into the current
 node

---
 src/gimpy/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 6245ca8..659ff2c 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1071,7 +1071,8 @@ class Graph(object):
                 break
             self.display()
             for n in neighbors[current]:
-                if self.get_node(n).get_attr('color') != 'green':
+                # an edge from current to itself never leads to a new node
+                if n != current and self.get_node(n).get_attr('color') != 'green':
                     if reverse:
                         self.set_edge_attr(n, current, 'color', 'yellow')
                     else:
-- 
2.43.0


From 8497df54288a99f330fb253c9d02eae979641b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 04/45] fix: reverse Dijkstra and Prim searches look up arcs in
 the wrong direction

---
 src/gimpy/graph.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 659ff2c..938f67c 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1079,7 +1079,7 @@ class Graph(object):
                         self.set_edge_attr(current, n, 'color', 'yellow')
                     self.display()
                     self.process_edge_search(current, n, pred, q, component,
-                                             algo, **kargs)
+                                             algo, reverse = reverse, **kargs)
                     if reverse:
                         self.set_edge_attr(n, current, 'color', 'black')
                     else:
@@ -1115,7 +1115,8 @@ class Graph(object):
         if isinstance(q, PriorityQueue):
             self.get_node(node).set_attr('priority', q.get_priority(node))
 
-    def process_edge_dijkstra(self, current, neighbor, pred, q, component):
+    def process_edge_dijkstra(self, current, neighbor, pred, q, component,
+                              reverse = False):
         '''
         API: process_edge_dijkstra(self, current, neighbor, pred, q, component)
         Description:
@@ -1138,8 +1139,9 @@ class Graph(object):
             self.display()
             self.get_node(neighbor).set_attr('color', 'black')
             return
+        tail, head = (neighbor, current) if reverse else (current, neighbor)
         new_estimate = (q.get_priority(current) +
-                        self.get_edge_attr(current, neighbor, 'cost'))
+                        self.get_edge_attr(tail, head, 'cost'))
         if neighbor not in pred or new_estimate < q.get_priority(neighbor):
             pred[neighbor] = current
             self.get_node(neighbor).set_attr('color', 'red')
@@ -1148,7 +1150,8 @@ class Graph(object):
             self.display()
             self.get_node(neighbor).set_attr('color', 'black')
 
-    def process_edge_prim(self, current, neighbor, pred, q, component):
+    def process_edge_prim(self, current, neighbor, pred, q, component,
+                          reverse = False):
         '''
         API: process_edge_prim(self, current, neighbor, pred, q, component)
         Description:
@@ -1171,7 +1174,8 @@ class Graph(object):
             self.display()
             self.get_node(neighbor).set_attr('color', 'black')
             return
-        new_estimate = self.get_edge_attr(current, neighbor, 'cost')
+        tail, head = (neighbor, current) if reverse else (current, neighbor)
+        new_estimate = self.get_edge_attr(tail, head, 'cost')
         if not neighbor in pred or new_estimate < q.get_priority(neighbor):
             pred[neighbor] = current
             self.get_node(neighbor).set_attr('color', 'red')
@@ -1202,10 +1206,12 @@ class Graph(object):
         '''
         if algo == 'Dijkstra':
             return self.process_edge_dijkstra(current, neighbor, pred, q,
-                                              component)
+                                              component,
+                                              kargs.get('reverse', False))
         if algo == 'Prim':
             return self.process_edge_prim(current, neighbor, pred, q,
-                                          component)
+                                          component,
+                                          kargs.get('reverse', False))
         neighbor_node = self.get_node(neighbor)
         if current == None:
             neighbor_node.set_attr('distance', 0)
-- 
2.43.0


From 7e17cee7ff8ea05e43345b96557427f4fb30f9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 05/45] fix: depth-first search with a priority queue loses
 node depths

---
 src/gimpy/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 938f67c..7fabf38 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1238,6 +1238,7 @@ class Graph(object):
                 neighbor_node.set_attr('distance', priority)
             if algo == 'DFS':
                 neighbor_node.set_attr('depth', -priority)
+                neighbor_node.set_attr('distance', -priority)
         else:
             distance = self.get_node(current).get_attr('distance') + 1
             if ((algo == 'UnweightedSPT' or algo == 'BFS') and
-- 
2.43.0


From 503ce808734538d77af48a38738c8edc0e410ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 06/45] fix: bfs() runs a depth-first search

---
 src/gimpy/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 7fabf38..8750be1 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -947,7 +947,8 @@ class Graph(object):
             Nodes will have 'component' attribute that will have component
             number as value.
         '''
-        self.search(root, display = display, component = component, q = Queue())
+        self.search(root, display = display, component = component, q = Queue(),
+                    algo = 'BFS')
 
     def acyclic_shortest_path(G, source, destination = None):
         dist = {}
-- 
2.43.0


From 4b94416653efaf89b20674c611ddd0fbabea8693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 07/45] fix: hamiltonian calls a method that does not exist and
 never accepts a path

---
 src/gimpy/graph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 8750be1..3526a0b 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -905,13 +905,14 @@ class Graph(object):
         if (distance == 0):
             for i in self.get_node_list():
                 self.get_node(i).set_attr('label', '-')
+                self.get_node(i).set_attr('visited', None)
             self.display()
 
         if destination != None:
             if source == destination and distance == self.get_node_num() - 1:
                 return True
         else:
-            if distance == self.get_node_num():
+            if distance == self.get_node_num() - 1:
                 return True
 
         self.get_node(source).set_attr('visited', True)
@@ -923,8 +924,8 @@ class Graph(object):
         for i in self.get_neighbors(source):
             if self.get_node(i).get_attr('visited') is None:
                 pred[i] = source
-                if (self.tsp(i, destination, distance+1, display = display, 
-                            pred = pred)):
+                if (self.hamiltonian(i, destination, distance+1,
+                                     display = display, pred = pred)):
                     return True
         if source in pred: # this is the original source node
             self.get_node(source).set_attr('color', 'black')            
-- 
2.43.0


From 2498b07e19187984188f0d3cb486af95feabc3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 08/45] fix: acyclic_shortest_path with unreachable nodes, a
 source with in-arcs, or a second call

---
 src/gimpy/graph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 3526a0b..65a75a4 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -956,13 +956,14 @@ class Graph(object):
         pred = {}
         order = []
         found = False
+        for n in G.get_node_list():
+            G.get_node(n).set_attr('disc_time', None)
         G.dfs(source, topological_order = order)
-        for j in range(len(G.get_node_list())):
-            m = order[j]
+        for m in order:
             if m == destination:
                 found = True
                 break
-            if len(G.get_in_neighbors(m)) == 0: 
+            if m == source:
                 dist[m] = 0
             for n in G.get_out_neighbors(m):
                 estimate = dist[m] + G.get_edge_attr(m ,n, "cost")
-- 
2.43.0


From 2944f6fecb0a15a02d125606bd836225467aa7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 09/45] fix: minimum_spanning_tree_prim compares priorities it
 cannot look up and shares its queue

---
 src/gimpy/graph.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 65a75a4..1251d1c 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1257,18 +1257,17 @@ class Graph(object):
             neighbor_node.set_attr('label', component)
         self.display()
 
-    def minimum_spanning_tree_prim(self, source, display = None,
-                                   q = PriorityQueue()):
+    def minimum_spanning_tree_prim(self, source, display = None, q = None):
         '''
-        API: minimum_spanning_tree_prim(self, source, display = None,
-                                        q = PriorityQueue())
+        API: minimum_spanning_tree_prim(self, source, display = None, q = None)
         Description:
         Determines a minimum spanning tree of all nodes reachable
         from source using Prim's Algorithm.
         Input:
             source: Name of source node.
             display: Display method.
-            q: Data structure that holds nodes to be processed in a queue.
+            q: Priority queue that holds nodes to be processed. A new one is
+            used if it is not given.
         Post:
             'color', 'distance', 'component' attribute of nodes and edges may
             change.
@@ -1279,14 +1278,18 @@ class Graph(object):
             display = self.attr['display']
         else:
             self.set_display_mode(display)
+        if q is None:
+            q = PriorityQueue()
         if isinstance(q, PriorityQueue):
             addToQ = q.push
             removeFromQ = q.pop
-            peek = q.peek
+            priority = q.get_priority
             isEmpty = q.isEmpty
         neighbors = self.get_neighbors
+        for n in self.get_node_list():
+            self.set_node_attr(n, 'color', 'black')
         pred = {}
-        addToQ(source)
+        addToQ(source, 0)
         done = False
         while not isEmpty() and not done:
             current = removeFromQ()
@@ -1295,11 +1298,11 @@ class Graph(object):
                 self.set_edge_attr(pred[current], current, 'color', 'green')
             self.display()
             for n in neighbors(current):
-                if self.get_node_attr(n, 'color') != 'green':
+                if n != current and self.get_node_attr(n, 'color') != 'green':
                     self.set_edge_attr(current, n, 'color', 'yellow')
                     self.display()
                     new_estimate = self.get_edge_attr(current, n, 'cost')
-                    if not n in pred or new_estimate < peek(n)[0]:
+                    if not n in pred or new_estimate < priority(n):
                         pred[n] = current
                         self.set_node_attr(n, 'color', 'red')
                         self.set_node_attr(n, 'label', new_estimate)
-- 
2.43.0


From a8b1c8039b197fdb016b370815ddeb84781f592e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 10/45] fix: floyd_warshall with self-loops and undirected
 edges

---
 src/gimpy/graph.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 1251d1c..ff249df 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2118,13 +2118,20 @@ After installation, ensure that the PATH variable is properly set.''')
         for i in nl:
             distance[(i,i)] = 0
         for e in el:
+            if e[0] == e[1]:
+                # the empty path is at least as short, unless cost is negative
+                distance[e] = min(0, self.get_edge_cost(e))
+                continue
             distance[(e[0],e[1])] = self.get_edge_cost(e)
+            if self.graph_type is UNDIRECTED_GRAPH:
+                distance[(e[1],e[0])] = self.get_edge_cost(e)
         # == end of distance initialization
         # initialize next
         nextn = {}
         for i in nl:
             for j in nl:
-                if i==j or distance[(i,j)]=='infinity':
+                if ((i==j and distance[(i,j)] == 0) or
+                    distance[(i,j)]=='infinity'):
                     nextn[(i,j)] = None
                 else:
                     nextn[(i,j)] = i
-- 
2.43.0


From 35816746f2f6a36e36ee3eb6c5834e076fa91d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 11/45] fix: floyd_warshall_get_path repeats nodes and fails on
 empty paths

---
 src/gimpy/graph.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index ff249df..b8ac6f3 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2173,12 +2173,11 @@ After installation, ensure that the PATH variable is properly set.''')
         '''
         if distance[(i,j)]=='infinity':
             return None
-        k = nextn[(i,j)]
-        path = self.floyd_warshall_get_path
-        if i==k:
-            return [i, j]
-        else:
-            return path(distance, nextn, i,k) + [k] + path(distance, nextn, k,j)
+        # nextn[(i,j)] is the node before j on the path from i to j
+        path = [j]
+        while path[0] != i:
+            path.insert(0, nextn[(i,path[0])])
+        return path
 
     def floyd_warshall_get_cycle(self, distance, nextn, element = None):
         '''
-- 
2.43.0


From 524996e9149a5fd1ff8be12d8a9cef6f9623afbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 12/45] fix: get_negative_cycle of an empty graph

---
 src/gimpy/graph.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index b8ac6f3..1eca135 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2076,8 +2076,6 @@ After installation, ensure that the PATH variable is properly set.''')
             Returns a list of nodes in the cycle if a negative cycle exists,
             returns None otherwise.
         '''
-        nl = self.get_node_list()
-        i = nl[0]
         (valid, distance, nextn) = self.floyd_warshall()
         if not valid:
             cycle = self.floyd_warshall_get_cycle(distance, nextn)
-- 
2.43.0


From c2ae2ad5968c173552f77ce865706b2ffb72ad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 13/45] fix: fifo_label_correcting compares numbers with a
 string

---
 src/gimpy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 1eca135..611191d 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2264,7 +2264,7 @@ After installation, ensure that the PATH variable is properly set.''')
         pred[source] = None
         for n in self.neighbors:
             if n!=source:
-                self.get_node(n).set_attr('distance', 'inf')
+                self.get_node(n).set_attr('distance', float('inf'))
         q = [source]
         while q:
             i = q[0]
-- 
2.43.0


From 35f3f0da07dafaa58e881344bf76b8726ee0f61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 14/45] fix: strong components of an already labelled graph

---
 src/gimpy/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 611191d..e0960df 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -742,6 +742,8 @@ class Graph(object):
         index = 0
         component = 0
         q = []
+        for n in self.get_node_list():
+            self.set_node_attr(n, 'index', None)
         for n in self.get_node_list():
             if self.get_node_attr(n, 'index') is None:
                 index, component = self.strong_connect(q, n, index, component)
-- 
2.43.0


From 51c5dc19d4756c54248b9661778cc6dec636fb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 15/45] fix: find_feasible_flow accepts unmet demand and needs
 both supply and demand nodes

---
 src/gimpy/graph.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index e0960df..b1ef70c 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1649,6 +1649,11 @@ class Graph(object):
         # establish a feasible flow in the network, to do this add nodes s and
         # t and solve a max flow problem.
         nl = self.get_node_list()
+        for i in ('s', 't'):
+            if i in self.neighbors:
+                raise MultipleNodeException
+        self.add_node('s')
+        self.add_node('t')
         for i in nl:
             b_i = self.get_node(i).get_attr('demand')
             if b_i > 0:
@@ -1661,9 +1666,10 @@ class Graph(object):
         self.max_flow('s', 't', 'off')
         # check if all demand is satisfied, i.e. the min cost problem is
         # feasible or not
-        for i in self.neighbors['s']:
-            flow = self.get_edge_attr('s', i, 'flow')
-            capacity = self.get_edge_attr('s', i, 'capacity')
+        for (i, j) in ([('s', n) for n in self.neighbors['s']] +
+                       [(n, 't') for n in self.in_neighbors['t']]):
+            flow = self.get_edge_attr(i, j, 'flow')
+            capacity = self.get_edge_attr(i, j, 'capacity')
             if flow != capacity:
                 self.del_node('s')
                 self.del_node('t')
-- 
2.43.0


From 245cdc199a287a36e3d0fe5209837793a201a683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 16/45] fix: network simplex needs small integer node names

---
 src/gimpy/graph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index b1ef70c..6149a67 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2906,8 +2906,8 @@ After installation, ensure that the PATH variable is properly set.''')
                 depth[n] = depth[current]+1
                 q.append(n)
         for i in range(len(sequence)-1):
-            self.get_node(sequence[i]).set_attr('thread', int(sequence[i+1]))
-        self.get_node(sequence[-1]).set_attr('thread', int(sequence[0]))
+            self.get_node(sequence[i]).set_attr('thread', sequence[i+1])
+        self.get_node(sequence[-1]).set_attr('thread', sequence[0])
         for n in pred:
             self.get_node(n).set_attr('pred', pred[n])
             self.get_node(n).set_attr('depth', depth[n])
@@ -2971,7 +2971,7 @@ After installation, ensure that the PATH variable is properly set.''')
         pred = {nl[0]:None}
         for n in nl:
             self.get_node(n).set_attr('component', None)
-        component_nr = int(nl[0])
+        component_nr = nl[0]
         self.get_node(nl[0]).set_attr('component', component_nr)
         while True:
             while q:
@@ -3011,7 +3011,7 @@ After installation, ensure that the PATH variable is properly set.''')
                     depth = {n:0}
                     pred = {n:None}
                     visited = []
-                    component_nr = int(n)
+                    component_nr = n
                     self.get_node(n).set_attr('component', component_nr)
                     flag = True
                     break
@@ -3064,7 +3064,7 @@ After installation, ensure that the PATH variable is properly set.''')
         '''
         self.get_node(root).set_attr('potential', 0)
         j = t.get_node(root).get_attr('thread')
-        while j is not root:
+        while j != root:
             i = t.get_node(j).get_attr('pred')
             potential_i = self.get_node(i).get_attr('potential')
             if (i,j) in self.edge_attr:
@@ -3096,7 +3096,7 @@ After installation, ensure that the PATH variable is properly set.''')
         cycle = []
         li = [k]
         lj = [j]
-        while i is not j:
+        while i != j:
             depth_i = t.get_node(i).get_attr('depth')
             depth_j = t.get_node(j).get_attr('depth')
             if depth_i > depth_j:
-- 
2.43.0


From 47c8dd4f7041ec04387cbbbc990483dce5c3dc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 17/45] fix: floyd_warshall_get_cycle may return a cycle that
 is not negative

---
 src/gimpy/graph.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 6149a67..0bf729b 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2142,6 +2142,10 @@ After installation, ensure that the PATH variable is properly set.''')
                 else:
                     nextn[(i,j)] = i
         # == end of next initialization
+        for i in nl:
+            if distance[(i,i)] < 0:
+                # self-loop with negative cost
+                return (False, distance, nextn)
         # compute shortest distance
         for k in nl:
             for i in nl:
@@ -2154,13 +2158,14 @@ After installation, ensure that the PATH variable is properly set.''')
                     elif distance[(i,j)] > distance[(i,k)] + distance[(k,j)]:
                         distance[(i,j)] = distance[(i,k)] + distance[(k,j)]
                         nextn[(i,j)] = nextn[(k,j)]
+            # check if graph has negative cycles, going on after finding one
+            # would spoil nextn
+            for i in nl:
+                if distance[(i,i)] < 0:
+                    # shortest distances are not valid
+                    # graph has negative cycle
+                    return (False, distance, nextn)
         # == end of compute shortest distance
-        # check if graph has negative cycles
-        for i in nl:
-            if distance[(i,i)] < 0:
-                # shortest distances are not valid
-                # graph has negative cycle
-                return (False, distance, nextn)
         return (True, distance, nextn)
 
     def floyd_warshall_get_path(self, distance, nextn, i, j):
@@ -2219,7 +2224,8 @@ After installation, ensure that the PATH variable is properly set.''')
         if k==element:
             return cycle
         else:
-            return self.floyd_warshall_get_cycle(distance, nextn, k)
+            # the path runs into a cycle that does not contain element
+            return cycle[1:cycle.index(k)+1]
 
     def find_cycle_capacity(self, cycle):
         '''
-- 
2.43.0


From 83319ca84c7d1aef4190e91efa94ab5a4f2ae844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 18/45] fix: network simplex pivots forever on an arc of
 capacity zero

---
 src/gimpy/graph.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 0bf729b..daebf95 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2723,6 +2723,9 @@ After installation, ensure that the PATH variable is properly set.''')
                 potential_i = self.get_node(e[0]).get_attr('potential')
                 potential_j = self.get_node(e[1]).get_attr('potential')
                 capacity_ij = self.edge_attr[e]['capacity']
+                if capacity_ij == 0:
+                    # its flow can never change
+                    continue
                 c_ij = self.edge_attr[e]['cost']
                 cpi_ij = c_ij - potential_i + potential_j
                 if flow_ij==0:
@@ -2748,6 +2751,9 @@ After installation, ensure that the PATH variable is properly set.''')
                 potential_i = self.get_node(e[0]).get_attr('potential')
                 potential_j = self.get_node(e[1]).get_attr('potential')
                 capacity_ij = self.edge_attr[e]['capacity']
+                if capacity_ij == 0:
+                    # its flow can never change
+                    continue
                 c_ij = self.edge_attr[e]['cost']
                 cpi_ij = c_ij - potential_i + potential_j
                 if flow_ij==0:
@@ -2784,6 +2790,9 @@ After installation, ensure that the PATH variable is properly set.''')
             potential_i = self.get_node(e[0]).get_attr('potential')
             potential_j = self.get_node(e[1]).get_attr('potential')
             capacity_ij = self.edge_attr[e]['capacity']
+            if capacity_ij == 0:
+                # its flow can never change
+                continue
             c_ij = self.edge_attr[e]['cost']
             cpi_ij = c_ij - potential_i + potential_j
             if flow_ij==0:
-- 
2.43.0


From 3fd5e69ff07afda61a5bdcb36348ee7f610eb9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 19/45] fix: display argument of an algorithm changes the
 display mode for good

---
 src/gimpy/graph.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index daebf95..6e5ebf3 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -70,6 +70,8 @@ import random     # for seed, random, randint
 import tempfile   # for mkstemp()
 import os         # for close()
 import operator   # for itemgetter()
+import functools  # for wraps()
+import inspect    # for signature()
 
 try:
     import pygtk
@@ -108,6 +110,25 @@ def handle_close(evt):
     print('Figure closed. Exiting!')
     exit()
 
+def restores_display_mode(method):
+    '''
+    Decorator for methods that implement algorithms and have a display
+    argument. Display mode given that way is used while method is running, it
+    does not change global display behavior of the graph.
+    '''
+    signature = inspect.signature(method)
+    @functools.wraps(method)
+    def wrapper(self, *args, **kargs):
+        arguments = signature.bind(self, *args, **kargs).arguments
+        if arguments.get('display') is None:
+            return method(self, *args, **kargs)
+        old_display = self.attr['display']
+        try:
+            return method(self, *args, **kargs)
+        finally:
+            self.attr['display'] = old_display
+    return wrapper
+
 class Node(object):
     '''
     Node class. A node object keeps node attributes. Has a method to write
@@ -832,9 +853,11 @@ class Graph(object):
         '''
         if pred == None:
             pred = {}
+        old_display = None
         if display == None:
             display = self.attr['display']
         else:
+            old_display = self.attr['display']
             self.set_display_mode(display)
         neighbors = self.neighbors
         if self.graph_type == DIRECTED_GRAPH and transpose:
@@ -878,9 +901,12 @@ class Graph(object):
         self.get_node(root).set_attr('label', label)
         self.get_node(root).set_attr('color', 'green')
         self.display()
+        if old_display is not None:
+            self.set_display_mode(old_display)
         finish_count += 1
         return disc_count, finish_count
 
+    @restores_display_mode
     def hamiltonian(self, source, destination = None, distance = 0,
                     display = None, pred = None):
         '''
@@ -982,6 +1008,7 @@ class Graph(object):
                 
         return pred
 
+    @restores_display_mode
     def search(self, source, destination = None, display = None,
                component = None, q = None,
                algo = 'DFS', reverse = False, **kargs):
@@ -1259,6 +1286,7 @@ class Graph(object):
             neighbor_node.set_attr('label', component)
         self.display()
 
+    @restores_display_mode
     def minimum_spanning_tree_prim(self, source, display = None, q = None):
         '''
         API: minimum_spanning_tree_prim(self, source, display = None, q = None)
@@ -1316,6 +1344,7 @@ class Graph(object):
             self.display()
         return pred
 
+    @restores_display_mode
     def minimum_spanning_tree_kruskal(self, display = None, components = None):
         '''
         API: minimum_spanning_tree_kruskal(self, display = None,
@@ -1358,6 +1387,7 @@ class Graph(object):
             components.display()
         return edges
 
+    @restores_display_mode
     def max_flow_preflowpush(self, source, sink, algo = 'FIFO', display = None):
         '''
         API: max_flow_preflowpush(self, source, sink, algo = 'FIFO',
@@ -2391,6 +2421,7 @@ After installation, ensure that the PATH variable is properly set.''')
             flow_ji = self.edge_attr[(j,i)]['flow']
             self.edge_attr[(j,i)]['flow'] = flow_ji-amount
 
+    @restores_display_mode
     def network_simplex(self, display, pivot, root):
         '''
         API:
-- 
2.43.0


From a2aa9dd03ca80c48e9e20d8893e8ee6c9b123a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 20/45] fix: Tree traversals without a root argument

---
 src/gimpy/tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 169f471..6a2621b 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -118,7 +118,7 @@ class Tree(Graph):
             display: Display argument.
         '''
         if root == None:
-            root = self.root
+            root = self.root.name
         if display == None:
             display = self.attr['display']
         self.traverse(root, display, Stack())
@@ -137,7 +137,7 @@ class Tree(Graph):
             display: Display argument.
         '''
         if root == None:
-            root = self.root
+            root = self.root.name
         if display == None:
             display = self.attr['display']
         self.traverse(root, display, Queue())
@@ -159,7 +159,7 @@ class Tree(Graph):
             Queue().
         '''
         if root == None:
-            root = self.root
+            root = self.root.name
         if display == None:
             display = self.attr['display']
         if isinstance(q, Queue):
-- 
2.43.0


From ebc4e159d47d0aa63d39113932524d25e966d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 21/45] fix: tree traversals share one default stack

---
 src/gimpy/tree.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 6a2621b..4c5b3e2 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -142,9 +142,9 @@ class Tree(Graph):
             display = self.attr['display']
         self.traverse(root, display, Queue())
 
-    def traverse(self, root = None, display = None, q = Stack()):
+    def traverse(self, root = None, display = None, q = None):
         '''
-        API: traverse(self, root = None, display = None, q = Stack())
+        API: traverse(self, root = None, display = None, q = None)
         Description:
             Traverses tree starting from node named root. Used strategy (BFS,
             DFS) is controlled by argument q. It is a DFS if q is Queue(), BFS
@@ -162,6 +162,8 @@ class Tree(Graph):
             root = self.root.name
         if display == None:
             display = self.attr['display']
+        if q is None:
+            q = Stack()
         if isinstance(q, Queue):
             addToQ = q.enqueue
             removeFromQ = q.dequeue
@@ -379,10 +381,10 @@ class BinaryTree(Tree):
             root = self.root
         self.traverse(root, display, Queue(), priority)
 
-    def traverse(self, root = None, display = None, q = Stack(),
+    def traverse(self, root = None, display = None, q = None,
                  priority = 'L'):
         '''
-        API: traverse(self, root=None, display=None, q=Stack(), priority='L',
+        API: traverse(self, root=None, display=None, q=None, priority='L',
                       order='in')
         Description:
             Traverses tree starting from node named root if root argument is
@@ -405,6 +407,8 @@ class BinaryTree(Tree):
         else:
             old_display = self.attr['display']
             self.attr['display'] = display
+        if q is None:
+            q = Stack()
         if isinstance(q, Queue):
             addToQ = q.enqueue
             removeFromQ = q.dequeue
-- 
2.43.0


From 17271c946c1a14e685fb2ef15c06b517c8e76865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 22/45] fix: rejected add_left_child and add_right_child leave
 the parent pointing at a child it does not have

---
 src/gimpy/tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 4c5b3e2..0f93b98 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -225,8 +225,8 @@ class BinaryTree(Tree):
             msg = "Right child already exists for node " + str(parent)
             raise Exception(msg)
         attrs['direction'] = 'R'
-        self.set_node_attr(parent, 'Rchild', n)
         self.add_child(n, parent, **attrs)
+        self.set_node_attr(parent, 'Rchild', n)
 
     def add_left_child(self, n, parent, **attrs):
         '''
@@ -244,8 +244,8 @@ class BinaryTree(Tree):
             msg = "Right child already exists for node " + str(parent)
             raise Exception(msg)
         attrs['direction'] = 'L'
-        self.set_node_attr(parent, 'Lchild', n)
         self.add_child(n, parent, **attrs)
+        self.set_node_attr(parent, 'Lchild', n)
 
     def get_right_child(self, n):
         '''
-- 
2.43.0


From 970702540fd41d016851e1382bdae2b1b061ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 23/45] fix: BinaryTree.del_node of the root or of a child that
 is neither left nor right

---
 src/gimpy/tree.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 0f93b98..934e39d 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -292,9 +292,12 @@ class BinaryTree(Tree):
             n: Node name.
         '''
         parent = self.get_node_attr(n, 'parent')
-        if self.get_node_attr(n, 'direction') == 'R':
+        direction = self.get_node_attr(n, 'direction')
+        if parent is None:
+            self.root = None
+        elif direction == 'R':
             self.set_node_attr(parent, 'Rchild', None)
-        else:
+        elif direction == 'L':
             self.set_node_attr(parent, 'Lchild', None)
         Graph.del_node(self, n)
 
-- 
2.43.0


From 715428b2ecce427a2e1f3127db09990e1a17f6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 24/45] fix: expression trees with subexpressions named 0 or of
 value 0

---
 src/gimpy/tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 934e39d..6b6b16a 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -443,7 +443,7 @@ class BinaryTree(Tree):
             root = self.root
         if display == None:
             display = self.attr['display']
-        if self.get_left_child(root):
+        if self.get_left_child(root) is not None:
             if display:
                 self.display(highlight = [root])
             print('(', end=' ')
@@ -462,7 +462,7 @@ class BinaryTree(Tree):
         sys.stdout.flush()
         if display:
                 self.display(highlight = [root])
-        if self.get_right_child(root):
+        if self.get_right_child(root) is not None:
             self.printexp(display, self.get_right_child(root))
             print(')', end=' ')
             sys.stdout.flush()
@@ -478,7 +478,7 @@ class BinaryTree(Tree):
                  '/':operator.truediv}
         res1 = None
         res2 = None
-        if self.get_left_child(root):
+        if self.get_left_child(root) is not None:
             if display:
                 self.display(highlight = [root])
             res1 = self.postordereval(display, self.get_left_child(root))
@@ -495,9 +495,9 @@ class BinaryTree(Tree):
         sys.stdout.flush()
         if display:
                 self.display(highlight = [root])
-        if self.get_right_child(root):
+        if self.get_right_child(root) is not None:
             res2 = self.postordereval(display, self.get_right_child(root))
-        if res1 and res2:
+        if res1 is not None and res2 is not None:
             result = opers[root_label](res1 , res2)
             print('=', result)
             sys.stdout.flush()
-- 
2.43.0


From 482ac97fe334c1d705e0f59354620c5de62d42a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:31 +0000
Subject: [PATCH 25/45] fix: create_cluster reuses cluster names and changes
 the dictionaries and lists it is given

---
 src/gimpy/graph.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 6e5ebf3..901c9a5 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3544,16 +3544,20 @@ After installation, ensure that the PATH variable is properly set.''')
             may change.
         '''
         if 'name' in cluster_attrs:
-            if 'name' in self.cluster:
+            if cluster_attrs['name'] in self.cluster:
                 raise Exception('A cluster with name %s already exists!' %cluster_attrs['name'])
             else:
                 name = cluster_attrs['name']
         else:
             name = 'c%d' %self.attr['cluster_count']
             self.attr['cluster_count'] += 1
-            cluster_attrs['name'] = name
+            while name in self.cluster:
+                name = 'c%d' %self.attr['cluster_count']
+                self.attr['cluster_count'] += 1
+            # the dictionary of the caller should not change
+            cluster_attrs = dict(cluster_attrs, name = name)
         #cluster_attrs['name'] =
-        self.cluster[name] = {'node_list':node_list,
+        self.cluster[name] = {'node_list':list(node_list),
                               'attrs':copy.deepcopy(cluster_attrs),
                               'node_attrs':copy.deepcopy(node_attrs)}
 
-- 
2.43.0


From 90de72c05e0943184811bc0ef875ac5128021232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:31 +0000
Subject: [PATCH 26/45] fix: to_string prints or looks up the edges of a
 cluster in the wrong direction or twice

---
 src/gimpy/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 901c9a5..a87c3d4 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -696,7 +696,8 @@ class Graph(object):
             # process cluster edges
             for n in self.cluster[c]['node_list']:
                 for m in self.cluster[c]['node_list']:
-                    if self.check_edge(n,m):
+                    if ((n,m) in self.edge_attr and
+                        (n,m) not in processed_edges):
                         data = self.edge_to_string((n,m))
                         graph.append(data + ';\n')
                         processed_edges[(n,m)]=None
-- 
2.43.0


From 54f5da418623048b63c9f0acdb7fcfb9a9863fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:31 +0000
Subject: [PATCH 27/45] fix: deleting a node leaves it in its clusters

---
 src/gimpy/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index a87c3d4..687e447 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -354,6 +354,9 @@ class Graph(object):
                 del self.edge_attr[(n, name)]
                 self.neighbors[n].remove(name)
             del self.in_neighbors[name]
+        for c in self.cluster:
+            if name in self.cluster[c]['node_list']:
+                self.cluster[c]['node_list'].remove(name)
         del self.neighbors[name]
         del self.nodes[name]
 
-- 
2.43.0


From 81b66ed82e574bbe87ec577a7eaf329ac4f0351a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 28/45] fix: to_string does not quote the graph name and
 cluster names and attributes

---
 src/gimpy/graph.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 687e447..c82fb7d 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -666,7 +666,8 @@ class Graph(object):
         '''
         graph = list()
         processed_edges = {}
-        graph.append('%s %s {\n' %(self.graph_type, self.name))
+        graph.append('%s %s {\n' %(self.graph_type,
+                                   quote_if_necessary(str(self.name))))
         for a in self.attr:
             if a not in GRAPH_ATTRIBUTES:
                 continue
@@ -678,16 +679,14 @@ class Graph(object):
             graph.append( ';\n' )
         # clusters
         for c in self.cluster:
-            graph.append('subgraph cluster_%s {\n' %c)
+            graph.append('subgraph %s {\n'
+                         %quote_if_necessary('cluster_%s' %c))
             for a in self.cluster[c]['attrs']:
-                if a=='label':
-                    graph.append(a+'='+quote_if_necessary(self.cluster[c]['attrs'][a])+';\n')
-                    continue
-                graph.append(a+'='+self.cluster[c]['attrs'][a]+';\n')
+                graph.append(a+'='+quote_if_necessary(str(self.cluster[c]['attrs'][a]))+';\n')
             if len(self.cluster[c]['node_attrs'])!=0:
                 graph.append('node [')
             for a in self.cluster[c]['node_attrs']:
-                graph.append(a+'='+self.cluster[c]['node_attrs'][a])
+                graph.append(a+'='+quote_if_necessary(str(self.cluster[c]['node_attrs'][a])))
                 graph.append(',')
             if len(self.cluster[c]['node_attrs'])!=0:
                 graph.pop()
-- 
2.43.0


From febcc27847b166528991dc33af89412a7d082769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 29/45] fix: strings that are empty or contain commas, quotes
 or trailing backslashes are not quoted properly

---
 src/gimpy/global_constants.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/gimpy/global_constants.py b/src/gimpy/global_constants.py
index 316819c..3c8250c 100644
--- a/src/gimpy/global_constants.py
+++ b/src/gimpy/global_constants.py
@@ -120,12 +120,12 @@ DOT2TEX_TEMPLATE = r'''
 
 # following globals and two methods are from pydot
 DOT_KEYWORDS = ['graph', 'subgraph', 'digraph', 'node', 'edge', 'strict']
-ID_RE_ALPHA_NUMS = re.compile('^[_a-zA-Z][a-zA-Z0-9_,]*$', re.UNICODE)
-ID_RE_ALPHA_NUMS_WITH_PORTS = re.compile('^[_a-zA-Z][a-zA-Z0-9_,:\"]*[a-zA-Z0-9_,\"]+$', re.UNICODE)
-ID_RE_NUM = re.compile('^[0-9,]+$', re.UNICODE)
-ID_RE_WITH_PORT = re.compile('^([^:]*):([^:]*)$', re.UNICODE)
-ID_RE_DBL_QUOTED = re.compile('^\".*\"$', re.S|re.UNICODE)
-ID_RE_HTML = re.compile('^<.*>$', re.S|re.UNICODE)
+ID_RE_ALPHA_NUMS = re.compile(r'^[_a-zA-Z][a-zA-Z0-9_]*\Z', re.UNICODE)
+ID_RE_ALPHA_NUMS_WITH_PORTS = re.compile(r'^[_a-zA-Z][a-zA-Z0-9_]*(:[_a-zA-Z][a-zA-Z0-9_]*){1,2}\Z', re.UNICODE)
+ID_RE_NUM = re.compile(r'^[0-9]+\Z', re.UNICODE)
+ID_RE_WITH_PORT = re.compile(r'^([^:]+):([^:]+)\Z', re.UNICODE)
+ID_RE_DBL_QUOTED = re.compile(r'^".*"\Z', re.S|re.UNICODE)
+ID_RE_HTML = re.compile(r'^<.*>\Z', re.S|re.UNICODE)
 
 def quote_if_necessary(s):
     if isinstance(s, bool):
@@ -135,8 +135,10 @@ def quote_if_necessary(s):
     if not isinstance(s, basestring):
         return s
     if not s:
-        return s
+        return '""'
     if needs_quotes(s):
+        # a backslash right before a quote would change the meaning of quote
+        s = re.sub(r'(?<!\\)((?:\\\\)*)\\(?="|\Z)', r'\1\\\\', s)
         replace = {'"'  : r'\"',
                    "\n" : r'\n',
                    "\r" : r'\r',
-- 
2.43.0


From 6e663d9589b2df2ed78f0aad6261b0dc3eecd23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 30/45] fix: attribute values with a colon are not quoted

---
 src/gimpy/global_constants.py | 7 +++++--
 src/gimpy/graph.py            | 6 +++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/gimpy/global_constants.py b/src/gimpy/global_constants.py
index 3c8250c..3e77176 100644
--- a/src/gimpy/global_constants.py
+++ b/src/gimpy/global_constants.py
@@ -127,7 +127,7 @@ ID_RE_WITH_PORT = re.compile(r'^([^:]+):([^:]+)\Z', re.UNICODE)
 ID_RE_DBL_QUOTED = re.compile(r'^".*"\Z', re.S|re.UNICODE)
 ID_RE_HTML = re.compile(r'^<.*>\Z', re.S|re.UNICODE)
 
-def quote_if_necessary(s):
+def quote_if_necessary(s, is_node = False):
     if isinstance(s, bool):
         if s is True:
             return 'True'
@@ -136,7 +136,10 @@ def quote_if_necessary(s):
         return s
     if not s:
         return '""'
-    if needs_quotes(s):
+    # only node names may have ports
+    if needs_quotes(s) or (not is_node and ':' in s and
+                           not ID_RE_DBL_QUOTED.match(s) and
+                           not ID_RE_HTML.match(s)):
         # a backslash right before a quote would change the meaning of quote
         s = re.sub(r'(?<!\\)((?:\\\\)*)\\(?="|\Z)', r'\1\\\\', s)
         replace = {'"'  : r'\"',
diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index c82fb7d..ddacdfc 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -187,7 +187,7 @@ class Node(object):
             String representation of node.
         '''
         node = list()
-        node.append(quote_if_necessary(str(self.name)))
+        node.append(quote_if_necessary(str(self.name), is_node = True))
         node.append(' [')
         flag = False
         for a in self.attr:
@@ -638,9 +638,9 @@ class Graph(object):
             String that represents given edge.
         '''
         edge = list()
-        edge.append(quote_if_necessary(str(e[0])))
+        edge.append(quote_if_necessary(str(e[0]), is_node = True))
         edge.append(self.edge_connect_symbol)
-        edge.append(quote_if_necessary(str(e[1])))
+        edge.append(quote_if_necessary(str(e[1]), is_node = True))
         # return if there is nothing in self.edge_attr[e]
         if len(self.edge_attr[e]) == 0:
             return ''.join(edge)
-- 
2.43.0


From 621b145cdb3762ab7006d43aa9ae707a0b54c31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:12 +0000
Subject: [PATCH 31/45] fix: create leaves its temporary file behind when
 graphviz is missing or fails

---
 src/gimpy/graph.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index ddacdfc..c82c1e4 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1783,12 +1783,11 @@ Graphviz must be installed and in your search path.
 Please visit http://www.graphviz.org/ for information on installation.
 After installation, ensure that the PATH variable is properly set.''')
             return None
+        finally:
+            os.remove(tmp_name)
 
-        
         p.check_returncode()
 
-        os.remove(tmp_name)
-            
         if p.stderr:
             print(p.stderr)
         return p.stdout
-- 
2.43.0


From 2fd48f2674f2066ba672f4412b4749591d37e1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:12 +0000
Subject: [PATCH 32/45] fix: random graphs without labels, without costs, with
 random Euclidean neighbours or too high a degree

---
 src/gimpy/graph.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index c82c1e4..91ee705 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3293,7 +3293,7 @@ After installation, ensure that the PATH variable is properly set.''')
                     i = 0
                     while i < degree:
                         n = random.randint(1, numnodes-1)
-                        if (((m,n) not in self.edge_attr and m != n) and
+                        if ((not self.check_edge(m, n) and m != n) and
                             (parallel_allowed or (n, m) not in self.edge_attr)):
                             if length_range is not None:
                                 length = random.randint(length_range[0],
@@ -3301,8 +3301,8 @@ After installation, ensure that the PATH variable is properly set.''')
                                 self.add_edge(m, n, cost = length, **edge_format)
                                 if add_labels:
                                     self.set_edge_attr(m, n, 'label', str(length))
-                                else:
-                                    self.add_edge(m, n, **edge_format)
+                            else:
+                                self.add_edge(m, n, **edge_format)
                         i += 1
             elif density != None:
                 for m in range(numnodes):
@@ -3338,21 +3338,20 @@ After installation, ensure that the PATH variable is properly set.''')
                 for m in range(numnodes):
                     degree = random.randint(degree_range[0], degree_range[1])
                     i = 0
-                    neighbors = []
                     if node_selection == 'random':
                         while i < degree:
+                            n = random.randint(0, numnodes-1)
                             length = round((((self.get_node(n).get_attr('locationx') -
                                               self.get_node(m).get_attr('locationx')) ** 2 +
                                              (self.get_node(n).get_attr('locationy') -
                                               self.get_node(m).get_attr('locationy')) ** 2) ** 0.5)*scale_cost,
                                            0)
-                            if (((m,n) not in self.edge_attr and m != n) and
+                            if ((not self.check_edge(m, n) and m != n) and
                                 (parallel_allowed or (n, m) not in self.edge_attr)):
-                                neighbors.append(random.randint(0, numnodes-1))
                                 self.add_edge(m, n, cost = int(length), **edge_format)
                                 if add_labels:
                                     self.set_edge_attr(m, n, 'label', str(int(length)))
-                                i += 1
+                            i += 1
                     elif node_selection == 'closest':
                         lengths = []
                         for n in range(numnodes):
@@ -3362,7 +3361,7 @@ After installation, ensure that the PATH variable is properly set.''')
                                                         self.get_node(m).get_attr('locationy')) ** 2) ** 0.5)*scale_cost,
                                                      0)))
                         lengths.sort(key = lambda l : l[1])
-                        for i in range(degree+1):
+                        for i in range(min(degree+1, numnodes)):
                             if not (lengths[i][0] == m or self.check_edge(m, lengths[i][0])):
                                 self.add_edge(m, lengths[i][0], cost = int(lengths[i][1]), **edge_format)
                                 if add_labels:
-- 
2.43.0


From a34361f18e30e45425537022e29c580d53a52f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 33/45] fix: Tree traversals ignore their display argument

---
 src/gimpy/tree.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 6b6b16a..5489de3 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -158,10 +158,14 @@ class Tree(Graph):
             q: Queue data structure instance. It is either a Stack() or
             Queue().
         '''
+        old_display = None
         if root == None:
             root = self.root.name
         if display == None:
             display = self.attr['display']
+        else:
+            old_display = self.attr['display']
+            self.attr['display'] = display
         if q is None:
             q = Stack()
         if isinstance(q, Queue):
@@ -178,6 +182,8 @@ class Tree(Graph):
                 self.display(highlight = [current])
             for n in self.get_children(current):
                 addToQ(n)
+        if old_display:
+            self.attr['display'] = old_display
 
 
 class BinaryTree(Tree):
-- 
2.43.0


From f29211a6ff70e6bfe54b0d0fb2d086eb104984b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 34/45] fix: to_string writes graph attributes that are not
 strings without quotes

---
 src/gimpy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 91ee705..c6073b8 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -673,7 +673,7 @@ class Graph(object):
                 continue
             val = self.attr[a]
             if val is not None:
-                graph.append( '%s=%s' % (a, quote_if_necessary(val)) )
+                graph.append( '%s=%s' % (a, quote_if_necessary(str(val))) )
             else:
                 graph.append(a)
             graph.append( ';\n' )
-- 
2.43.0


From a41db2bc48fe5a4cd24558ba86199cfabb8b149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:14 +0000
Subject: [PATCH 35/45] fix: create() writes the graph as UTF-8 and never
 leaves its temporary file behind

The temporary file was written in the encoding of the locale, so that a
non-ASCII name made create() fail under an ASCII locale (and leave the file
behind); Graphviz reads UTF-8.
---
 src/gimpy/graph.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index c6073b8..1f3048c 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1770,19 +1770,20 @@ class Graph(object):
         Return:
             Returns postscript representation of graph.
         '''
+        graph_bytes = self.to_string().encode('utf8')
         tmp_fd, tmp_name = tempfile.mkstemp()
-        tmp_file = os.fdopen(tmp_fd, 'w')
-        tmp_file.write(self.to_string())
-        tmp_file.close()
         try:
-            p = subprocess.run([layout, '-T'+format, tmp_name],
-                               capture_output = True)
-        except OSError:
-            print('''Graphviz executable not found.
+            with os.fdopen(tmp_fd, 'wb') as tmp_file:
+                tmp_file.write(graph_bytes)
+            try:
+                p = subprocess.run([layout, '-T'+format, tmp_name],
+                                   capture_output = True)
+            except OSError:
+                print('''Graphviz executable not found.
 Graphviz must be installed and in your search path.
 Please visit http://www.graphviz.org/ for information on installation.
 After installation, ensure that the PATH variable is properly set.''')
-            return None
+                return None
         finally:
             os.remove(tmp_name)
 
-- 
2.43.0


From 8c27bbb64e07457ad3c49de4a9cd1b3960ba669d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 36/45] fix: network simplex labels show fractional flows,
 capacities and costs

The labels were formatted with %d, so that a flow of 0.5 was shown as 0.
---
 src/gimpy/graph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 1f3048c..c67a0e4 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2673,7 +2673,7 @@ After installation, ensure that the PATH variable is properly set.''')
             new.edge_attr[e]['flow'] = flow
             new.edge_attr[e]['capacity'] = capacity
             new.edge_attr[e]['cost'] = cost
-            new.edge_attr[e]['label'] =  "%d/%d/%d" %(flow,capacity,cost)
+            new.edge_attr[e]['label'] =  "%s/%s/%s" %(flow,capacity,cost)
         return new
 
     def simplex_remove_arc(self, t, p, q, min_capacity, cycle):
@@ -2723,7 +2723,7 @@ After installation, ensure that the PATH variable is properly set.''')
         capacity_pq = self.get_edge_attr(p, q, 'capacity')
         cost_pq = self.get_edge_attr(p, q, 'cost')
         self.set_edge_attr(p, q, 'label',
-                           "%d/%d/%d" %(flow_pq,capacity_pq,cost_pq))
+                           "%s/%s/%s" %(flow_pq,capacity_pq,cost_pq))
         for e in t.edge_attr:
             flow = self.edge_attr[e]['flow']
             capacity = self.edge_attr[e]['capacity']
@@ -2731,8 +2731,8 @@ After installation, ensure that the PATH variable is properly set.''')
             t.edge_attr[e]['flow'] = flow
             t.edge_attr[e]['capacity'] = capacity
             t.edge_attr[e]['cost'] = cost
-            t.edge_attr[e]['label'] = "%d/%d/%d" %(flow,capacity,cost)
-            self.edge_attr[e]['label'] = "%d/%d/%d" %(flow,capacity,cost)
+            t.edge_attr[e]['label'] = "%s/%s/%s" %(flow,capacity,cost)
+            self.edge_attr[e]['label'] = "%s/%s/%s" %(flow,capacity,cost)
 
     def simplex_select_entering_arc(self, t, pivot):
         '''
@@ -2871,12 +2871,12 @@ After installation, ensure that the PATH variable is properly set.''')
             flow = self.edge_attr[e]['flow']
             capacity = self.edge_attr[e]['capacity']
             cost = self.edge_attr[e]['cost']
-            self.edge_attr[e]['label'] = "%d/%d/%d" %(flow,capacity,cost)
+            self.edge_attr[e]['label'] = "%s/%s/%s" %(flow,capacity,cost)
             if e in solution_g.edge_attr:
                 solution_g.edge_attr[e]['flow'] = flow
                 solution_g.edge_attr[e]['capacity'] = capacity
                 solution_g.edge_attr[e]['cost'] = cost
-                solution_g.edge_attr[e]['label'] = "%d/%d/%d" %(flow,capacity,cost)
+                solution_g.edge_attr[e]['label'] = "%s/%s/%s" %(flow,capacity,cost)
         return solution_g
 
     def simplex_connect(self, solution_g):
-- 
2.43.0


From e4baa445361304c3e80442baf9447042080e94a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:14 +0000
Subject: [PATCH 37/45] fix: a highlighted node is shown red in that picture
 only

In display mode 'file' highlighted nodes stayed red for good, in the other
modes they lost the colour they had.
---
 src/gimpy/graph.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index c67a0e4..650e02e 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1822,10 +1822,22 @@ After installation, ensure that the PATH variable is properly set.''')
         if self.attr['display'] == 'off':
             return
         if highlight != None:
+            highlight = [n if isinstance(n, Node) else self.get_node(n)
+                         for n in highlight]
+            colors = [n.get_attr('color') for n in highlight]
             for n in highlight:
-                if not isinstance(n, Node):
-                    n = self.get_node(n)
                 n.set_attr('color', 'red')
+            try:
+                Graph.display(self, None, basename, format, pause,
+                              wait_for_click)
+            finally:
+                # the next picture should not show them highlighted
+                for n, color in zip(highlight, colors):
+                    if color is None:
+                        n.attr.pop('color', None)
+                    else:
+                        n.set_attr('color', color)
+            return
         if self.get_layout() == 'dot2tex':
             if self.attr['display'] != 'file':
                 self.attr['display'] = 'file'
@@ -1919,11 +1931,6 @@ After installation, ensure that the PATH variable is properly set.''')
         else:
             print("Unknown display mode: ", end=' ')
             print(self.attr['display'])
-        if highlight != None:
-            for n in highlight:
-                if not isinstance(n, Node):
-                    n = self.get_node(n)
-                n.set_attr('color', 'black')
 
     def set_display_mode(self, value):
         '''
-- 
2.43.0


From 4b2937312feae83a48030bb2885e55005418d3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:56 +0000
Subject: [PATCH 38/45] fix: Prim and Kruskal forget the highlighting an
 earlier run left on the graph

---
 src/gimpy/graph.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 650e02e..79fd828 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1321,6 +1321,8 @@ class Graph(object):
         neighbors = self.get_neighbors
         for n in self.get_node_list():
             self.set_node_attr(n, 'color', 'black')
+        for (n, m) in self.get_edge_list():
+            self.set_edge_attr(n, m, 'color', 'black')
         pred = {}
         addToQ(source, 0)
         done = False
@@ -1372,6 +1374,11 @@ class Graph(object):
                                      optimize = False)
         sorted_edge_list = sorted(self.get_edge_list(), key=self.get_edge_cost)
         edges = []
+        # nothing should be left highlighted by an earlier run
+        for n in self.get_node_list():
+            self.set_node_attr(n, 'color', 'black')
+        for (n, m) in self.get_edge_list():
+            self.set_edge_attr(n, m, 'color', 'black')
         for n in self.get_node_list():
             components.add([n])
         components.display()
-- 
2.43.0


From 97e42cae08c521c519efa5f9924953b11647e98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:36 +0000
Subject: [PATCH 39/45] fix: graph types are compared by value, an unpickled or
 computed type behaved as half undirected

---
 src/gimpy/graph.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 79fd828..cbc0585 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -250,7 +250,7 @@ class Graph(object):
         # adjacency list of nodes, it is a dictionary of lists
         self.neighbors = {}
         # if the graph is undirected we do not need in_neighbor
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             self.in_neighbors = {}
         self.nodes = {}
         self.edge_connect_symbol = EDGE_CONNECT_SYMBOL[self.graph_type]
@@ -291,7 +291,7 @@ class Graph(object):
         if isinstance(item, tuple):
             name1 = item[0]
             name2 = item[1]
-            if self.graph_type is DIRECTED_GRAPH:
+            if self.graph_type == DIRECTED_GRAPH:
                 return (name1, name2) in self.edge_attr
             else:
                 return ((name1, name2) in self.edge_attr or
@@ -318,7 +318,7 @@ class Graph(object):
         if name in self.neighbors:
             raise MultipleNodeException
         self.neighbors[name] = list()
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             self.in_neighbors[name] = list()
         self.nodes[name] = Node(name, **attr)
         return self.nodes[name]
@@ -349,7 +349,7 @@ class Graph(object):
             else:
                 del self.edge_attr[(name, n)]
                 self.in_neighbors[n].remove(name)
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             for n in self.in_neighbors[name]:
                 del self.edge_attr[(n, name)]
                 self.neighbors[n].remove(name)
@@ -379,7 +379,7 @@ class Graph(object):
         '''
         if (name1, name2) in self.edge_attr:
             raise MultipleEdgeException
-        if self.graph_type is UNDIRECTED_GRAPH and (name2,name1) in self.edge_attr:
+        if self.graph_type == UNDIRECTED_GRAPH and (name2,name1) in self.edge_attr:
             raise MultipleEdgeException
         self.edge_attr[(name1,name2)] = copy.deepcopy(DEFAULT_EDGE_ATTRIBUTES)
         for a in attr:
@@ -389,7 +389,7 @@ class Graph(object):
         if name2 not in self.nodes:
             self.add_node(name2)
         self.neighbors[name1].append(name2)
-        if self.graph_type is UNDIRECTED_GRAPH:
+        if self.graph_type == UNDIRECTED_GRAPH:
             self.neighbors[name2].append(name1)
         else:
             self.in_neighbors[name2].append(name1)
@@ -406,7 +406,7 @@ class Graph(object):
         Post:
             self.edge_attr, self.neighbors and self.in_neighbors are updated.
         '''
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             try:
                 del self.edge_attr[e]
             except KeyError:
@@ -462,7 +462,7 @@ class Graph(object):
         Return:
             Returns True if edge exists, False otherwise.
         '''
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             return (name1, name2) in self.edge_attr
         else:
             return ((name1, name2) in self.edge_attr or
@@ -537,7 +537,7 @@ class Graph(object):
         Return:
             Value of edge attribute attr.
         '''
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             return self.edge_attr[(n,m)][attr]
         else:
             try:
@@ -575,7 +575,7 @@ class Graph(object):
         Post:
             Edge attribute will be updated.
         '''
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             self.edge_attr[(n,m)][attr] = value
         else:
             try:
@@ -1608,7 +1608,7 @@ class Graph(object):
         Return:
             Returns residual graph, which is a Graph instance.
         '''
-        if self.graph_type is UNDIRECTED_GRAPH:
+        if self.graph_type == UNDIRECTED_GRAPH:
             raise Exception('residual graph is defined for directed graphs.')
         residual_g = Graph(type = DIRECTED_GRAPH)
         for e in self.get_edge_list():
@@ -2176,7 +2176,7 @@ After installation, ensure that the PATH variable is properly set.''')
                 distance[e] = min(0, self.get_edge_cost(e))
                 continue
             distance[(e[0],e[1])] = self.get_edge_cost(e)
-            if self.graph_type is UNDIRECTED_GRAPH:
+            if self.graph_type == UNDIRECTED_GRAPH:
                 distance[(e[1],e[0])] = self.get_edge_cost(e)
         # == end of distance initialization
         # initialize next
@@ -3464,7 +3464,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.graph_type is not DIRECTED_GRAPH:
+        if self.graph_type != DIRECTED_GRAPH:
             for n in self.get_node_list():
                 degree[n] = len(self.get_neighbors(n))
             return degree
@@ -3485,7 +3485,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.graph_type is not DIRECTED_GRAPH:
+        if self.graph_type != DIRECTED_GRAPH:
             print('This function only works for directed graphs')
             return
         for n in self.get_node_list():
@@ -3503,7 +3503,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.graph_type is not DIRECTED_GRAPH:
+        if self.graph_type != DIRECTED_GRAPH:
             print('This function only works for directed graphs')
             return
         for n in self.get_node_list():
@@ -3523,7 +3523,7 @@ After installation, ensure that the PATH variable is properly set.''')
             Returns diameter of the graph.
         '''
 
-        if self.graph_type is not UNDIRECTED_GRAPH:
+        if self.graph_type != UNDIRECTED_GRAPH:
             print('This function only works for undirected graphs')
             return
         diameter = 'infinity'
-- 
2.43.0


From a4081fe786be0f7065e4901aed7a66b22c09b026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:47 +0000
Subject: [PATCH 40/45] fix: display in PIL and matplotlib mode leaves no
 temporary file behind when there is no picture or the window is closed

---
 src/gimpy/graph.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index cbc0585..6c3878e 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1887,23 +1887,22 @@ After installation, ensure that the PATH variable is properly set.''')
             return
         elif self.attr['display'] == 'PIL':
             if PIL_INSTALLED:
-                tmp_fd, tmp_name = tempfile.mkstemp()
-                tmp_file = os.fdopen(tmp_fd, 'w+b')
+                # kept in memory, nothing is left behind if there is no picture
+                tmp_file = io.BytesIO()
                 self.write(tmp_file, self.get_layout(), format)
-                tmp_file.close()
-                im = PIL_Image.open(tmp_name)
+                tmp_file.seek(0)
+                im = PIL_Image.open(tmp_file)
                 im.show()
-                os.remove(tmp_name)
             else:
                 print('Error: PIL not installed. Display disabled.')
                 self.attr['display'] = 'off'
         elif self.attr['display'] == 'matplotlib':
             if MATPLOTLIB_INSTALLED and PIL_INSTALLED:
-                tmp_fd, tmp_name = tempfile.mkstemp()
-                tmp_file = os.fdopen(tmp_fd, 'w+b')
+                # kept in memory, nothing is left behind if there is no picture
+                tmp_file = io.BytesIO()
                 self.write(tmp_file, self.get_layout(), format)
-                tmp_file.close()
-                im = PIL_Image.open(tmp_name)
+                tmp_file.seek(0)
+                im = PIL_Image.open(tmp_file)
                 fig = plt.figure(1)
                 fig.canvas.mpl_connect('close_event', handle_close)
                 plt.clf()
@@ -1922,7 +1921,6 @@ After installation, ensure that the PATH variable is properly set.''')
                 else:
                     plt.show(block=pause)
                 im.close()
-                os.remove(tmp_name)
             else:
                 print('Warning: Either matplotlib or Pillow is not installed. Display disabled.')
                 self.attr['display'] = 'off'
-- 
2.43.0


From 796351f0ea19af0c633c1c58001804af0c5bd69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:15 +0000
Subject: [PATCH 41/45] fix: min_cost_flow that fails, say for a missing
 demand, leaves its auxiliary nodes s and t in the graph

---
 src/gimpy/graph.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 6c3878e..d5828fb 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1686,12 +1686,31 @@ class Graph(object):
             Returns True if a feasible flow is found, returns False, if the
             problem is infeasible
         '''
-        # establish a feasible flow in the network, to do this add nodes s and
-        # t and solve a max flow problem.
-        nl = self.get_node_list()
         for i in ('s', 't'):
             if i in self.neighbors:
                 raise MultipleNodeException
+        try:
+            return self.find_feasible_flow_st()
+        finally:
+            # they should not stay if a demand is missing or the graph is
+            # undirected
+            for i in ('s', 't'):
+                if i in self.neighbors:
+                    self.del_node(i)
+
+    def find_feasible_flow_st(self):
+        '''
+        API:
+            find_feasible_flow_st(self)
+        Description:
+            Does the work of find_feasible_flow() with the auxiliary nodes 's'
+            and 't', which should not be in the graph.
+        Return:
+            Returns True if a feasible flow is found, False otherwise.
+        '''
+        # establish a feasible flow in the network, to do this add nodes s and
+        # t and solve a max flow problem.
+        nl = self.get_node_list()
         self.add_node('s')
         self.add_node('t')
         for i in nl:
-- 
2.43.0


From 3286a5f5b9655fc944f1a8af54832a42ac4a076a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:15 +0000
Subject: [PATCH 42/45] fix: printexp and postordereval ignore the display mode
 they are given

---
 src/gimpy/tree.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 5489de3..3aa10ae 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -445,6 +445,14 @@ class BinaryTree(Tree):
             self.attr['display'] = old_display
 
     def printexp(self, display = None, root = None):
+        if display is not None and display != self.attr['display']:
+            # display in that mode, the mode of the tree should stay
+            old_display = self.attr['display']
+            self.attr['display'] = display
+            try:
+                return self.printexp(display, root)
+            finally:
+                self.attr['display'] = old_display
         if root == None:
             root = self.root
         if display == None:
@@ -476,6 +484,14 @@ class BinaryTree(Tree):
                 self.display(highlight = [root])
 
     def postordereval(self, display = None, root = None):
+        if display is not None and display != self.attr['display']:
+            # display in that mode, the mode of the tree should stay
+            old_display = self.attr['display']
+            self.attr['display'] = display
+            try:
+                return self.postordereval(display, root)
+            finally:
+                self.attr['display'] = old_display
         if root == None:
             root = self.root
         if display == None:
-- 
2.43.0


From 78a18279e18184fa8d78971b352fefe09ab50488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 43/45] fix: the display mode given to a run that fails or is
 interrupted stays on the graph

---
 src/gimpy/graph.py | 16 +++++++++++++---
 src/gimpy/tree.py  | 12 +++++++++++-
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index d5828fb..3547d73 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -854,6 +854,16 @@ class Graph(object):
             Returns a tuple that has discovery time and finish time of the
             last node in the following form (disc_time,finish_time).
         '''
+        if display is not None and display != self.attr['display']:
+            # the mode of the graph should stay, even if this run fails
+            old_display = self.attr['display']
+            self.set_display_mode(display)
+            try:
+                return self.dfs(root, disc_count, finish_count,
+                                topological_order, component, transpose,
+                                display, pred)
+            finally:
+                self.set_display_mode(old_display)
         if pred == None:
             pred = {}
         old_display = None
@@ -1435,9 +1445,8 @@ class Graph(object):
                 self.edge_attr[e]['capacity'] = INF
                 self.edge_attr[e]['label'] = 'INF/0'
         self.display()
-        self.set_display_mode('off')
-        self.search(sink, algo = 'UnweightedSPT', reverse = True)
-        self.set_display_mode(display)
+        self.search(sink, algo = 'UnweightedSPT', reverse = True,
+                    display = 'off')
         disconnect = False
         for n in nl:
             if self.get_node_attr(n, 'distance') is None:
@@ -1969,6 +1978,7 @@ After installation, ensure that the PATH variable is properly set.''')
         '''
         self.attr['display'] = value
 
+    @restores_display_mode
     def max_flow(self, source, sink, display = None, algo = 'DFS'):
         '''
         API: max_flow(self, source, sink, display=None)
diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 3aa10ae..66265cd 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -5,7 +5,7 @@ from __future__ import print_function
 from __future__ import absolute_import
 from builtins import str
 
-from .graph import Graph, Node
+from .graph import Graph, Node, restores_display_mode
 from .global_constants import *
 try:
     from src.blimpy import Stack, Queue
@@ -142,6 +142,7 @@ class Tree(Graph):
             display = self.attr['display']
         self.traverse(root, display, Queue())
 
+    @restores_display_mode
     def traverse(self, root = None, display = None, q = None):
         '''
         API: traverse(self, root = None, display = None, q = None)
@@ -323,6 +324,14 @@ class BinaryTree(Tree):
             display: Display mode.
             root: Starting node.
         '''
+        if display is not None and display != self.attr['display']:
+            # the mode of the tree should stay, even if this run fails
+            old_display = self.attr['display']
+            self.attr['display'] = display
+            try:
+                return self.print_nodes(order, priority, display, root)
+            finally:
+                self.attr['display'] = old_display
         old_display = None
         if root == None:
             root = self.root.name
@@ -390,6 +399,7 @@ class BinaryTree(Tree):
             root = self.root
         self.traverse(root, display, Queue(), priority)
 
+    @restores_display_mode
     def traverse(self, root = None, display = None, q = None,
                  priority = 'L'):
         '''
-- 
2.43.0


From 8f166056cc6405911f63a91a9cea4523d753fd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:05 +0000
Subject: [PATCH 44/45] fix: simplex_find_cycle returned a closed walk instead
 of a cycle when the paths to the root share nodes

---
 src/gimpy/graph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 3547d73..c05547b 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3085,6 +3085,11 @@ After installation, ensure that the PATH variable is properly set.''')
                         while temp is not None:
                             cycle2.append(temp)
                             temp = pred[temp]
+                        # the paths to the root part at the last common node
+                        while (len(cycle1) > 1 and len(cycle2) > 1 and
+                               cycle1[-2] == cycle2[-2]):
+                            cycle1.pop()
+                            cycle2.pop()
                         cycle1.pop()
                         cycle1.reverse()
                         cycle2.extend(cycle1)
-- 
2.43.0


From 8e17400bbc78189cf46d231dfbd5f136b721f1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:07 +0000
Subject: [PATCH 45/45] fix: pivot rule first_eligible took the last eligible
 arc

---
 src/gimpy/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index c05547b..a71cb44 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2835,10 +2835,12 @@ After installation, ensure that the PATH variable is properly set.''')
                     if cpi_ij < 0:
                         max_c = e
                         max_v = abs(cpi_ij)
+                        break
                 elif flow_ij==capacity_ij:
                     if cpi_ij > 0:
                         max_c = e
                         max_v = cpi_ij
+                        break
         else:
             raise Exception("Unknown pivot rule.")
         return max_c
-- 
2.43.0

