From fc8a1887aa6af75c94fdcf87ca8c5be174c082f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 01/47] fix: compare graph types with == instead of identity

A graph whose type string is equal to but not the same object as the
DIRECTED_GRAPH/UNDIRECTED_GRAPH constant (built at run time, read from a
file, or restored by pickle) was treated as neither.
---
 src/gimpy/graph.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 1d3638e..42a0a8d 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -229,7 +229,7 @@ class Graph(object):
         # adjacency list of nodes, it is a dictionary of lists
         self.neighbors = {}
         # if the graph is undirected we do not need in_neighbor
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             self.in_neighbors = {}
         self.nodes = {}
         self.edge_connect_symbol = EDGE_CONNECT_SYMBOL[self.graph_type]
@@ -270,7 +270,7 @@ class Graph(object):
         if isinstance(item, tuple):
             name1 = item[0]
             name2 = item[1]
-            if self.graph_type is DIRECTED_GRAPH:
+            if self.graph_type == DIRECTED_GRAPH:
                 return (name1, name2) in self.edge_attr
             else:
                 return ((name1, name2) in self.edge_attr or
@@ -297,7 +297,7 @@ class Graph(object):
         if name in self.neighbors:
             raise MultipleNodeException
         self.neighbors[name] = list()
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             self.in_neighbors[name] = list()
         self.nodes[name] = Node(name, **attr)
         return self.nodes[name]
@@ -322,7 +322,7 @@ class Graph(object):
                 self.neighbors[n].remove(name)
             else:
                 self.in_neighbors[n].remove(name)
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             for n in self.in_neighbors[name]:
                 del self.edge_attr[(n, name)]
                 self.neighbors[n].remove(name)
@@ -349,7 +349,7 @@ class Graph(object):
         '''
         if (name1, name2) in self.edge_attr:
             raise MultipleEdgeException
-        if self.graph_type is UNDIRECTED_GRAPH and (name2,name1) in self.edge_attr:
+        if self.graph_type == UNDIRECTED_GRAPH and (name2,name1) in self.edge_attr:
             raise MultipleEdgeException
         self.edge_attr[(name1,name2)] = copy.deepcopy(DEFAULT_EDGE_ATTRIBUTES)
         for a in attr:
@@ -359,7 +359,7 @@ class Graph(object):
         if name2 not in self.nodes:
             self.add_node(name2)
         self.neighbors[name1].append(name2)
-        if self.graph_type is UNDIRECTED_GRAPH:
+        if self.graph_type == UNDIRECTED_GRAPH:
             self.neighbors[name2].append(name1)
         else:
             self.in_neighbors[name2].append(name1)
@@ -376,7 +376,7 @@ class Graph(object):
         Post:
             self.edge_attr, self.neighbors and self.in_neighbors are updated.
         '''
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             try:
                 del self.edge_attr[e]
             except KeyError:
@@ -432,7 +432,7 @@ class Graph(object):
         Return:
             Returns True if edge exists, False otherwise.
         '''
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             return (name1, name2) in self.edge_attr
         else:
             return ((name1, name2) in self.edge_attr or
@@ -507,7 +507,7 @@ class Graph(object):
         Return:
             Value of edge attribute attr.
         '''
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             return self.edge_attr[(n,m)][attr]
         else:
             try:
@@ -545,7 +545,7 @@ class Graph(object):
         Post:
             Edge attribute will be updated.
         '''
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             self.edge_attr[(n,m)][attr] = value
         else:
             try:
@@ -1546,7 +1546,7 @@ class Graph(object):
         Return:
             Returns residual graph, which is a Graph instance.
         '''
-        if self.graph_type is UNDIRECTED_GRAPH:
+        if self.graph_type == UNDIRECTED_GRAPH:
             raise Exception('residual graph is defined for directed graphs.')
         residual_g = Graph(type = DIRECTED_GRAPH)
         for e in self.get_edge_list():
@@ -3370,7 +3370,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.attr['type'] is not DIRECTED_GRAPH:
+        if self.attr['type'] != DIRECTED_GRAPH:
             for n in self.get_node_list():
                 degree[n] = len(self.get_neighbors(n))
             return degree
@@ -3390,7 +3390,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.attr['type'] is not DIRECTED_GRAPH:
+        if self.attr['type'] != DIRECTED_GRAPH:
             print('This function only works for directed graphs')
             return
         for n in self.get_node_list():
@@ -3408,7 +3408,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.attr['type'] is not DIRECTED_GRAPH:
+        if self.attr['type'] != DIRECTED_GRAPH:
             print('This function only works for directed graphs')
             return
         for n in self.get_node_list():
@@ -3428,7 +3428,7 @@ After installation, ensure that the PATH variable is properly set.''')
             Returns diameter of the graph.
         '''
 
-        if self.attr['type'] is not UNDIRECTED_GRAPH:
+        if self.attr['type'] != UNDIRECTED_GRAPH:
             print('This function only works for undirected graphs')
             return
         diameter = 'infinity'
-- 
2.43.0


From b1e6771d1cc29b270580aacaa3ea3aeea39b455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 02/47] fix: make del_node work on undirected graphs and on
 nodes with loops

Deleting a node of an undirected graph raised KeyError for edges stored in
the other orientation, left the graph half updated, and always failed on
the missing in_neighbors table. Incident edges are now removed through
del_edge, which knows about orientation.
---
 src/gimpy/graph.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 42a0a8d..a3ec113 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -316,18 +316,14 @@ class Graph(object):
         '''
         if name not in self.neighbors:
             raise Exception('Node %s does not exist!' %str(name))
-        for n in self.neighbors[name]:
-            del self.edge_attr[(name, n)]
-            if self.graph_type == UNDIRECTED_GRAPH:
-                self.neighbors[n].remove(name)
-            else:
-                self.in_neighbors[n].remove(name)
+        for n in list(self.neighbors[name]):
+            if (name, n) in self:
+                self.del_edge((name, n))
         if self.graph_type == DIRECTED_GRAPH:
-            for n in self.in_neighbors[name]:
-                del self.edge_attr[(n, name)]
-                self.neighbors[n].remove(name)
+            for n in list(self.in_neighbors[name]):
+                self.del_edge((n, name))
+            del self.in_neighbors[name]
         del self.neighbors[name]
-        del self.in_neighbors[name]
         del self.nodes[name]
 
     def add_edge(self, name1, name2, **attr):
-- 
2.43.0


From 2b4055d6d8bf8b94cbf910f77b28019fe6e4b3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 03/47] fix: make minimum_spanning_tree_prim compute a spanning
 tree

Comparing a new estimate with peek(n)[0] indexed a node name instead of
reading the queued priority, nodes left green by an earlier algorithm were
skipped, a loop at the current node was read as a queued estimate, and the
default queue was shared by all calls.
---
 src/gimpy/graph.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index a3ec113..1070499 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1237,7 +1237,7 @@ class Graph(object):
         self.display()
 
     def minimum_spanning_tree_prim(self, source, display = None,
-                                   q = PriorityQueue()):
+                                   q = None):
         '''
         API: minimum_spanning_tree_prim(self, source, display = None,
                                         q = PriorityQueue())
@@ -1258,13 +1258,17 @@ class Graph(object):
             display = self.attr['display']
         else:
             self.set_display_mode(display)
+        if q is None:
+            q = PriorityQueue()
         if isinstance(q, PriorityQueue):
             addToQ = q.push
             removeFromQ = q.pop
-            peek = q.peek
+            get_priority = q.get_priority
             isEmpty = q.isEmpty
         neighbors = self.get_neighbors
         pred = {}
+        for n in self.get_node_list():
+            self.set_node_attr(n, 'color', 'black')
         addToQ(source)
         done = False
         while not isEmpty() and not done:
@@ -1278,7 +1282,8 @@ class Graph(object):
                     self.set_edge_attr(current, n, 'color', 'yellow')
                     self.display()
                     new_estimate = self.get_edge_attr(current, n, 'cost')
-                    if not n in pred or new_estimate < peek(n)[0]:
+                    if n != current and (not n in pred or
+                                         new_estimate < get_priority(n)):
                         pred[n] = current
                         self.set_node_attr(n, 'color', 'red')
                         self.set_node_attr(n, 'label', new_estimate)
-- 
2.43.0


From 93b1a17e780a7e52d1502829caa59b408d402e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 04/47] fix: degree and diameter queries on default and on
 directed graphs

get_degrees, get_in_degrees, get_out_degrees and get_diameter read
attr['type'], which a graph created without a type does not have, and
get_degrees returned None for directed graphs.
---
 src/gimpy/graph.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 1070499..0c14336 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3371,7 +3371,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.attr['type'] != DIRECTED_GRAPH:
+        if self.graph_type != DIRECTED_GRAPH:
             for n in self.get_node_list():
                 degree[n] = len(self.get_neighbors(n))
             return degree
@@ -3379,6 +3379,7 @@ After installation, ensure that the PATH variable is properly set.''')
             for n in self.get_node_list():
                 degree[n] = (len(self.get_in_neighbors(n)) +
                              len(self.get_out_neighbors(n)))
+            return degree
 
     def get_in_degrees(self):
         '''
@@ -3391,7 +3392,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.attr['type'] != DIRECTED_GRAPH:
+        if self.graph_type != DIRECTED_GRAPH:
             print('This function only works for directed graphs')
             return
         for n in self.get_node_list():
@@ -3409,7 +3410,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.attr['type'] != DIRECTED_GRAPH:
+        if self.graph_type != DIRECTED_GRAPH:
             print('This function only works for directed graphs')
             return
         for n in self.get_node_list():
@@ -3429,7 +3430,7 @@ After installation, ensure that the PATH variable is properly set.''')
             Returns diameter of the graph.
         '''
 
-        if self.attr['type'] != UNDIRECTED_GRAPH:
+        if self.graph_type != UNDIRECTED_GRAPH:
             print('This function only works for undirected graphs')
             return
         diameter = 'infinity'
-- 
2.43.0


From 414ac3c832eb7ac51364e905b734e98d6caefdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 05/47] fix: fifo_label_correcting compared the 'inf' label
 with numbers

---
 src/gimpy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 0c14336..04039d4 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2250,7 +2250,7 @@ After installation, ensure that the PATH variable is properly set.''')
                 distance_j = self.get_node(j).get_attr('distance')
                 distance_i = self.get_node(i).get_attr('distance')
                 c_ij = self.get_edge_attr(i, j, 'cost')
-                if distance_j > distance_i + c_ij:
+                if distance_j == 'inf' or distance_j > distance_i + c_ij:
                     self.get_node(j).set_attr('distance', distance_i+c_ij)
                     if j in pred:
                         pred[j] = i
-- 
2.43.0


From 2fe131b19d3035e1195f07a0ac0e185ed8c73a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 06/47] fix: floyd_warshall_get_path repeated every inner node
 of the path

Also return the one-node path when both ends are the same node instead of
failing on a missing predecessor.
---
 src/gimpy/graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 04039d4..7c341fa 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2147,12 +2147,12 @@ After installation, ensure that the PATH variable is properly set.''')
         '''
         if distance[(i,j)]=='infinity':
             return None
+        if i==j:
+            return [i]
+        # nextn[(i,j)] is the node that precedes j on the path from i
         k = nextn[(i,j)]
         path = self.floyd_warshall_get_path
-        if i==k:
-            return [i, j]
-        else:
-            return path(distance, nextn, i,k) + [k] + path(distance, nextn, k,j)
+        return path(distance, nextn, i,k) + [j]
 
     def floyd_warshall_get_cycle(self, distance, nextn, element = None):
         '''
-- 
2.43.0


From 1b671e1815aa32ef8ce6094dd3955e242e47434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 07/47] fix: negative cycle extraction could return a
 nonnegative cycle

Floyd-Warshall kept running after a negative cycle appeared, which
overwrites the predecessors the cycle is read from. Stop at the end of the
first iteration that makes a diagonal entry negative.
---
 src/gimpy/graph.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 7c341fa..b204744 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2122,13 +2122,14 @@ After installation, ensure that the PATH variable is properly set.''')
                     elif distance[(i,j)] > distance[(i,k)] + distance[(k,j)]:
                         distance[(i,j)] = distance[(i,k)] + distance[(k,j)]
                         nextn[(i,j)] = nextn[(k,j)]
+            # check if graph has negative cycles, stop before later
+            # iterations overwrite the predecessors on the cycle found
+            for i in nl:
+                if distance[(i,i)] < 0:
+                    # shortest distances are not valid
+                    # graph has negative cycle
+                    return (False, distance, nextn)
         # == end of compute shortest distance
-        # check if graph has negative cycles
-        for i in nl:
-            if distance[(i,i)] < 0:
-                # shortest distances are not valid
-                # graph has negative cycle
-                return (False, distance, nextn)
         return (True, distance, nextn)
 
     def floyd_warshall_get_path(self, distance, nextn, i, j):
-- 
2.43.0


From 9bf286ff6a8d6a8f932dff04d9d24aa64d2ea57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 08/47] fix: Tree traversal from the default root, and its
 shared default queue

Tree.dfs, bfs and traverse without a root argument looked the root up by
its Node instead of its name and raised KeyError. The default queue of
traverse was one object shared by all calls, so an interrupted traversal
leaked nodes into the next one.
---
 src/gimpy/tree.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 169f471..2be6250 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -118,7 +118,7 @@ class Tree(Graph):
             display: Display argument.
         '''
         if root == None:
-            root = self.root
+            root = self.root.name
         if display == None:
             display = self.attr['display']
         self.traverse(root, display, Stack())
@@ -137,12 +137,12 @@ class Tree(Graph):
             display: Display argument.
         '''
         if root == None:
-            root = self.root
+            root = self.root.name
         if display == None:
             display = self.attr['display']
         self.traverse(root, display, Queue())
 
-    def traverse(self, root = None, display = None, q = Stack()):
+    def traverse(self, root = None, display = None, q = None):
         '''
         API: traverse(self, root = None, display = None, q = Stack())
         Description:
@@ -159,7 +159,9 @@ class Tree(Graph):
             Queue().
         '''
         if root == None:
-            root = self.root
+            root = self.root.name
+        if q is None:
+            q = Stack()
         if display == None:
             display = self.attr['display']
         if isinstance(q, Queue):
@@ -379,7 +381,7 @@ class BinaryTree(Tree):
             root = self.root
         self.traverse(root, display, Queue(), priority)
 
-    def traverse(self, root = None, display = None, q = Stack(),
+    def traverse(self, root = None, display = None, q = None,
                  priority = 'L'):
         '''
         API: traverse(self, root=None, display=None, q=Stack(), priority='L',
@@ -400,6 +402,8 @@ class BinaryTree(Tree):
         old_display = None
         if root == None:
             root = self.root
+        if q is None:
+            q = Stack()
         if display == None:
             display = self.attr['display']
         else:
-- 
2.43.0


From 404dccc2e841d2677b5b69ea4fc63168c6e3005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 09/47] fix: hamiltonian called a missing method and missed
 every open path

The recursion went to self.tsp, which does not exist; a path without a
given destination was accepted only with more edges than a path can have;
and nodes marked visited by an earlier search stayed marked.
---
 src/gimpy/graph.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index b204744..93c8fd6 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -895,13 +895,11 @@ class Graph(object):
         if (distance == 0):
             for i in self.get_node_list():
                 self.get_node(i).set_attr('label', '-')
+                self.get_node(i).set_attr('visited', None)
             self.display()
 
-        if destination != None:
-            if source == destination and distance == self.get_node_num() - 1:
-                return True
-        else:
-            if distance == self.get_node_num():
+        if distance == self.get_node_num() - 1:
+            if destination == None or source == destination:
                 return True
 
         self.get_node(source).set_attr('visited', True)
@@ -913,7 +911,7 @@ class Graph(object):
         for i in self.get_neighbors(source):
             if self.get_node(i).get_attr('visited') is None:
                 pred[i] = source
-                if (self.tsp(i, destination, distance+1, display = display, 
+                if (self.hamiltonian(i, destination, distance+1, display = display, 
                             pred = pred)):
                     return True
         if source in pred: # this is the original source node
-- 
2.43.0


From db8c8db0998a39566f9bfb3b42206b50e7ecf798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 10/47] fix: create_cluster leaked the cluster name into its
 default argument

The generated name was written into the shared default dictionary (and
into a dictionary passed by the caller), so the second unnamed cluster, on
any graph, replaced the first. The duplicate name test looked for a
cluster called 'name', a generated name could replace a cluster that has
that name, and the node list stayed shared with the caller.
---
 src/gimpy/graph.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 93c8fd6..0661594 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3465,18 +3465,22 @@ After installation, ensure that the PATH variable is properly set.''')
             A cluster will be created. Attributes of the nodes in the cluster
             may change.
         '''
+        cluster_attrs = copy.deepcopy(cluster_attrs)
         if 'name' in cluster_attrs:
-            if 'name' in self.cluster:
+            if cluster_attrs['name'] in self.cluster:
                 raise Exception('A cluster with name %s already exists!' %cluster_attrs['name'])
             else:
                 name = cluster_attrs['name']
         else:
             name = 'c%d' %self.attr['cluster_count']
             self.attr['cluster_count'] += 1
+            while name in self.cluster:
+                name = 'c%d' %self.attr['cluster_count']
+                self.attr['cluster_count'] += 1
             cluster_attrs['name'] = name
         #cluster_attrs['name'] =
-        self.cluster[name] = {'node_list':node_list,
-                              'attrs':copy.deepcopy(cluster_attrs),
+        self.cluster[name] = {'node_list':list(node_list),
+                              'attrs':cluster_attrs,
                               'node_attrs':copy.deepcopy(node_attrs)}
 
 
-- 
2.43.0


From 69ee1d9ccdf3dd4f699d297023e7bb779f75b560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 11/47] fix: to_string on clusters of undirected graphs and
 after del_node

check_edge accepts both orientations of an undirected edge but only one of
them has attributes to print, and a deleted node stayed in its cluster;
both made to_string raise.
---
 src/gimpy/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 0661594..1907272 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -325,6 +325,9 @@ class Graph(object):
             del self.in_neighbors[name]
         del self.neighbors[name]
         del self.nodes[name]
+        for c in self.cluster:
+            if name in self.cluster[c]['node_list']:
+                self.cluster[c]['node_list'].remove(name)
 
     def add_edge(self, name1, name2, **attr):
         '''
@@ -665,7 +668,7 @@ class Graph(object):
             # process cluster edges
             for n in self.cluster[c]['node_list']:
                 for m in self.cluster[c]['node_list']:
-                    if self.check_edge(n,m):
+                    if (n,m) in self.edge_attr:
                         data = self.edge_to_string((n,m))
                         graph.append(data + ';\n')
                         processed_edges[(n,m)]=None
-- 
2.43.0


From f8ab6199c7076c5302ffedf9105ba1938a96b11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 12/47] fix: tarjan skipped every node labelled by an earlier
 call

Calling label_strong_component again, for example after adding an edge,
set num_components to 0 and kept the old labels.
---
 src/gimpy/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 1907272..2e74466 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -735,6 +735,8 @@ class Graph(object):
         index = 0
         component = 0
         q = []
+        for n in self.get_node_list():
+            self.set_node_attr(n, 'index', None)
         for n in self.get_node_list():
             if self.get_node_attr(n, 'index') is None:
                 index, component = self.strong_connect(q, n, index, component)
-- 
2.43.0


From fef731fc9809a9eb68cc233f4b62e329e5f4e00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 13/47] fix: find_feasible_flow without supply, and with unmet
 demand

Without a supply (or a demand) node the auxiliary source (or sink) was
never added and looking it up raised KeyError; demand exceeding supply was
reported as feasible with the demand not met.
---
 src/gimpy/graph.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 2e74466..19f4e5e 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1631,6 +1631,8 @@ class Graph(object):
         # establish a feasible flow in the network, to do this add nodes s and
         # t and solve a max flow problem.
         nl = self.get_node_list()
+        self.add_node('s')
+        self.add_node('t')
         for i in nl:
             b_i = self.get_node(i).get_attr('demand')
             if b_i > 0:
@@ -1650,6 +1652,13 @@ class Graph(object):
                 self.del_node('s')
                 self.del_node('t')
                 return False
+        for i in self.in_neighbors['t']:
+            flow = self.get_edge_attr(i, 't', 'flow')
+            capacity = self.get_edge_attr(i, 't', 'capacity')
+            if flow != capacity:
+                self.del_node('s')
+                self.del_node('t')
+                return False
         # remove node 's' and node 't'
         self.del_node('s')
         self.del_node('t')
-- 
2.43.0


From 30557b8b33e3c5b3c0cdcdc2e85b4fe0716dff70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 14/47] fix: network simplex on node names other than small
 integers

Names were compared by identity, which loops or fails for equal but
distinct objects (integers above 256, strings built at run time), and were
passed through int(), which fails for strings.
---
 src/gimpy/graph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 19f4e5e..6606d43 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2888,8 +2888,8 @@ After installation, ensure that the PATH variable is properly set.''')
                 depth[n] = depth[current]+1
                 q.append(n)
         for i in range(len(sequence)-1):
-            self.get_node(sequence[i]).set_attr('thread', int(sequence[i+1]))
-        self.get_node(sequence[-1]).set_attr('thread', int(sequence[0]))
+            self.get_node(sequence[i]).set_attr('thread', sequence[i+1])
+        self.get_node(sequence[-1]).set_attr('thread', sequence[0])
         for n in pred:
             self.get_node(n).set_attr('pred', pred[n])
             self.get_node(n).set_attr('depth', depth[n])
@@ -2953,7 +2953,7 @@ After installation, ensure that the PATH variable is properly set.''')
         pred = {nl[0]:None}
         for n in nl:
             self.get_node(n).set_attr('component', None)
-        component_nr = int(nl[0])
+        component_nr = nl[0]
         self.get_node(nl[0]).set_attr('component', component_nr)
         while True:
             while q:
@@ -2993,7 +2993,7 @@ After installation, ensure that the PATH variable is properly set.''')
                     depth = {n:0}
                     pred = {n:None}
                     visited = []
-                    component_nr = int(n)
+                    component_nr = n
                     self.get_node(n).set_attr('component', component_nr)
                     flag = True
                     break
@@ -3046,7 +3046,7 @@ After installation, ensure that the PATH variable is properly set.''')
         '''
         self.get_node(root).set_attr('potential', 0)
         j = t.get_node(root).get_attr('thread')
-        while j is not root:
+        while j != root:
             i = t.get_node(j).get_attr('pred')
             potential_i = self.get_node(i).get_attr('potential')
             if (i,j) in self.edge_attr:
@@ -3078,7 +3078,7 @@ After installation, ensure that the PATH variable is properly set.''')
         cycle = []
         li = [k]
         lj = [j]
-        while i is not j:
+        while i != j:
             depth_i = t.get_node(i).get_attr('depth')
             depth_j = t.get_node(j).get_attr('depth')
             if depth_i > depth_j:
-- 
2.43.0


From 99468e2995c6c9fa8b4b2607645ffd185b711adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 15/47] fix: network simplex cycled forever on arcs of zero
 capacity

Such an arc is at both bounds at once, so it stayed eligible to enter the
tree although no flow can use it.
---
 src/gimpy/graph.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 6606d43..a028936 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2693,7 +2693,8 @@ After installation, ensure that the PATH variable is properly set.''')
             # pick the maximum violation
             candidate = {}
             for e in self.edge_attr:
-                if e in t.edge_attr:
+                # an arc without capacity can never carry flow
+                if e in t.edge_attr or self.edge_attr[e]['capacity'] == 0:
                     continue
                 flow_ij = self.edge_attr[e]['flow']
                 potential_i = self.get_node(e[0]).get_attr('potential')
@@ -2718,7 +2719,8 @@ After installation, ensure that the PATH variable is properly set.''')
         elif pivot=='first_eligible':
             # pick the first eligible
             for e in self.edge_attr:
-                if e in t.edge_attr:
+                # an arc without capacity can never carry flow
+                if e in t.edge_attr or self.edge_attr[e]['capacity'] == 0:
                     continue
                 flow_ij = self.edge_attr[e]['flow']
                 potential_i = self.get_node(e[0]).get_attr('potential')
@@ -2754,7 +2756,8 @@ After installation, ensure that the PATH variable is properly set.''')
             conditions are satisfied), else returns False
         '''
         for e in self.edge_attr:
-            if e in t.edge_attr:
+            # an arc without capacity can never carry flow
+            if e in t.edge_attr or self.edge_attr[e]['capacity'] == 0:
                 continue
             flow_ij = self.edge_attr[e]['flow']
             potential_i = self.get_node(e[0]).get_attr('potential')
-- 
2.43.0


From 8f4f9f3c29856dca4a55f7497cd806a77b1c97b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 16/47] fix: get_negative_cycle failed on a graph without nodes

cycle_canceling asks for one when no arc of the network has residual
capacity.
---
 src/gimpy/graph.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index a028936..d5da746 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2069,8 +2069,6 @@ After installation, ensure that the PATH variable is properly set.''')
             Returns a list of nodes in the cycle if a negative cycle exists,
             returns None otherwise.
         '''
-        nl = self.get_node_list()
-        i = nl[0]
         (valid, distance, nextn) = self.floyd_warshall()
         if not valid:
             cycle = self.floyd_warshall_get_cycle(distance, nextn)
-- 
2.43.0


From 63ce212d004b9bd78048c996d2270b87cca22bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 17/47] fix: a rejected add_left_child/add_right_child changed
 the parent

When the node name was already taken the exception came after the parent's
child pointer had been set to the existing node.
---
 src/gimpy/tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 2be6250..6e87dc2 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -225,8 +225,8 @@ class BinaryTree(Tree):
             msg = "Right child already exists for node " + str(parent)
             raise Exception(msg)
         attrs['direction'] = 'R'
-        self.set_node_attr(parent, 'Rchild', n)
         self.add_child(n, parent, **attrs)
+        self.set_node_attr(parent, 'Rchild', n)
 
     def add_left_child(self, n, parent, **attrs):
         '''
@@ -244,8 +244,8 @@ class BinaryTree(Tree):
             msg = "Right child already exists for node " + str(parent)
             raise Exception(msg)
         attrs['direction'] = 'L'
-        self.set_node_attr(parent, 'Lchild', n)
         self.add_child(n, parent, **attrs)
+        self.set_node_attr(parent, 'Lchild', n)
 
     def get_right_child(self, n):
         '''
-- 
2.43.0


From 5b7df554716d10edaddb5f731f6b6f5a7c210506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 18/47] fix: BinaryTree.del_node of the root looked up its
 missing parent

---
 src/gimpy/tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 6e87dc2..0856ee8 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -292,7 +292,9 @@ class BinaryTree(Tree):
             n: Node name.
         '''
         parent = self.get_node_attr(n, 'parent')
-        if self.get_node_attr(n, 'direction') == 'R':
+        if parent is None:
+            self.root = None
+        elif self.get_node_attr(n, 'direction') == 'R':
             self.set_node_attr(parent, 'Rchild', None)
         else:
             self.set_node_attr(parent, 'Lchild', None)
-- 
2.43.0


From b7989c380def7f14a2372b9eb59f407de50a597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 19/47] fix: printexp and postordereval on children named 0 and
 zero operands

A child with a falsy name was not visited, and an operation with an
operand of value zero tried to convert its operator to an integer.
---
 src/gimpy/tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 0856ee8..bd80ccf 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -442,7 +442,7 @@ class BinaryTree(Tree):
             root = self.root
         if display == None:
             display = self.attr['display']
-        if self.get_left_child(root):
+        if self.get_left_child(root) is not None:
             if display:
                 self.display(highlight = [root])
             print('(', end=' ')
@@ -461,7 +461,7 @@ class BinaryTree(Tree):
         sys.stdout.flush()
         if display:
                 self.display(highlight = [root])
-        if self.get_right_child(root):
+        if self.get_right_child(root) is not None:
             self.printexp(display, self.get_right_child(root))
             print(')', end=' ')
             sys.stdout.flush()
@@ -477,7 +477,7 @@ class BinaryTree(Tree):
                  '/':operator.truediv}
         res1 = None
         res2 = None
-        if self.get_left_child(root):
+        if self.get_left_child(root) is not None:
             if display:
                 self.display(highlight = [root])
             res1 = self.postordereval(display, self.get_left_child(root))
@@ -494,9 +494,9 @@ class BinaryTree(Tree):
         sys.stdout.flush()
         if display:
                 self.display(highlight = [root])
-        if self.get_right_child(root):
+        if self.get_right_child(root) is not None:
             res2 = self.postordereval(display, self.get_right_child(root))
-        if res1 and res2:
+        if res1 is not None and res2 is not None:
             result = opers[root_label](res1 , res2)
             print('=', result)
             sys.stdout.flush()
-- 
2.43.0


From a439a89decab2877e960f47330b82e7fa33ff8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 20/47] fix: quote DOT identifiers with commas, colons or stray
 quotes, and empty ones

Values such as 'a,b', '1,2', 'x:y' or '12:30', text that merely begins and
ends with a quotation mark, a trailing newline after an identifier, and
the empty string were written without quotes, which Graphviz rejects or
reads as something else.
---
 src/gimpy/global_constants.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/gimpy/global_constants.py b/src/gimpy/global_constants.py
index 316819c..3928afa 100644
--- a/src/gimpy/global_constants.py
+++ b/src/gimpy/global_constants.py
@@ -120,11 +120,9 @@ DOT2TEX_TEMPLATE = r'''
 
 # following globals and two methods are from pydot
 DOT_KEYWORDS = ['graph', 'subgraph', 'digraph', 'node', 'edge', 'strict']
-ID_RE_ALPHA_NUMS = re.compile('^[_a-zA-Z][a-zA-Z0-9_,]*$', re.UNICODE)
-ID_RE_ALPHA_NUMS_WITH_PORTS = re.compile('^[_a-zA-Z][a-zA-Z0-9_,:\"]*[a-zA-Z0-9_,\"]+$', re.UNICODE)
-ID_RE_NUM = re.compile('^[0-9,]+$', re.UNICODE)
-ID_RE_WITH_PORT = re.compile('^([^:]*):([^:]*)$', re.UNICODE)
-ID_RE_DBL_QUOTED = re.compile('^\".*\"$', re.S|re.UNICODE)
+ID_RE_ALPHA_NUMS = re.compile('^[_a-zA-Z][a-zA-Z0-9_]*\\Z', re.UNICODE)
+ID_RE_NUM = re.compile('^[0-9]+\\Z', re.UNICODE)
+ID_RE_DBL_QUOTED = re.compile(r'^"([^"\\]|\\.)*"\Z', re.S|re.UNICODE)
 ID_RE_HTML = re.compile('^<.*>$', re.S|re.UNICODE)
 
 def quote_if_necessary(s):
@@ -135,7 +133,7 @@ def quote_if_necessary(s):
     if not isinstance(s, basestring):
         return s
     if not s:
-        return s
+        return '""'
     if needs_quotes(s):
         replace = {'"'  : r'\"',
                    "\n" : r'\n',
@@ -165,10 +163,7 @@ def needs_quotes(s):
     chars = [ord(c) for c in s if ord(c)>0x7f or ord(c)==0]
     if chars and not ID_RE_DBL_QUOTED.match(s) and not ID_RE_HTML.match(s):
         return True
-    for test_re in [ID_RE_ALPHA_NUMS, ID_RE_NUM, ID_RE_DBL_QUOTED, ID_RE_HTML, ID_RE_ALPHA_NUMS_WITH_PORTS]:
+    for test_re in [ID_RE_ALPHA_NUMS, ID_RE_NUM, ID_RE_DBL_QUOTED, ID_RE_HTML]:
         if test_re.match(s):
             return False
-    m = ID_RE_WITH_PORT.match(s)
-    if m:
-        return needs_quotes(m.group(1)) or needs_quotes(m.group(2))
     return True
-- 
2.43.0


From a79cab91dbb9b9278e4adcab7bdd7ea9758886c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 21/47] fix: quote graph names, cluster names and cluster
 attributes in DOT output

They were written raw, so a name or value with a space broke the output
and a numeric value raised TypeError.
---
 src/gimpy/graph.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index d5da746..0aeaf29 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -635,7 +635,8 @@ class Graph(object):
         '''
         graph = list()
         processed_edges = {}
-        graph.append('%s %s {\n' %(self.graph_type, self.name))
+        graph.append('%s %s {\n' %(self.graph_type,
+                                   quote_if_necessary(str(self.name))))
         for a in self.attr:
             if a not in GRAPH_ATTRIBUTES:
                 continue
@@ -647,16 +648,13 @@ class Graph(object):
             graph.append( ';\n' )
         # clusters
         for c in self.cluster:
-            graph.append('subgraph cluster_%s {\n' %c)
+            graph.append('subgraph %s {\n' %quote_if_necessary('cluster_%s' %c))
             for a in self.cluster[c]['attrs']:
-                if a=='label':
-                    graph.append(a+'='+quote_if_necessary(self.cluster[c]['attrs'][a])+';\n')
-                    continue
-                graph.append(a+'='+self.cluster[c]['attrs'][a]+';\n')
+                graph.append(a+'='+quote_if_necessary(str(self.cluster[c]['attrs'][a]))+';\n')
             if len(self.cluster[c]['node_attrs'])!=0:
                 graph.append('node [')
             for a in self.cluster[c]['node_attrs']:
-                graph.append(a+'='+self.cluster[c]['node_attrs'][a])
+                graph.append(a+'='+quote_if_necessary(str(self.cluster[c]['node_attrs'][a])))
                 graph.append(',')
             if len(self.cluster[c]['node_attrs'])!=0:
                 graph.pop()
-- 
2.43.0


From 782b964ade5b43c92a37b0a146eb41b707248c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:49 +0000
Subject: [PATCH 22/47] fix: random() without labels or without a length range

The else branch belonged to the wrong if: add_labels=False tried to add
each edge twice and raised MultipleEdgeException, and length_range=None
added no edge at all.
---
 src/gimpy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 0aeaf29..228cfdb 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3234,8 +3234,8 @@ After installation, ensure that the PATH variable is properly set.''')
                                 self.add_edge(m, n, cost = length, **edge_format)
                                 if add_labels:
                                     self.set_edge_attr(m, n, 'label', str(length))
-                                else:
-                                    self.add_edge(m, n, **edge_format)
+                            else:
+                                self.add_edge(m, n, **edge_format)
                         i += 1
             elif density != None:
                 for m in range(numnodes):
-- 
2.43.0


From 1b30d21963c1e3c11f03f73963ac77e160118fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:01 +0000
Subject: [PATCH 23/47] fix: Euclidean random() with node_selection 'random',
 or few nodes

'random' measured the length to an undefined neighbour n; 'closest'
indexed past the end of the node list when the degree reached the number
of nodes.
---
 src/gimpy/graph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 228cfdb..42000d1 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3274,6 +3274,8 @@ After installation, ensure that the PATH variable is properly set.''')
                     neighbors = []
                     if node_selection == 'random':
                         while i < degree:
+                            n = random.randint(0, numnodes-1)
+                            i += 1
                             length = round((((self.get_node(n).get_attr('locationx') -
                                               self.get_node(m).get_attr('locationx')) ** 2 +
                                              (self.get_node(n).get_attr('locationy') -
@@ -3281,11 +3283,10 @@ After installation, ensure that the PATH variable is properly set.''')
                                            0)
                             if (((m,n) not in self.edge_attr and m != n) and
                                 (parallel_allowed or (n, m) not in self.edge_attr)):
-                                neighbors.append(random.randint(0, numnodes-1))
+                                neighbors.append(n)
                                 self.add_edge(m, n, cost = int(length), **edge_format)
                                 if add_labels:
                                     self.set_edge_attr(m, n, 'label', str(int(length)))
-                                i += 1
                     elif node_selection == 'closest':
                         lengths = []
                         for n in range(numnodes):
@@ -3295,7 +3296,7 @@ After installation, ensure that the PATH variable is properly set.''')
                                                         self.get_node(m).get_attr('locationy')) ** 2) ** 0.5)*scale_cost,
                                                      0)))
                         lengths.sort(key = lambda l : l[1])
-                        for i in range(degree+1):
+                        for i in range(min(degree+1, numnodes)):
                             if not (lengths[i][0] == m or self.check_edge(m, lengths[i][0])):
                                 self.add_edge(m, lengths[i][0], cost = int(lengths[i][1]), **edge_format)
                                 if add_labels:
-- 
2.43.0


From 1cb1ffd03ebf46c185a2704b18b09dae3b9529e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 24/47] fix: temporary files left behind when rendering fails

create() removed its temporary file only after Graphviz succeeded, and the
PIL and matplotlib display modes only after the image had been shown.
---
 src/gimpy/graph.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 42000d1..454df05 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1733,12 +1733,11 @@ Graphviz must be installed and in your search path.
 Please visit http://www.graphviz.org/ for information on installation.
 After installation, ensure that the PATH variable is properly set.''')
             return None
+        finally:
+            os.remove(tmp_name)
 
-        
         p.check_returncode()
 
-        os.remove(tmp_name)
-            
         if p.stderr:
             print(p.stderr)
         return p.stdout
@@ -1820,11 +1819,14 @@ After installation, ensure that the PATH variable is properly set.''')
             if PIL_INSTALLED:
                 tmp_fd, tmp_name = tempfile.mkstemp()
                 tmp_file = os.fdopen(tmp_fd, 'w+b')
-                self.write(tmp_file, self.get_layout(), format)
-                tmp_file.close()
-                im = PIL_Image.open(tmp_name)
-                im.show()
-                os.remove(tmp_name)
+                try:
+                    self.write(tmp_file, self.get_layout(), format)
+                    tmp_file.close()
+                    im = PIL_Image.open(tmp_name)
+                    im.show()
+                finally:
+                    tmp_file.close()
+                    os.remove(tmp_name)
             else:
                 print('Error: PIL not installed. Display disabled.')
                 self.attr['display'] = 'off'
@@ -1832,9 +1834,14 @@ After installation, ensure that the PATH variable is properly set.''')
             if MATPLOTLIB_INSTALLED and PIL_INSTALLED:
                 tmp_fd, tmp_name = tempfile.mkstemp()
                 tmp_file = os.fdopen(tmp_fd, 'w+b')
-                self.write(tmp_file, self.get_layout(), format)
-                tmp_file.close()
-                im = PIL_Image.open(tmp_name)
+                try:
+                    self.write(tmp_file, self.get_layout(), format)
+                    tmp_file.close()
+                    im = PIL_Image.open(tmp_name)
+                    im.load()
+                finally:
+                    tmp_file.close()
+                    os.remove(tmp_name)
                 fig = plt.figure(1)
                 fig.canvas.mpl_connect('close_event', handle_close)
                 plt.clf()
@@ -1853,7 +1860,6 @@ After installation, ensure that the PATH variable is properly set.''')
                 else:
                     plt.show(block=pause)
                 im.close()
-                os.remove(tmp_name)
             else:
                 print('Warning: Either matplotlib or Pillow is not installed. Display disabled.')
                 self.attr['display'] = 'off'
-- 
2.43.0


From 09a34c246248464ea39d56fccac84a8053caf40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 25/47] fix: search made a node with a loop its own predecessor

The path is read off the predecessors, so a search on a graph with a loop
never ended, or returned a predecessor tree that contains a cycle.
---
 src/gimpy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 454df05..0b0381e 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1062,7 +1062,7 @@ class Graph(object):
                 break
             self.display()
             for n in neighbors[current]:
-                if self.get_node(n).get_attr('color') != 'green':
+                if n != current and self.get_node(n).get_attr('color') != 'green':
                     if reverse:
                         self.set_edge_attr(n, current, 'color', 'yellow')
                     else:
-- 
2.43.0


From 63c34c686fbe74f24782ae3f9aa96807ccded783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 26/47] fix: reverse search with Dijkstra or Prim looked costs
 up forwards

search(reverse=True) walks arcs backwards, but the cost was read from
(current, neighbor), an arc that need not exist or that has another cost.
---
 src/gimpy/graph.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 0b0381e..71facef 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1069,7 +1069,7 @@ class Graph(object):
                         self.set_edge_attr(current, n, 'color', 'yellow')
                     self.display()
                     self.process_edge_search(current, n, pred, q, component,
-                                             algo, **kargs)
+                                             algo, reverse = reverse, **kargs)
                     if reverse:
                         self.set_edge_attr(n, current, 'color', 'black')
                     else:
@@ -1105,7 +1105,8 @@ class Graph(object):
         if isinstance(q, PriorityQueue):
             self.get_node(node).set_attr('priority', q.get_priority(node))
 
-    def process_edge_dijkstra(self, current, neighbor, pred, q, component):
+    def process_edge_dijkstra(self, current, neighbor, pred, q, component,
+                              reverse = False):
         '''
         API: process_edge_dijkstra(self, current, neighbor, pred, q, component)
         Description:
@@ -1128,8 +1129,8 @@ class Graph(object):
             self.display()
             self.get_node(neighbor).set_attr('color', 'black')
             return
-        new_estimate = (q.get_priority(current) +
-                        self.get_edge_attr(current, neighbor, 'cost'))
+        edge = (neighbor, current) if reverse else (current, neighbor)
+        new_estimate = q.get_priority(current) + self.get_edge_cost(edge)
         if neighbor not in pred or new_estimate < q.get_priority(neighbor):
             pred[neighbor] = current
             self.get_node(neighbor).set_attr('color', 'red')
@@ -1138,7 +1139,8 @@ class Graph(object):
             self.display()
             self.get_node(neighbor).set_attr('color', 'black')
 
-    def process_edge_prim(self, current, neighbor, pred, q, component):
+    def process_edge_prim(self, current, neighbor, pred, q, component,
+                          reverse = False):
         '''
         API: process_edge_prim(self, current, neighbor, pred, q, component)
         Description:
@@ -1161,7 +1163,8 @@ class Graph(object):
             self.display()
             self.get_node(neighbor).set_attr('color', 'black')
             return
-        new_estimate = self.get_edge_attr(current, neighbor, 'cost')
+        edge = (neighbor, current) if reverse else (current, neighbor)
+        new_estimate = self.get_edge_cost(edge)
         if not neighbor in pred or new_estimate < q.get_priority(neighbor):
             pred[neighbor] = current
             self.get_node(neighbor).set_attr('color', 'red')
@@ -1171,7 +1174,7 @@ class Graph(object):
             self.get_node(neighbor).set_attr('color', 'black')
 
     def process_edge_search(self, current, neighbor, pred, q, component, algo,
-                            **kargs):
+                            reverse = False, **kargs):
         '''
         API: process_edge_search(self, current, neighbor, pred, q, component,
                                  algo, **kargs)
@@ -1192,10 +1195,10 @@ class Graph(object):
         '''
         if algo == 'Dijkstra':
             return self.process_edge_dijkstra(current, neighbor, pred, q,
-                                              component)
+                                              component, reverse)
         if algo == 'Prim':
             return self.process_edge_prim(current, neighbor, pred, q,
-                                          component)
+                                          component, reverse)
         neighbor_node = self.get_node(neighbor)
         if current == None:
             neighbor_node.set_attr('distance', 0)
-- 
2.43.0


From e94bae82d209b57585967c7c217c700ffea2e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 27/47] fix: acyclic_shortest_path needed a source that reaches
 every node

It indexed the order by the number of all nodes although the search lists
only those reachable, gave distance 0 only to nodes without incoming arcs,
and a repeated call searched nothing because nodes kept their disc_time.
---
 src/gimpy/graph.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 71facef..1f547fa 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -941,18 +941,17 @@ class Graph(object):
         self.search(root, display = display, component = component, q = Queue())
 
     def acyclic_shortest_path(G, source, destination = None):
-        dist = {}
+        dist = {source: 0}
         pred = {}
         order = []
         found = False
+        for n in G.get_node_list():
+            G.set_node_attr(n, 'disc_time', None)
         G.dfs(source, topological_order = order)
-        for j in range(len(G.get_node_list())):
-            m = order[j]
+        for m in order:
             if m == destination:
                 found = True
                 break
-            if len(G.get_in_neighbors(m)) == 0: 
-                dist[m] = 0
             for n in G.get_out_neighbors(m):
                 estimate = dist[m] + G.get_edge_attr(m ,n, "cost")
                 if n not in dist or dist[n] > estimate:
-- 
2.43.0


From 0f9d61cc067c6be616aecb9c628e2525d9cfa23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:29 +0000
Subject: [PATCH 28/47] fix: the display argument of an algorithm changed the
 graph's display mode

The documentation promises that passing display to an algorithm does not
change the global display setting of the graph. max_flow and the binary
tree methods restore it; search, dfs, hamiltonian, both spanning tree
algorithms, preflow-push and network simplex did not.
---
 src/gimpy/graph.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 1f547fa..c383e98 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -823,9 +823,11 @@ class Graph(object):
         '''
         if pred == None:
             pred = {}
+        old_display = None
         if display == None:
             display = self.attr['display']
         else:
+            old_display = self.attr['display']
             self.set_display_mode(display)
         neighbors = self.neighbors
         if self.graph_type == DIRECTED_GRAPH and transpose:
@@ -870,6 +872,8 @@ class Graph(object):
         self.get_node(root).set_attr('color', 'green')
         self.display()
         finish_count += 1
+        if old_display is not None:
+            self.set_display_mode(old_display)
         return disc_count, finish_count
 
     def hamiltonian(self, source, destination = None, distance = 0,
@@ -890,9 +894,11 @@ class Graph(object):
         '''
         if pred == None:
             pred = {}
+        old_display = None
         if display == None:
             display = self.attr['display']
         else:
+            old_display = self.attr['display']
             self.set_display_mode(display)
 
         if (distance == 0):
@@ -903,6 +909,8 @@ class Graph(object):
 
         if distance == self.get_node_num() - 1:
             if destination == None or source == destination:
+                if old_display is not None:
+                    self.set_display_mode(old_display)
                 return True
 
         self.get_node(source).set_attr('visited', True)
@@ -916,6 +924,8 @@ class Graph(object):
                 pred[i] = source
                 if (self.hamiltonian(i, destination, distance+1, display = display, 
                             pred = pred)):
+                    if old_display is not None:
+                        self.set_display_mode(old_display)
                     return True
         if source in pred: # this is the original source node
             self.get_node(source).set_attr('color', 'black')            
@@ -923,6 +933,8 @@ class Graph(object):
             self.display()
             self.get_node(source).set_attr('visited', None)
             self.get_node(source).set_attr('label', '-')
+        if old_display is not None:
+            self.set_display_mode(old_display)
         return False
 
     def bfs(self, root, display = None, component = None):
@@ -1006,9 +1018,11 @@ class Graph(object):
             If there is no path returns predecessor tree in dictionary form.
             See description section.
         '''
+        old_display = None
         if display == None:
             display = self.attr['display']
         else:
+            old_display = self.attr['display']
             self.set_display_mode(display)
         if algo == 'DFS':
             if q is None:
@@ -1023,6 +1037,8 @@ class Graph(object):
                 q = PriorityQueue()
         else:
             print("Unknown search algorithm...exiting")
+            if old_display is not None:
+                self.set_display_mode(old_display)
             return
         neighbors = self.neighbors
         if self.graph_type == DIRECTED_GRAPH and reverse:
@@ -1076,6 +1092,8 @@ class Graph(object):
             q.remove(current)
             self.get_node(current).set_attr('color', 'green')
             self.display()
+        if old_display is not None:
+            self.set_display_mode(old_display)
         if found:
             path = [destination]
             current = destination
@@ -1257,9 +1275,11 @@ class Graph(object):
         Return:
             Returns predecessor tree in dictionary format.
         '''
+        old_display = None
         if display == None:
             display = self.attr['display']
         else:
+            old_display = self.attr['display']
             self.set_display_mode(display)
         if q is None:
             q = PriorityQueue()
@@ -1296,6 +1316,8 @@ class Graph(object):
                     self.set_edge_attr(current, n, 'color', 'black')
             self.set_node_attr(current, 'color', 'green')
             self.display()
+        if old_display is not None:
+            self.set_display_mode(old_display)
         return pred
 
     def minimum_spanning_tree_kruskal(self, display = None, components = None):
@@ -1313,9 +1335,11 @@ class Graph(object):
             Returns list of edges where edges are tuples in (source,sink)
             format.
         '''
+        old_display = None
         if display == None:
             display = self.attr['display']
         else:
+            old_display = self.attr['display']
             self.set_display_mode(display)
         if components is None:
             components = DisjointSet(display = display, layout = 'dot',
@@ -1338,6 +1362,8 @@ class Graph(object):
                 self.set_edge_attr(e[0], e[1], 'color', 'black')
                 self.display()
             components.display()
+        if old_display is not None:
+            self.set_display_mode(old_display)
         return edges
 
     def max_flow_preflowpush(self, source, sink, algo = 'FIFO', display = None):
@@ -1359,9 +1385,11 @@ class Graph(object):
         Post:
             The 'flow' attribute of each arc gives a maximum flow.
         '''
+        old_display = None
         if display == None:
             display = self.attr['display']
         else:
+            old_display = self.attr['display']
             self.set_display_mode(display)
         nl = self.get_node_list()
         # set excess of all nodes to 0
@@ -1447,6 +1475,8 @@ class Graph(object):
                     q.push(n)
                 elif algo == 'HighestLabel':
                     q.push(n, -self.get_node_attr(n, 'distance'))
+        if old_display is not None:
+            self.set_display_mode(old_display)
 
     def process_edge_flow(self, source, sink, i, j, algo, q):
         '''
@@ -2400,6 +2430,7 @@ After installation, ensure that the PATH variable is properly set.''')
         if not self.find_feasible_flow():
             return False
         t = self.simplex_find_tree()
+        old_display = self.attr['display']
         self.set_display_mode(display)
         # mark spanning tree arcs
         self.simplex_mark_st_arcs(t)
@@ -2435,6 +2466,7 @@ After installation, ensure that the PATH variable is properly set.''')
             t.simplex_search(root, 1)
             # compute potentials
             self.simplex_compute_potentials(t, root)
+        self.set_display_mode(old_display)
         return True
 
     def simplex_mark_leaving_arc(self, p, q):
-- 
2.43.0


From 503ffdd089ba3fd1a32f4722bf72f7e8846686b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:29 +0000
Subject: [PATCH 29/47] fix: bfs ran the depth-first edge rule on a queue

Nodes already waiting in the queue were pushed again and had their
distance overwritten, so 'distance' was not the breadth-first distance.
---
 src/gimpy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index c383e98..25ea910 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -950,7 +950,7 @@ class Graph(object):
             Nodes will have 'component' attribute that will have component
             number as value.
         '''
-        self.search(root, display = display, component = component, q = Queue())
+        self.search(root, display = display, component = component, algo = 'BFS')
 
     def acyclic_shortest_path(G, source, destination = None):
         dist = {source: 0}
-- 
2.43.0


From acff58f2e16a97dfbf60b40fa97549cd979ad2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:57 +0000
Subject: [PATCH 30/47] fix: Tree.traverse, printexp and postordereval ignored
 their display argument

---
 src/gimpy/tree.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index bd80ccf..ed429e0 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -158,12 +158,16 @@ class Tree(Graph):
             q: Queue data structure instance. It is either a Stack() or
             Queue().
         '''
+        old_display = None
         if root == None:
             root = self.root.name
         if q is None:
             q = Stack()
         if display == None:
             display = self.attr['display']
+        else:
+            old_display = self.attr['display']
+            self.attr['display'] = display
         if isinstance(q, Queue):
             addToQ = q.enqueue
             removeFromQ = q.dequeue
@@ -178,6 +182,8 @@ class Tree(Graph):
                 self.display(highlight = [current])
             for n in self.get_children(current):
                 addToQ(n)
+        if old_display:
+            self.attr['display'] = old_display
 
 
 class BinaryTree(Tree):
@@ -438,10 +444,14 @@ class BinaryTree(Tree):
             self.attr['display'] = old_display
 
     def printexp(self, display = None, root = None):
+        old_display = None
         if root == None:
             root = self.root
         if display == None:
             display = self.attr['display']
+        else:
+            old_display = self.attr['display']
+            self.attr['display'] = display
         if self.get_left_child(root) is not None:
             if display:
                 self.display(highlight = [root])
@@ -467,12 +477,18 @@ class BinaryTree(Tree):
             sys.stdout.flush()
             if display:
                 self.display(highlight = [root])
+        if old_display:
+            self.attr['display'] = old_display
 
     def postordereval(self, display = None, root = None):
+        old_display = None
         if root == None:
             root = self.root
         if display == None:
             display = self.attr['display']
+        else:
+            old_display = self.attr['display']
+            self.attr['display'] = display
         opers = {'+':operator.add, '-':operator.sub, '*':operator.mul,
                  '/':operator.truediv}
         res1 = None
@@ -504,9 +520,11 @@ class BinaryTree(Tree):
                 self.display(highlight = [root])
             print(result, end=' ')
             sys.stdout.flush()
-            return result
         else:
-            return int(root_label) 
+            result = int(root_label) 
+        if old_display:
+            self.attr['display'] = old_display
+        return result
 
 if __name__ == '__main__':
 
-- 
2.43.0


From e485381fc2bd1c3c65b27e6c135d37060a2ad4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:19 +0000
Subject: [PATCH 31/47] fix: random() with node_selection 'closest' could
 exceed the degree range

---
 src/gimpy/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 25ea910..4eafd2e 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3330,14 +3330,16 @@ After installation, ensure that the PATH variable is properly set.''')
                     elif node_selection == 'closest':
                         lengths = []
                         for n in range(numnodes):
+                            if n == m:
+                                continue
                             lengths.append((n, round((((self.get_node(n).get_attr('locationx') -
                                                         self.get_node(m).get_attr('locationx')) ** 2 +
                                                        (self.get_node(n).get_attr('locationy') -
                                                         self.get_node(m).get_attr('locationy')) ** 2) ** 0.5)*scale_cost,
                                                      0)))
                         lengths.sort(key = lambda l : l[1])
-                        for i in range(min(degree+1, numnodes)):
-                            if not (lengths[i][0] == m or self.check_edge(m, lengths[i][0])):
+                        for i in range(min(degree, numnodes-1)):
+                            if not self.check_edge(m, lengths[i][0]):
                                 self.add_edge(m, lengths[i][0], cost = int(lengths[i][1]), **edge_format)
                                 if add_labels:
                                     self.set_edge_attr(m, lengths[i][0], 'label', str(int(lengths[i][1])))
-- 
2.43.0


From edb332e6b2ddfe1b9652bc03fd2f7f7a07ee2e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 32/47] fix: float graph attributes were not quoted in DOT
 output

---
 src/gimpy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 4eafd2e..bcc42c6 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -642,7 +642,7 @@ class Graph(object):
                 continue
             val = self.attr[a]
             if val is not None:
-                graph.append( '%s=%s' % (a, quote_if_necessary(val)) )
+                graph.append( '%s=%s' % (a, quote_if_necessary(str(val))) )
             else:
                 graph.append(a)
             graph.append( ';\n' )
-- 
2.43.0


From a052a04ec48fe93dd79cdcd84013020be6c2f078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:53 +0000
Subject: [PATCH 33/47] fix: search() with algo 'DFS' and a PriorityQueue
 raised TypeError

The branch recorded only 'depth' but computes priorities from 'distance'.
---
 src/gimpy/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index bcc42c6..4d28dfb 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1242,6 +1242,7 @@ class Graph(object):
                 neighbor_node.set_attr('distance', priority)
             if algo == 'DFS':
                 neighbor_node.set_attr('depth', -priority)
+                neighbor_node.set_attr('distance', -priority)
         else:
             distance = self.get_node(current).get_attr('distance') + 1
             if ((algo == 'UnweightedSPT' or algo == 'BFS') and
-- 
2.43.0


From c0aef42aa5bccbff04003434367c74070a1ea22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 34/47] fix: label_components() left only the last component
 labelled

Every search reset the 'label' of the nodes of the components found before.
---
 src/gimpy/graph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 4d28dfb..991bb1e 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1045,6 +1045,11 @@ class Graph(object):
             neighbors = self.in_neighbors
         for i in self.get_node_list():
             self.get_node(i).set_attr('label', '-')
+            if (component is not None and
+                self.get_node(i).get_attr('component') is not None):
+                # found by an earlier search that numbered components
+                self.get_node(i).set_attr(
+                    'label', self.get_node(i).get_attr('component'))
             self.get_node(i).attr.pop('priority', None)
             self.get_node(i).set_attr('distance', None)
             self.get_node(i).set_attr('color', 'black')
-- 
2.43.0


From 1b2665737241c98fa5ac6b65e59114221d5b9c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:12 +0000
Subject: [PATCH 35/47] fix: find_feasible_flow left its auxiliary nodes behind
 when it failed

---
 src/gimpy/graph.py | 58 ++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 991bb1e..56e1697 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1669,36 +1669,34 @@ class Graph(object):
         nl = self.get_node_list()
         self.add_node('s')
         self.add_node('t')
-        for i in nl:
-            b_i = self.get_node(i).get_attr('demand')
-            if b_i > 0:
-                # i is a supply node, add (s,i) arc
-                self.add_edge('s', i, capacity=b_i)
-            elif b_i < 0:
-                # i is a demand node, add (i,t) arc
-                self.add_edge(i, 't', capacity=-1*b_i)
-        # solve max flow on this modified graph
-        self.max_flow('s', 't', 'off')
-        # check if all demand is satisfied, i.e. the min cost problem is
-        # feasible or not
-        for i in self.neighbors['s']:
-            flow = self.get_edge_attr('s', i, 'flow')
-            capacity = self.get_edge_attr('s', i, 'capacity')
-            if flow != capacity:
-                self.del_node('s')
-                self.del_node('t')
-                return False
-        for i in self.in_neighbors['t']:
-            flow = self.get_edge_attr(i, 't', 'flow')
-            capacity = self.get_edge_attr(i, 't', 'capacity')
-            if flow != capacity:
-                self.del_node('s')
-                self.del_node('t')
-                return False
-        # remove node 's' and node 't'
-        self.del_node('s')
-        self.del_node('t')
-        return True
+        try:
+            for i in nl:
+                b_i = self.get_node(i).get_attr('demand')
+                if b_i > 0:
+                    # i is a supply node, add (s,i) arc
+                    self.add_edge('s', i, capacity=b_i)
+                elif b_i < 0:
+                    # i is a demand node, add (i,t) arc
+                    self.add_edge(i, 't', capacity=-1*b_i)
+            # solve max flow on this modified graph
+            self.max_flow('s', 't', 'off')
+            # check if all demand is satisfied, i.e. the min cost problem is
+            # feasible or not
+            for i in self.neighbors['s']:
+                flow = self.get_edge_attr('s', i, 'flow')
+                capacity = self.get_edge_attr('s', i, 'capacity')
+                if flow != capacity:
+                    return False
+            for i in self.in_neighbors['t']:
+                flow = self.get_edge_attr(i, 't', 'flow')
+                capacity = self.get_edge_attr(i, 't', 'capacity')
+                if flow != capacity:
+                    return False
+            return True
+        finally:
+            # remove node 's' and node 't'
+            self.del_node('s')
+            self.del_node('t')
 
     def get_layout(self):
         '''
-- 
2.43.0


From f859c6031f1625ed7d0016b89045f012fb3a48ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:40 +0000
Subject: [PATCH 36/47] fix: simplex_find_cycle returned the way to the cycle
 along with it

---
 src/gimpy/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 56e1697..b41db2c 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3020,6 +3020,10 @@ After installation, ensure that the PATH variable is properly set.''')
                         while temp is not None:
                             cycle2.append(temp)
                             temp = pred[temp]
+                        # drop the common way to the root
+                        while cycle1[-2:-1] == cycle2[-2:-1] != []:
+                            cycle1.pop()
+                            cycle2.pop()
                         cycle1.pop()
                         cycle1.reverse()
                         cycle2.extend(cycle1)
-- 
2.43.0


From 9e79f40860644c181e2e61ec177a60f1760c3476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:25 +0000
Subject: [PATCH 37/47] fix: get_neighbors() and its siblings handed out the
 graph's own lists

---
 src/gimpy/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index b41db2c..1149068 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -564,7 +564,7 @@ class Graph(object):
         Return:
             List of neighbor node names.
         '''
-        return self.neighbors[name]
+        return list(self.neighbors[name])
 
     def get_in_neighbors(self, name):
         '''
@@ -578,7 +578,7 @@ class Graph(object):
         Return:
             List of in-neighbor node names.
         '''
-        return self.in_neighbors[name]
+        return list(self.in_neighbors[name])
 
     def get_out_neighbors(self, name):
         '''
@@ -592,7 +592,7 @@ class Graph(object):
         Return:
             List of out-neighbor node names.
         '''
-        return self.neighbors[name]
+        return list(self.neighbors[name])
 
     def edge_to_string(self, e):
         '''
-- 
2.43.0


From 17ed4b22d1b51ea447d5eaf383034ea450a8b798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:25 +0000
Subject: [PATCH 38/47] fix: random() failed for a graph of one node

---
 src/gimpy/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 1149068..6fff2d9 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3272,7 +3272,8 @@ After installation, ensure that the PATH variable is properly set.''')
                 for m in range(numnodes):
                     degree = random.randint(degree_range[0], degree_range[1])
                     i = 0
-                    while i < degree:
+                    # a single node has no other one to be joined to
+                    while i < degree and numnodes > 1:
                         n = random.randint(1, numnodes-1)
                         if (((m,n) not in self.edge_attr and m != n) and
                             (parallel_allowed or (n, m) not in self.edge_attr)):
-- 
2.43.0


From d314c8fefd27e2c279113c2d071dd19e443f482b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:10 +0000
Subject: [PATCH 39/47] fix: find_feasible_flow failed on networks with a node
 named 's' or 't'

---
 src/gimpy/graph.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 6fff2d9..ce3615a 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1667,36 +1667,40 @@ class Graph(object):
         # establish a feasible flow in the network, to do this add nodes s and
         # t and solve a max flow problem.
         nl = self.get_node_list()
-        self.add_node('s')
-        self.add_node('t')
+        s, t = 's', 't'
+        while s in self.nodes or t in self.nodes:
+            # the network has nodes of these names
+            s, t = s + 's', t + 't'
+        self.add_node(s)
+        self.add_node(t)
         try:
             for i in nl:
                 b_i = self.get_node(i).get_attr('demand')
                 if b_i > 0:
                     # i is a supply node, add (s,i) arc
-                    self.add_edge('s', i, capacity=b_i)
+                    self.add_edge(s, i, capacity=b_i)
                 elif b_i < 0:
                     # i is a demand node, add (i,t) arc
-                    self.add_edge(i, 't', capacity=-1*b_i)
+                    self.add_edge(i, t, capacity=-1*b_i)
             # solve max flow on this modified graph
-            self.max_flow('s', 't', 'off')
+            self.max_flow(s, t, 'off')
             # check if all demand is satisfied, i.e. the min cost problem is
             # feasible or not
-            for i in self.neighbors['s']:
-                flow = self.get_edge_attr('s', i, 'flow')
-                capacity = self.get_edge_attr('s', i, 'capacity')
+            for i in self.neighbors[s]:
+                flow = self.get_edge_attr(s, i, 'flow')
+                capacity = self.get_edge_attr(s, i, 'capacity')
                 if flow != capacity:
                     return False
-            for i in self.in_neighbors['t']:
-                flow = self.get_edge_attr(i, 't', 'flow')
-                capacity = self.get_edge_attr(i, 't', 'capacity')
+            for i in self.in_neighbors[t]:
+                flow = self.get_edge_attr(i, t, 'flow')
+                capacity = self.get_edge_attr(i, t, 'capacity')
                 if flow != capacity:
                     return False
             return True
         finally:
-            # remove node 's' and node 't'
-            self.del_node('s')
-            self.del_node('t')
+            # remove node s and node t
+            self.del_node(s)
+            self.del_node(t)
 
     def get_layout(self):
         '''
-- 
2.43.0


From cf8c01babfec15652e54120e12dc734110c0d610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:53 +0000
Subject: [PATCH 40/47] fix: network simplex labels cut off fractions of flow,
 capacity and cost

---
 src/gimpy/graph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index ce3615a..a0bab52 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2659,7 +2659,7 @@ After installation, ensure that the PATH variable is properly set.''')
             new.edge_attr[e]['flow'] = flow
             new.edge_attr[e]['capacity'] = capacity
             new.edge_attr[e]['cost'] = cost
-            new.edge_attr[e]['label'] =  "%d/%d/%d" %(flow,capacity,cost)
+            new.edge_attr[e]['label'] =  "%s/%s/%s" %(flow,capacity,cost)
         return new
 
     def simplex_remove_arc(self, t, p, q, min_capacity, cycle):
@@ -2709,7 +2709,7 @@ After installation, ensure that the PATH variable is properly set.''')
         capacity_pq = self.get_edge_attr(p, q, 'capacity')
         cost_pq = self.get_edge_attr(p, q, 'cost')
         self.set_edge_attr(p, q, 'label',
-                           "%d/%d/%d" %(flow_pq,capacity_pq,cost_pq))
+                           "%s/%s/%s" %(flow_pq,capacity_pq,cost_pq))
         for e in t.edge_attr:
             flow = self.edge_attr[e]['flow']
             capacity = self.edge_attr[e]['capacity']
@@ -2717,8 +2717,8 @@ After installation, ensure that the PATH variable is properly set.''')
             t.edge_attr[e]['flow'] = flow
             t.edge_attr[e]['capacity'] = capacity
             t.edge_attr[e]['cost'] = cost
-            t.edge_attr[e]['label'] = "%d/%d/%d" %(flow,capacity,cost)
-            self.edge_attr[e]['label'] = "%d/%d/%d" %(flow,capacity,cost)
+            t.edge_attr[e]['label'] = "%s/%s/%s" %(flow,capacity,cost)
+            self.edge_attr[e]['label'] = "%s/%s/%s" %(flow,capacity,cost)
 
     def simplex_select_entering_arc(self, t, pivot):
         '''
@@ -2851,12 +2851,12 @@ After installation, ensure that the PATH variable is properly set.''')
             flow = self.edge_attr[e]['flow']
             capacity = self.edge_attr[e]['capacity']
             cost = self.edge_attr[e]['cost']
-            self.edge_attr[e]['label'] = "%d/%d/%d" %(flow,capacity,cost)
+            self.edge_attr[e]['label'] = "%s/%s/%s" %(flow,capacity,cost)
             if e in solution_g.edge_attr:
                 solution_g.edge_attr[e]['flow'] = flow
                 solution_g.edge_attr[e]['capacity'] = capacity
                 solution_g.edge_attr[e]['cost'] = cost
-                solution_g.edge_attr[e]['label'] = "%d/%d/%d" %(flow,capacity,cost)
+                solution_g.edge_attr[e]['label'] = "%s/%s/%s" %(flow,capacity,cost)
         return solution_g
 
     def simplex_connect(self, solution_g):
-- 
2.43.0


From 9feca1f5b27f347943ba1b4abe96ddd5ace4ca38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:53 +0000
Subject: [PATCH 41/47] fix: floyd_warshall and get_negative_cycle went wrong
 on graphs with loops

---
 src/gimpy/graph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index a0bab52..e25f466 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2153,13 +2153,16 @@ After installation, ensure that the PATH variable is properly set.''')
         for i in nl:
             distance[(i,i)] = 0
         for e in el:
-            distance[(e[0],e[1])] = self.get_edge_cost(e)
+            # a loop is a negative cycle or it is on no shortest path
+            if e[0] != e[1] or self.get_edge_cost(e) < 0:
+                distance[(e[0],e[1])] = self.get_edge_cost(e)
         # == end of distance initialization
         # initialize next
         nextn = {}
         for i in nl:
             for j in nl:
-                if i==j or distance[(i,j)]=='infinity':
+                if distance[(i,j)]=='infinity' or (i==j and
+                                                   distance[(i,i)]>=0):
                     nextn[(i,j)] = None
                 else:
                     nextn[(i,j)] = i
-- 
2.43.0


From c2509cb420f7360c035add6cb0f58d13b21d1cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:22 +0000
Subject: [PATCH 42/47] fix: create() left its temporary file behind when the
 graph cannot be written

---
 src/gimpy/graph.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index e25f466..9c79f90 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1761,18 +1761,18 @@ class Graph(object):
             Returns postscript representation of graph.
         '''
         tmp_fd, tmp_name = tempfile.mkstemp()
-        tmp_file = os.fdopen(tmp_fd, 'w')
-        tmp_file.write(self.to_string())
-        tmp_file.close()
         try:
-            p = subprocess.run([layout, '-T'+format, tmp_name],
-                               capture_output = True)
-        except OSError:
-            print('''Graphviz executable not found.
+            with os.fdopen(tmp_fd, 'w') as tmp_file:
+                tmp_file.write(self.to_string())
+            try:
+                p = subprocess.run([layout, '-T'+format, tmp_name],
+                                   capture_output = True)
+            except OSError:
+                print('''Graphviz executable not found.
 Graphviz must be installed and in your search path.
 Please visit http://www.graphviz.org/ for information on installation.
 After installation, ensure that the PATH variable is properly set.''')
-            return None
+                return None
         finally:
             os.remove(tmp_name)
 
-- 
2.43.0


From b8057888a210b1464eebd660b752a671b5fe7b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:22 +0000
Subject: [PATCH 43/47] fix: create() failed on or garbled names outside the
 encoding of the locale

---
 src/gimpy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 9c79f90..9cc3165 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1762,7 +1762,7 @@ class Graph(object):
         '''
         tmp_fd, tmp_name = tempfile.mkstemp()
         try:
-            with os.fdopen(tmp_fd, 'w') as tmp_file:
+            with os.fdopen(tmp_fd, 'w', encoding = 'utf-8') as tmp_file:
                 tmp_file.write(self.to_string())
             try:
                 p = subprocess.run([layout, '-T'+format, tmp_name],
-- 
2.43.0


From 401dfab5ff59f69a303c92b29c4e66ea2a188b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:07 +0000
Subject: [PATCH 44/47] fix: random() seeded and drew from the generator of the
 caller

---
 src/gimpy/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 9cc3165..8a7addb 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -66,7 +66,7 @@ import subprocess # for call()
 import io   # for StringIO()
 import copy       # for deepcopy()
 import sys        # for exit()
-import random     # for seed, random, randint
+from random import Random # for random()
 import tempfile   # for mkstemp()
 import os         # for close()
 import operator   # for itemgetter()
@@ -3260,7 +3260,8 @@ After installation, ensure that the PATH variable is properly set.''')
         Post:
             Graph will be populated by nodes and edges.
         '''
-        random.seed(seedInput)
+        # a generator of its own, the one of the module belongs to the caller
+        random = Random(seedInput)
         if edge_format == None:
             edge_format = {'fontsize':10,
                            'fontcolor':'blue'}
-- 
2.43.0


From e4a5c319063876583f3173b0a985b6ba08a5ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:55 +0000
Subject: [PATCH 45/47] fix: display with layout dot2tex made pdf when ps was
 asked for

---
 src/gimpy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 8a7addb..02425a2 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1824,7 +1824,7 @@ After installation, ensure that the PATH variable is properly set.''')
             if self.get_layout() == 'dot2tex':
                 try:
                     if DOT2TEX_INSTALLED:
-                        if format != 'pdf' or format != 'ps':
+                        if format != 'pdf' and format != 'ps':
                             print("Dot2tex only supports pdf and ps formats, falling back to pdf")
                             format = 'pdf'
                         self.set_layout('dot')
-- 
2.43.0


From c05a3dc70846b2ace4cd29990cb9cc8448429fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:55 +0000
Subject: [PATCH 46/47] fix: layout dot2tex was lost, or NameError raised, when
 dot2tex or latex fail

---
 src/gimpy/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 02425a2..1ee123d 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1822,6 +1822,7 @@ After installation, ensure that the PATH variable is properly set.''')
                 print("         Automatically changing setting")
         if self.attr['display'] == 'file':
             if self.get_layout() == 'dot2tex':
+                tex = None
                 try:
                     if DOT2TEX_INSTALLED:
                         if format != 'pdf' and format != 'ps':
@@ -1840,6 +1841,9 @@ After installation, ensure that the PATH variable is properly set.''')
                                                  basename + '.dot'])
                     except:
                         print("There was an error running dot2tex.")
+                self.set_layout('dot2tex')
+                if tex is None:
+                    return
                 with open(basename+'.tex', 'w') as f:
                     f.write(tex)
                 try: 
@@ -1848,7 +1852,6 @@ After installation, ensure that the PATH variable is properly set.''')
                         subprocess.call(['dvips', basename])
                     elif format == 'pdf':
                         subprocess.call(['pdflatex', basename])
-                    self.set_layout('dot2tex')
                 except:
                     print("There was an error runing latex. Is it installed?")
             else:
-- 
2.43.0


From 22aab0120d590ec6681ea5d0011f2294c76eddc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:55 +0000
Subject: [PATCH 47/47] fix: display with layout dot2tex failed on names
 outside the encoding of the locale

---
 src/gimpy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 1ee123d..fc11810 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1844,7 +1844,7 @@ After installation, ensure that the PATH variable is properly set.''')
                 self.set_layout('dot2tex')
                 if tex is None:
                     return
-                with open(basename+'.tex', 'w') as f:
+                with open(basename+'.tex', 'w', encoding = 'utf-8') as f:
                     f.write(tex)
                 try: 
                     subprocess.call(['latex', basename])
-- 
2.43.0

