From fc5b1547fc6b386ec1894e7eb5b6b3063872c8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:49 +0000
Subject: [PATCH 01/13] fix: removing a node with several parents skipped every
 second parent

_remove_node iterated over node.parents while _destroy_relationship removed
the entries, so some former parents kept the removed node among their children.
---
 liblarch/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index f2b3548..974998c 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -235,7 +235,7 @@ class MainTree(object):
         node = self.nodes[node_id]
 
         # Handle parents
-        for parent_id in node.parents:
+        for parent_id in list(node.parents):
             self._destroy_relationship(parent_id, node_id)
             self._callback('node-modified', parent_id)
 
-- 
2.43.0


From 9efe6879612862569f170463db7bebc542a9ee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:49 +0000
Subject: [PATCH 02/13] fix: set_parent left some of the other parents in place

The loop removed entries of self.parents while iterating over it, so a node
with several parents kept every second one after being moved.
---
 liblarch/treenode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index cc26dcd..6069f0e 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -102,7 +102,7 @@ class _Node(object):
                 par = self.tree.get_node(parent_id)
                 if par.has_children_enabled():
                     # First we remove all the other parents
-                    for node_id in self.parents:
+                    for node_id in list(self.parents):
                         if node_id != parent_id:
                             self.remove_parent(node_id)
                         else:
-- 
2.43.0


From 4d4eff66c5624c7ab75082cd9be8ba9698298538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:49 +0000
Subject: [PATCH 03/13] fix: adding a node with a circular parent left it half
 inserted

The refusal was raised after the node entered the tree but before it was
placed at the top level and announced: it had no parent, was no child of the
root, and no view or listener learned about it. Finish the insertion without
the refused relation, then raise.
---
 liblarch/tree.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 974998c..8d70ca9 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -196,12 +196,13 @@ class MainTree(object):
                 self.pending_relationships.remove((rel_parent_id, rel_child_id))
 
         # Build relationship with given parent
+        circular = False
         if parent_id is not None:
-            if self._is_circular_relation(parent_id, node_id):
-                raise Exception(
-                    'Creating circular relationship between {} and {}'.format(
-                        parent_id, node_id))
-            if parent_id in self.nodes:
+            circular = self._is_circular_relation(parent_id, node_id)
+            if circular:
+                # The node stays in the tree, only the relation is refused
+                pass
+            elif parent_id in self.nodes:
                 self._create_relationship(parent_id, node_id)
                 add_to_root = False
                 parents_to_refresh.append(parent_id)
@@ -216,6 +217,11 @@ class MainTree(object):
         # updating the parent and the children is handled by the FT
         self._callback("node-added", node_id)
 
+        if circular:
+            raise Exception(
+                'Creating circular relationship between {} and {}'.format(
+                    parent_id, node_id))
+
     def _remove_node(self, node_id, recursive=False):
         """ Remove node from tree """
 
-- 
2.43.0


From 548f5f7bc20ee3aac5979d3a63072c524ce83118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:49 +0000
Subject: [PATCH 04/13] fix: stale links of a removed node reappeared when it
 was added again

A node keeps its tree after removal, so add_child() on it still recorded a
child; adding the node back then gave it children that did not know it.
Start from no links: every relation is built from the pending ones.
---
 liblarch/tree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 8d70ca9..305fbf6 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -165,6 +165,10 @@ class MainTree(object):
                 self.pending_relationships.append(relationship)
         node.pending_relationships = []
 
+        # A node removed from a tree may have collected links meanwhile
+        node.parents = []
+        node.children = []
+
         self.nodes[node_id] = node
 
         add_to_root = True
-- 
2.43.0


From 6e6640fc1ae2c9cee197927d59c46e55d698f1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:49 +0000
Subject: [PATCH 05/13] fix: ViewCount.unregister_cllbck always failed with
 AttributeError

The attribute name was misspelled.
---
 liblarch/viewcount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index 6eeb1cb..caabd89 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -69,8 +69,8 @@ class ViewCount(object):
             self.cllbcks.append(func)
 
     def unregister_cllbck(self, func):
-        if func in self.cllbacks:
-            self.cllbacks.remove(func)
+        if func in self.cllbcks:
+            self.cllbcks.remove(func)
 
     def get_n_nodes(self):
         return len(self.nodes)
-- 
2.43.0


From dae3ed40cad9575930a950ccc9ae9bf899edcd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:49 +0000
Subject: [PATCH 06/13] fix: ViewCount miscounted verdicts that are not
 booleans

Verdicts were combined with '&=': a filter answering with e.g. a list or None
raised TypeError, the number 2 counted as refused, and a filter removed from
the bank crashed every request. Judge like FilteredTree does.
---
 liblarch/viewcount.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index caabd89..c85e436 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -83,7 +83,9 @@ class ViewCount(object):
         displayed = True
         for filtname in self.applied_filters:
             filt = self.fbank.get_filter(filtname)
-            displayed &= filt.is_displayed(nid)
+            if not filt or not filt.is_displayed(nid):
+                displayed = False
+                break
         if displayed:
             self.__add(nid)
         else:
-- 
2.43.0


From da1dc953b57ad65f9e8a86646248145ead82119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:33 +0000
Subject: [PATCH 07/13] fix: nodes named like a view event broke the view's
 callbacks

Actions queued for a node shared one dictionary with the event handlers, so
adding a node called 'added' or 'modified' crashed while iterating over the
handler entry, and queueing an action for such a node destroyed the handler.
Keep queued actions in a dictionary of their own.
---
 liblarch/filteredtree.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 79c57e0..f057d73 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -49,6 +49,8 @@ class FilteredTree(object):
         """
 
         self.cllbcks = {}
+        # node_id => actions to run once when the node appears
+        self.runonce = {}
 
         # Cache
         self.nodes = {}
@@ -90,9 +92,9 @@ class FilteredTree(object):
                 # it is essential to idle_add to avoid hard recursion
                 GObject.idle_add(func, param)
             else:
-                if node_id not in self.cllbcks:
-                    self.cllbcks[node_id] = []
-                self.cllbcks[node_id].append([func, node_id, param])
+                if node_id not in self.runonce:
+                    self.runonce[node_id] = []
+                self.runonce[node_id].append([func, node_id, param])
         else:
             self.cllbcks[event] = [func, node_id, param]
 
@@ -109,11 +111,11 @@ class FilteredTree(object):
         The runonce event is actually only run once, when a given task appears.
         """
         if event == 'added':
-            for func, nid, param in self.cllbcks.get(node_id, []):
+            for func, nid, param in self.runonce.get(node_id, []):
                 if nid and self.is_displayed(nid):
                     func(param)
-                    if node_id in self.cllbcks:
-                        self.cllbcks.pop(node_id)
+                    if node_id in self.runonce:
+                        self.runonce.pop(node_id)
                 else:
                     raise Exception(
                         '{} is not displayed but {} was added'.format(
-- 
2.43.0


From 03333f788e3777ce5cec1b252bd8ba1c265b458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:33 +0000
Subject: [PATCH 08/13] fix: adding a filter whose name starts with '!' always
 failed

The filter object was only created for names without the mark
(UnboundLocalError otherwise). Strip the mark first, so that the duplicate
check applies to the name the filter is stored under.
---
 liblarch/filters_bank.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/liblarch/filters_bank.py b/liblarch/filters_bank.py
index 8bbd9ab..89a843b 100644
--- a/liblarch/filters_bank.py
+++ b/liblarch/filters_bank.py
@@ -101,12 +101,11 @@ class FiltersBank(object):
         Return True if the filter was added
         Return False if the filter_name was already in the bank
         """
+        if filter_name.startswith('!'):
+            filter_name = filter_name[1:]
         if filter_name not in self.list_filters():
-            if filter_name.startswith('!'):
-                filter_name = filter_name[1:]
-            else:
-                filter_obj = Filter(filter_func, self.tree)
-                filter_obj.set_parameters(parameters)
+            filter_obj = Filter(filter_func, self.tree)
+            filter_obj.set_parameters(parameters)
             self.custom_filters[filter_name] = filter_obj
             return True
         else:
-- 
2.43.0


From 67d6493285401b29ef605817cb9c395f2154e825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:33 +0000
Subject: [PATCH 09/13] fix: asking a view for the n-th top-level node raised
 KeyError

node_n_children() and node_all_children() take None for the root of the view,
node_nth_child() and node_has_child() did not.
---
 liblarch/filteredtree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index f057d73..4c95716 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -553,6 +553,8 @@ class FilteredTree(object):
         return list(self.nodes[node_id]['children'])
 
     def node_has_child(self, node_id):
+        if node_id is None:
+            node_id = self.root_id
         return len(self.nodes[node_id]['children']) > 0
 
     def node_n_children(self, node_id, recursive=False):
@@ -573,6 +575,8 @@ class FilteredTree(object):
             return len(self.nodes[node_id]['children'])
 
     def node_nth_child(self, node_id, n):
+        if node_id is None:
+            node_id = self.root_id
         return self.nodes[node_id]['children'][n]
 
     def node_parents(self, node_id):
-- 
2.43.0


From 30eb9ad9049b3ce22f3c1b3ed00a952a15121578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:33 +0000
Subject: [PATCH 10/13] fix: a failing request from another thread stopped the
 queue for good

An exception out of process_queue() makes GLib remove the idle source while
_handler still records it as active, so no later request was ever processed.
Report the failure and go on.
---
 liblarch/processqueue.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/liblarch/processqueue.py b/liblarch/processqueue.py
index 1e9baac..e17e691 100644
--- a/liblarch/processqueue.py
+++ b/liblarch/processqueue.py
@@ -18,6 +18,7 @@
 # -----------------------------------------------------------------------------
 
 import threading
+import traceback
 
 from gi.repository import GObject
 
@@ -42,7 +43,12 @@ class SyncQueue(object):
         """ Process requests from queue """
         for action in self.process():
             func = action[0]
-            func(*action[1:])
+            try:
+                func(*action[1:])
+            except Exception:
+                # GLib drops an idle callback which raises: later requests
+                # would never be processed because _handler stays set
+                traceback.print_exc()
         # return True to process other requests as well
         return True
 
-- 
2.43.0


From 008174a8d7f61c27ffce76d03215d03b84cc7d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:21 +0000
Subject: [PATCH 11/13] fix: forget the cached iterator of a removed row

Gtk.TreeStore.remove() moves the iterator it gets to the next row. That
iterator stayed in cache_paths; once the memory of that row was reused for
another row of the same node, the stale entry resolved to the wrong row and
an update or removal hit another path.
---
 liblarch_gtk/treemodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index 8481752..1bd99bc 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -157,6 +157,8 @@ class TreeModel(Gtk.TreeStore):
                 "Trying to remove node %s with no iterator" % node_id)
         actual_node_id = self.get_value(it, 0)
         assert actual_node_id == node_id
+        # The cached iterator does not survive the removal of its row
+        self.cache_paths.pop(path, None)
         self.remove(it)
         self.cache_position.pop(path)
 
-- 
2.43.0


From e1a3960d65a7db9dab6407fbfc6a6d634bf72a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:55 +0000
Subject: [PATCH 12/13] fix: an action queued for a shown node ran again and
 again when it returned True

---
 liblarch/filteredtree.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 4c95716..5671312 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -90,7 +90,7 @@ class FilteredTree(object):
                 raise Exception('runonce callback should come with a node_id')
             if self.is_displayed(node_id):
                 # it is essential to idle_add to avoid hard recursion
-                GObject.idle_add(func, param)
+                GObject.idle_add(self.__run_once, func, param)
             else:
                 if node_id not in self.runonce:
                     self.runonce[node_id] = []
@@ -98,6 +98,12 @@ class FilteredTree(object):
         else:
             self.cllbcks[event] = [func, node_id, param]
 
+    def __run_once(self, func, param):
+        """ Run a queued action from the main loop, which would call it
+        again and again if it returned True """
+        func(param)
+        return False
+
     def callback(self, event, node_id, path, neworder=None):
         """ Run a callback.
 
-- 
2.43.0


From 5e15fcd1bad2fc19480d597cc2974e8b30e499ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:35 +0000
Subject: [PATCH 13/13] fix: dropping an empty selection decoded it instead of
 skipping it

---
 liblarch_gtk/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 927333e..1fa528d 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -510,7 +510,7 @@ class TreeView(Gtk.TreeView):
         # If there is no selected task (empty selection.data),
         # explicitly skip handling it (set to empty list)
         data = selection.get_data()
-        if data == '':
+        if not data:
             iters = []
         else:
             iters = data.decode().split(',')
-- 
2.43.0

