From 3e8f261b4f4a75174a0c3314d6fa0d5585867c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 01/25] fix: NS add_child left a wrong rgt on the parent object

When the parent already had children, node.rgt was incremented by two and
target.rgt was then set to node.rgt + 2, so that the in-memory parent was two
ahead of the database and a second insertion through it corrupted the tree.
---
 treebeard/ns_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 7a8a8dd..f78e301 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -156,7 +156,7 @@ class NS_NodeManager(NodeManager):
             last_child._cached_parent_obj = node
             new_sibling = self.add_sibling(last_child, pos, create_kwargs=create_kwargs, instance=instance)
             node.rgt += 2
-            target.rgt = node.rgt + 2  # Update the rgt of the parent object, which may be used again in a loop
+            target.rgt = node.rgt  # Update the rgt of the parent object, which may be used again in a loop
             return new_sibling
 
         # we're adding the first child of this node
-- 
2.43.0


From d25cd17d07ff4f92e5f8f56564c9d1b1c943e0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 02/25] fix: recognise the same node across multi-table
 inheritance when inserting and moving

The node given by the caller was compared with == against nodes fetched through
the base tree model, which is never equal for an instance of a subclass model,
so that 'right' of the last sibling produced wrong positions (and malformed
paths), and no-op moves were carried out.
---
 treebeard/al_tree.py        | 10 +++++-----
 treebeard/ltree/__init__.py |  2 +-
 treebeard/models.py         |  8 ++++++++
 treebeard/mp_tree.py        | 18 ++++++++++++------
 treebeard/ns_tree.py        | 22 +++++++++++-----------
 5 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 4c786cf..d31d2d2 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -118,7 +118,7 @@ class AL_NodeManager(NodeManager):
         parent = None
 
         if pos in ("first-child", "last-child", "sorted-child"):
-            if node == target:
+            if self._is_same_node(node, target):
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
@@ -138,10 +138,10 @@ class AL_NodeManager(NodeManager):
         if target.is_descendant_of(node):
             raise InvalidMoveToDescendant(_("Can't move node to a descendant."))
 
-        if node == target and (
+        if self._is_same_node(node, target) and (
             (pos == "left")
-            or (pos in ("right", "last-sibling") and target == self.get_last_sibling(target))
-            or (pos == "first-sibling" and target == self.get_first_sibling(target))
+            or (pos in ("right", "last-sibling") and self._is_same_node(target, self.get_last_sibling(target)))
+            or (pos == "first-sibling" and self._is_same_node(target, self.get_first_sibling(target)))
         ):
             # special cases, not actually moving the node, so nothing to do
             return
@@ -263,7 +263,7 @@ class AL_NodeManager(NodeManager):
         return ancestors
 
     def _is_target_pos_the_last_sibling(self, pos, target):
-        return pos == "last-sibling" or (pos == "right" and target == self.get_last_sibling(target))
+        return pos == "last-sibling" or (pos == "right" and self._is_same_node(target, self.get_last_sibling(target)))
 
     def _make_hole_and_get_sibling_order(self, pos, target_node):
         siblings = self.get_siblings(target_node)
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index fd90305..3075722 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -272,7 +272,7 @@ class LT_NodeManager(NodeManager):
         pos = self._prepare_pos_var_for_move(pos)
 
         if pos in ("first-child", "last-child", "sorted-child"):
-            if target == node:
+            if self._is_same_node(target, node):
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
         if target.is_descendant_of(node):
diff --git a/treebeard/models.py b/treebeard/models.py
index e3059a6..525e9ab 100644
--- a/treebeard/models.py
+++ b/treebeard/models.py
@@ -623,6 +623,14 @@ class NodeManager(models.Manager):
         """
         raise NotImplementedError
 
+    @staticmethod
+    def _is_same_node(first, second):
+        """
+        :returns: ``True`` if both objects are the same tree node. Under multi-table inheritance, one of them can be
+            an instance of the base tree model and the other one an instance of a subclass, which compare as different.
+        """
+        return first is not None and second is not None and first.pk == second.pk
+
     def _prepare_pos_var(self, pos, method_name, valid_pos, valid_sorted_pos):
         if pos is None:
             if self.model.node_order_by:
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 0401923..3c576ce 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -512,15 +512,19 @@ class MP_NodeManager(NodeManager):
 
         # Handle special cases where nothing needs to be done
         if newdepth == node.get_depth():
-            if pos == "first-sibling" and node == self.get_first_sibling(target):
+            if pos == "first-sibling" and self._is_same_node(node, self.get_first_sibling(target)):
                 return
 
-            if pos == "last-sibling" and node == self.get_last_sibling(target):
+            if pos == "last-sibling" and self._is_same_node(node, self.get_last_sibling(target)):
                 return
 
-        if node == target and (
+        if self._is_same_node(node, target) and (
             # Moving a node to left/right of itself is a noop
-            pos == "left" or (pos in ("right", "last-sibling") and target == self.get_last_sibling(target))
+            pos == "left"
+            or (
+                pos in ("right", "last-sibling")
+                and self._is_same_node(target, self.get_last_sibling(target))
+            )
         ):
             return
 
@@ -552,7 +556,7 @@ class MP_NodeManager(NodeManager):
         newpos = None
         siblings = []
         if pos in ("first-child", "last-child", "sorted-child"):
-            if target == node:
+            if self._is_same_node(target, node):
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
@@ -764,7 +768,9 @@ class MP_NodeManager(NodeManager):
 
         :returns: A tuple containing the old path and the new path.
         """
-        if (pos == "last-sibling") or (pos == "right" and target == self.get_last_sibling(target)):
+        if (pos == "last-sibling") or (
+            pos == "right" and self._is_same_node(target, self.get_last_sibling(target))
+        ):
             # easy, the last node
             last = self.get_last_sibling(target)
             newpath = last._inc_path()
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index f78e301..d98aa98 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -200,7 +200,7 @@ class NS_NodeManager(NodeManager):
                     pos = "last-sibling"
 
             last_root = self.get_last_root_node()
-            if (pos == "last-sibling") or (pos == "right" and target == last_root):
+            if (pos == "last-sibling") or (pos == "right" and self._is_same_node(target, last_root)):
                 newobj.tree_id = last_root.tree_id + 1
             else:
                 newpos = {"first-sibling": 1, "left": target.tree_id, "right": target.tree_id + 1}[pos]
@@ -222,7 +222,7 @@ class NS_NodeManager(NodeManager):
                 siblings = self.get_siblings(target)
 
                 if pos == "right":
-                    if target == siblings.last():
+                    if self._is_same_node(target, siblings.last()):
                         pos = "last-sibling"
                     else:
                         pos = "left"
@@ -231,10 +231,10 @@ class NS_NodeManager(NodeManager):
                             if found:
                                 target = node
                                 break
-                            elif node == target:
+                            elif self._is_same_node(node, target):
                                 found = True
                 if pos == "left":
-                    if target == siblings.first():
+                    if self._is_same_node(target, siblings.first()):
                         pos = "first-sibling"
                 if pos == "first-sibling":
                     target = siblings.first()
@@ -268,7 +268,7 @@ class NS_NodeManager(NodeManager):
         parent = None
 
         if pos in ("first-child", "last-child", "sorted-child"):
-            if node == target:
+            if self._is_same_node(node, target):
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
@@ -284,10 +284,10 @@ class NS_NodeManager(NodeManager):
         if target.is_descendant_of(node):
             raise InvalidMoveToDescendant(_("Can't move node to a descendant."))
 
-        if node == target and (
+        if self._is_same_node(node, target) and (
             (pos == "left")
-            or (pos in ("right", "last-sibling") and target == self.get_last_sibling(target))
-            or (pos == "first-sibling" and target == self.get_first_sibling(target))
+            or (pos in ("right", "last-sibling") and self._is_same_node(target, self.get_last_sibling(target)))
+            or (pos == "first-sibling" and self._is_same_node(target, self.get_first_sibling(target)))
         ):
             # special cases, not actually moving the node so nothing to do
             return
@@ -303,7 +303,7 @@ class NS_NodeManager(NodeManager):
             siblings = self.get_siblings(target)
 
             if pos == "right":
-                if target == siblings.last():
+                if self._is_same_node(target, siblings.last()):
                     pos = "last-sibling"
                 else:
                     pos = "left"
@@ -312,10 +312,10 @@ class NS_NodeManager(NodeManager):
                         if found:
                             target = sib
                             break
-                        elif sib == target:
+                        elif self._is_same_node(sib, target):
                             found = True
             if pos == "left":
-                if target == siblings.first():
+                if self._is_same_node(target, siblings.first()):
                     pos = "first-sibling"
             if pos == "first-sibling":
                 target = siblings.first()
-- 
2.43.0


From 1f7f9d78e21aa91b9865bc60244cb390593055fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 03/25] fix: MP move left a wrong numchild on the target object

Moving to a child of the target incremented target.numchild in memory before
knowing whether the move would be rejected or was a no-op, and the target
object was not refreshed afterwards when it already had children.
---
 treebeard/mp_tree.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 3c576ce..fbf482e 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -487,6 +487,7 @@ class MP_NodeManager(NodeManager):
            node's new position
         """
         pos = self._prepare_pos_var_for_move(pos)
+        original_target = target
 
         # initialize variables and if moving to a child, updates "move to
         # child" to become a "move to sibling" if possible (if it can't
@@ -535,7 +536,7 @@ class MP_NodeManager(NodeManager):
 
         self.update_parent_counts_after_move(oldpath, newpath)
         node.refresh_from_db()  # Node path and depth will have changed
-        target.refresh_from_db()
+        original_target.refresh_from_db()
 
     def update_parent_counts_after_move(self, oldpath, newpath):
         """
@@ -560,7 +561,6 @@ class MP_NodeManager(NodeManager):
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
-            parent = target
             newdepth += 1
             if target.is_leaf():
                 # moving as a target's first child
@@ -575,11 +575,6 @@ class MP_NodeManager(NodeManager):
                     "sorted-child": "sorted-sibling",
                 }[pos]
 
-            # this is not for save(), since if needed, will be handled with a
-            # custom UPDATE, this is only here to update django's object,
-            # should be useful in loops
-            parent.numchild += 1
-
         return target, newdepth, siblings, newpos, pos
 
     def get_root_nodes(self):
-- 
2.43.0


From 3d24cdd058027615a925cdc56c0357efe903222a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 04/25] fix: MP add_child changed the parent object when a
 sorted insertion was rejected

target.numchild was incremented before the sorted insertion, which can raise
PathOverflow.
---
 treebeard/mp_tree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index fbf482e..328af59 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -401,8 +401,9 @@ class MP_NodeManager(NodeManager):
         if self.model.node_order_by and not node.is_leaf():
             # there are child nodes and node_order_by has been set
             # delegate sorted insertion to add_sibling
-            target.numchild += 1
-            return self.add_sibling(self.get_last_child(node), "sorted-sibling", create_kwargs, instance=instance)
+            newobj = self.add_sibling(self.get_last_child(node), "sorted-sibling", create_kwargs, instance=instance)
+            target.numchild = node.numchild + 1
+            return newobj
 
         newobj = instance or self.model(**create_kwargs)
         newobj.depth = node.depth + 1
-- 
2.43.0


From 9ff761e28cf4870aaa35406c0560ac8cb33a39c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:34 +0000
Subject: [PATCH 05/25] fix: MP move among siblings could use a malformed
 temporary path

The temporary position after the last sibling may not fit in steplen: the
temporary path was then too long, which could overlap other branches' paths,
exceed the column length, and was announced in path_updated signals.
---
 treebeard/mp_tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 328af59..0eaaa24 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -797,6 +797,9 @@ class MP_NodeManager(NodeManager):
                 last = self.get_last_sibling(target)
                 basenum = last._get_lastpos_in_path()
                 tempnewpath = self.model._get_path(newpath, newdepth, basenum + 2)
+                if len(tempnewpath) > len(newpath):
+                    # There is no room at the end: use position 0, which is never assigned to a node
+                    tempnewpath = self.model._get_path(newpath, newdepth, 0)
                 self._set_newpath_in_branches(oldpath, tempnewpath)
 
         # Optimisation to only move siblings which need moving
-- 
2.43.0


From 6de89028b2d3a9dfd3ddbefba462fd23f45ab09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:40 +0000
Subject: [PATCH 06/25] fix: MP move raises PathOverflow when the branch would
 exceed path.max_length

The paths were written without a check: the database error escaped on
PostgreSQL, and SQLite stored paths longer than the field allows.
---
 treebeard/mp_tree.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 0eaaa24..4e29e73 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -7,7 +7,7 @@ from typing import Any
 
 from django.core import serializers
 from django.db import connections, models, router, transaction
-from django.db.models import F, Func, OuterRef, Q, Subquery, Value
+from django.db.models import F, Func, Max, OuterRef, Q, Subquery, Value
 from django.db.models.functions import Concat, Greatest, Length, Substr
 from django.dispatch import Signal
 from django.utils.translation import gettext_noop as _
@@ -771,6 +771,7 @@ class MP_NodeManager(NodeManager):
             last = self.get_last_sibling(target)
             newpath = last._inc_path()
             if movebranch:
+                self._check_branch_fits(oldpath, newpath)
                 self._set_newpath_in_branches(oldpath, newpath)
             return oldpath, newpath
 
@@ -785,6 +786,8 @@ class MP_NodeManager(NodeManager):
             newpos = {"first-sibling": 1, "left": basenum, "right": basenum + 1}[pos]
 
         newpath = self.model._get_path(target.path, newdepth, newpos)
+        if movebranch:
+            self._check_branch_fits(oldpath, newpath)
 
         # If the move is amongst siblings and is to the left and there
         # are siblings to the right of its new position then to be on
@@ -839,6 +842,23 @@ class MP_NodeManager(NodeManager):
             self._set_newpath_in_branches(tempnewpath or oldpath, newpath)
         return oldpath, newpath
 
+    def _check_branch_fits(self, oldpath, newpath):
+        """
+        :raise PathOverflow: when moving the branch would make a path longer than the field allows
+        """
+        if len(newpath) <= len(oldpath):
+            return
+        branch = self.tree_model.objects.filter(path__startswith=oldpath)
+        longest = branch.aggregate(longest=Max(Length("path")))["longest"] or 0
+        if longest + len(newpath) - len(oldpath) > self.model._meta.get_field("path").max_length:
+            raise PathOverflow(
+                _(
+                    "The moved nodes would be too deep in the tree, try"
+                    " increasing the path.max_length property"
+                    " and UPDATE your database"
+                )
+            )
+
     def _set_newpath_in_branches(self, oldpath, newpath):
         """
         .. note::
-- 
2.43.0


From d21d31d5d4b7e385348cf08887ef3960129fd8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:40 +0000
Subject: [PATCH 07/25] fix: MP load_bulk(bulk_create=True) raises PathOverflow
 instead of creating malformed paths

---
 treebeard/mp_tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 4e29e73..1ce9861 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -673,6 +673,7 @@ class MP_NodeManager(NodeManager):
         added = []
         bulk_data = prepare_dumpdata_for_loading(self.model, data=bulk_data, keep_ids=keep_ids)
         children_to_create = []
+        max_length = self.model._meta.get_field("path").max_length
 
         def _build_children(parent_node, children) -> None:
             child_depth = parent_node.depth + 1
@@ -681,6 +682,8 @@ class MP_NodeManager(NodeManager):
                 child.object.depth = child_depth
                 child.object.numchild = len(child.children)
                 child.object.path = self.model._get_path(parent_node.path, child_depth, i + 1)
+                if len(child.object.path) > min(len(parent_node.path) + self.model.steplen, max_length):
+                    raise PathOverflow(_(f"Path Overflow when adding children to: '{parent_node.path}'"))
 
                 children_to_create.append(child)
 
-- 
2.43.0


From b591c187059faf584dba3866be27143a51ed36b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 08/25] fix: MP load_bulk(bulk_create=True) could attach
 children to the wrong node

With node_order_by, adding a first-level node can move the ones added before
it, after the paths of their children had been computed.
---
 treebeard/mp_tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 1ce9861..9860624 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -700,7 +700,12 @@ class MP_NodeManager(NodeManager):
             )
             save_m2m(node_obj, deserialized_obj)
             added.append(node_obj.pk)
-            _build_children(node_obj, deserialized_obj.children)
+
+        # Only now are the paths of the first level final: with node_order_by, adding a node can move the previous ones
+        for deserialized_obj in bulk_data:
+            if self.model.node_order_by:
+                deserialized_obj.object.refresh_from_db(fields=["path"])
+            _build_children(deserialized_obj.object, deserialized_obj.children)
 
         # Bulk create descendants
         created = self.bulk_create([obj.object for obj in children_to_create], batch_size=batch_size)
-- 
2.43.0


From f5af32c180a19f985e70667081ac55de7ba036bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 09/25] fix: max_depth=0 was treated as no limit by NS, AL and
 LT trees

MP trees already return only the given node.
---
 treebeard/al_tree.py        | 4 ++--
 treebeard/ltree/__init__.py | 2 +-
 treebeard/ns_tree.py        | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index d31d2d2..70e44bf 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -35,7 +35,7 @@ class AL_NodeManager(NodeManager):
             depth = parent.get_depth() + 1
             parent.node_has_children = self.get_children(parent).exists()
             results = [parent]
-            if max_depth:
+            if max_depth is not None:
                 max_depth += parent.get_depth()
         else:
             depth = 1
@@ -45,7 +45,7 @@ class AL_NodeManager(NodeManager):
         return results
 
     def _get_tree_recursively(self, results, parent, depth, max_depth):
-        if max_depth and depth > max_depth:
+        if max_depth is not None and depth > max_depth:
             return results
 
         if parent:
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 3075722..ff4b1d0 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -154,7 +154,7 @@ class LT_NodeManager(NodeManager):
         if parent:
             filters["path__descendants"] = parent.path
 
-        if max_depth:
+        if max_depth is not None:
             filters["path__depth__lte"] = max_depth + (parent.get_depth() if parent else 0)
 
         return cls.objects.filter(**filters)
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index d98aa98..46e3dd9 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -104,7 +104,7 @@ class NS_NodeManager(NodeManager):
             filters["tree_id"] = parent.tree_id
             filters["lft__range"] = (parent.lft, parent.rgt - 1)
 
-        if max_depth:
+        if max_depth is not None:
             filters["depth__lte"] = max_depth + (parent.depth if parent else 0)
 
         return cls.objects.filter(**filters)
@@ -510,7 +510,7 @@ class NS_NodeManager(NodeManager):
         If max_depth is set then the count is limited to the specified depth relative
         to the node.
         """
-        if not max_depth:
+        if max_depth is None:
             return (node.rgt - node.lft - 1) / 2
 
         return self.get_descendants(node, max_depth=max_depth).count()
-- 
2.43.0


From b939b3c53307658b5e119f072c7b2409b1fa1bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 10/25] fix: AL get_prev_sibling and get_next_sibling crashed
 on trees with node_order_by

Such trees need no sib_order field, and ignore it otherwise.
---
 treebeard/al_tree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 70e44bf..b54cd66 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -224,9 +224,13 @@ class AL_NodeManager(NodeManager):
         return len(self.get_descendants(node, max_depth=max_depth))
 
     def get_prev_sibling(self, node):
+        if self.model.node_order_by:
+            return super().get_prev_sibling(node)
         return self.get_siblings(node).filter(sib_order__lt=node.sib_order).last()
 
     def get_next_sibling(self, node):
+        if self.model.node_order_by:
+            return super().get_next_sibling(node)
         return self.get_siblings(node).filter(sib_order__gt=node.sib_order).first()
 
     def get_root(self, node):
-- 
2.43.0


From 5eef11a7d3654b73d5588e93bcd52fde4036d97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:44 +0000
Subject: [PATCH 11/25] fix: get_annotated_list(max_depth) crashed on AL and LT
 trees

---
 treebeard/al_tree.py        | 3 +++
 treebeard/ltree/__init__.py | 3 +++
 treebeard/models.py         | 6 +++++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index b54cd66..74cc07e 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -61,6 +61,9 @@ class AL_NodeManager(NodeManager):
             results.append(node)
             self._get_tree_recursively(results, node, depth + 1, max_depth=max_depth)
 
+    def _limit_tree_depth(self, tree, max_depth):
+        return [node for node in tree if node.get_depth() <= max_depth]
+
     @transaction.atomic
     @check_create_args
     def add_root(self, create_kwargs=None, *, instance=None):
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index ff4b1d0..b40d094 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -159,6 +159,9 @@ class LT_NodeManager(NodeManager):
 
         return cls.objects.filter(**filters)
 
+    def _limit_tree_depth(self, tree, max_depth):
+        return tree.filter(path__depth__lte=max_depth)
+
     @transaction.atomic
     @check_create_args
     def add_root(self, create_kwargs=None, *, instance=None):
diff --git a/treebeard/models.py b/treebeard/models.py
index 525e9ab..70c4e50 100644
--- a/treebeard/models.py
+++ b/treebeard/models.py
@@ -432,9 +432,13 @@ class NodeManager(models.Manager):
         """
         qs = self.get_tree(parent)
         if max_depth:
-            qs = qs.filter(depth__lte=max_depth)
+            qs = self._limit_tree_depth(qs, max_depth)
         return self.get_annotated_list_qs(qs)
 
+    def _limit_tree_depth(self, tree, max_depth):
+        """:returns: the nodes of a `get_tree` result down to an absolute depth"""
+        return tree.filter(depth__lte=max_depth)
+
     @transaction.atomic
     def load_bulk(self, bulk_data, parent=None, keep_ids=False):
         """
-- 
2.43.0


From b66909d64cf7a65721e2237b48f90a676ae6e4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:59 +0000
Subject: [PATCH 12/25] fix: deleting MP, NS and LT nodes is atomic

The parents' numchild, the deletion and the closing of the gaps are separate
statements: a failure in between (a protected foreign key, an error in a signal
handler) left an inconsistent tree in autocommit mode.
---
 treebeard/ltree/__init__.py | 1 +
 treebeard/mp_tree.py        | 1 +
 treebeard/ns_tree.py        | 1 +
 3 files changed, 3 insertions(+)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index b40d094..9d6e224 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -96,6 +96,7 @@ class LT_NodeQuerySet(models.query.QuerySet):
     Needed only for the custom delete method.
     """
 
+    @transaction.atomic
     def delete(self, *args, **kwargs):
         """
         Custom delete method, will remove all descendant nodes to ensure a
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 9860624..3ffe855 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -29,6 +29,7 @@ class MP_NodeQuerySet(models.query.QuerySet):
     Needed only for the custom delete method.
     """
 
+    @transaction.atomic
     def delete(self, *args, **kwargs):
         """
         Custom delete method, will remove all descendant nodes to ensure a
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 46e3dd9..287c026 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -27,6 +27,7 @@ class NS_NodeQuerySet(models.query.QuerySet):
     Needed only for the customized delete method.
     """
 
+    @transaction.atomic
     def delete(self, *args, **kwargs):
         """
         Custom delete method, will remove all descendant nodes to ensure a
-- 
2.43.0


From b2b498edf702ad2a619dd22509e2d841fd51a2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 13/25] fix: AL move left a stale depth on the node and a stale
 sib_order on the target

---
 treebeard/al_tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 74cc07e..dc14b43 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -117,6 +117,7 @@ class AL_NodeManager(NodeManager):
 
         pos = self._prepare_pos_var_for_move(pos)
 
+        original_target = target
         sib_order = None
         parent = None
 
@@ -154,6 +155,8 @@ class AL_NodeManager(NodeManager):
             node.sib_order = sib_order or self._get_new_sibling_order(pos, target)
 
         node.save(using=self._db)
+        node._clear_cached_attributes()  # The depth can have changed
+        original_target.refresh_from_db()
 
     def get_root_nodes(self):
         """:returns: A queryset containing the root nodes in the tree."""
-- 
2.43.0


From b21944bb76a7afa7f5b6e7fd7bd636cb78ea57b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 14/25] fix: LT move left a stale path on the target object

---
 treebeard/ltree/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 9d6e224..f51aebe 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -274,6 +274,7 @@ class LT_NodeManager(NodeManager):
         relative to another node.
         """
         pos = self._prepare_pos_var_for_move(pos)
+        original_target = target
 
         if pos in ("first-child", "last-child", "sorted-child"):
             if self._is_same_node(target, node):
@@ -336,6 +337,7 @@ class LT_NodeManager(NodeManager):
             new_path=new_path,
             using=queryset.db,
         )
+        original_target.refresh_from_db()
 
     def get_root_nodes(self):
         """:returns: A queryset containing the root nodes in the tree."""
-- 
2.43.0


From 00f2e4d27eb2aa8edf66117bbcc467183b666bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 15/25] fix: LT add_root could place the new root before
 existing ones

The first free letter was used, instead of a label after the last root's.
---
 treebeard/ltree/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index f51aebe..8320333 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -183,7 +183,9 @@ class LT_NodeManager(NodeManager):
 
         if last_root:
             # adding the new root node as the last one
-            newobj.path = generate_path(skip=self.get_root_nodes().values_list("path", flat=True))
+            newobj.path = generate_path(
+                skip=self.get_root_nodes().values_list("path", flat=True), after=last_root.path[-1]
+            )
         else:
             # adding the first root node
             newobj.path = generate_path()
-- 
2.43.0


From d76d08aa0870d3326802c38bb150d14f235025bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 16/25] fix: LT sorted insertions and moves to the end were not
 placed last

Without a greater sibling no constraint was given to the label generation, so
that the first free letter was used.
---
 treebeard/ltree/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 8320333..b7e2954 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -254,6 +254,8 @@ class LT_NodeManager(NodeManager):
             insert_before = self.get_sorted_pos_queryset(self.get_siblings(target), newobj).first()
             if insert_before:
                 insert_after = self.get_prev_sibling(insert_before)
+            else:
+                insert_after = self.get_last_sibling(target)
         elif pos == "first-sibling":
             insert_before = self.get_first_sibling(target)
         elif pos == "left":
@@ -293,10 +295,14 @@ class LT_NodeManager(NodeManager):
             insert_before = self.get_sorted_pos_queryset(self.get_siblings(target), node).first()
             if insert_before:
                 insert_after = self.get_prev_sibling(insert_before)
+            else:
+                insert_after = self.get_last_sibling(target)
         elif pos == "sorted-child":
             insert_before = self.get_sorted_pos_queryset(self.get_children(target), node).first()
             if insert_before:
                 insert_after = self.get_prev_sibling(insert_before)
+            else:
+                insert_after = self.get_last_child(target)
             prefix = target.path
         elif pos == "first-sibling":
             insert_before = self.get_siblings(target).first()
-- 
2.43.0


From 24917e222c83d461accde574a227699dd0755102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:18 +0000
Subject: [PATCH 17/25] fix: LT label generation rejected '00' as the first
 sibling's label

'0' can be placed before '00'.
---
 treebeard/ltree/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index b7e2954..2741507 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -47,8 +47,8 @@ def generate_label(
     start = after or char_choices[0]
 
     if (
-        before and (before <= start) or before == f"{start}0"
-    ):  # If before == {start}0 there is no semantic gap in between
+        before and (before <= start) or after and before == f"{after}0"
+    ):  # If before == {after}0 there is no semantic gap in between
         raise InvalidLabelConstraints
 
     # Construct sets of characters for each position, appending one at the end if we need to extend the string
-- 
2.43.0


From db693b1b5bdccc844247cf80cf711ead941bf215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:18 +0000
Subject: [PATCH 18/25] fix: LT could change the order of siblings when making
 room for a node

Appending an 'A' to every label is not monotonic: 'A' < 'A0' but 'AA' > 'A0A'.
---
 docs/source/ltree.rst       |  4 ++++
 treebeard/ltree/__init__.py | 16 +++++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/docs/source/ltree.rst b/docs/source/ltree.rst
index 565f987..53c29b0 100644
--- a/docs/source/ltree.rst
+++ b/docs/source/ltree.rst
@@ -127,6 +127,10 @@ with the tree.
       descendants, the path elements following the incremented one are
       unchanged; for example, the path ``A.C.B.D`` becomes ``A.C.BA.D``.
 
+   ``suffix``
+      The character that was appended: 'A', or '0' when appending an 'A' would
+      have changed the order of the siblings (for example ``A`` and ``A0``).
+
    ``using``
       The database alias being used.
 
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 2741507..d2d27b9 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -448,18 +448,23 @@ class LT_NodeManager(NodeManager):
     def _move_subtree_right(self, start_node):
         """
         Move the node and all siblings after it in the tree to the right. This is achieved simply by
-        appending an extra character (A) to the topmost label in the path.
+        appending an extra character to the topmost label in the path. This character is an A, unless that would
+        change the order of the siblings ("A" < "A0" but "AA" > "A0A"), in which case it is a 0.
         """
         result_class = self.tree_model
         node_depth = len(start_node.path)
 
+        siblings = self.get_siblings(start_node).filter(path__gte=start_node.path)
+        moved_labels = [f"{path[-1]}A" for path in siblings.order_by("path").values_list("path", flat=True)]
+        suffix = "A" if moved_labels == sorted(moved_labels) else "0"
+
         if node_depth > 1:
             result_class.objects.filter(
                 path__descendants=start_node.path[:-1], path__gte=start_node.path, path__depth=node_depth
             ).update(
                 path=Concat(
                     Subpath(F("path"), 0, node_depth - 1),
-                    Text2LTree(Concat(Ltree2Text(Subpath(F("path"), node_depth - 1, 1)), Value("A"))),
+                    Text2LTree(Concat(Ltree2Text(Subpath(F("path"), node_depth - 1, 1)), Value(suffix))),
                 )
             )
             queryset = result_class.objects.filter(
@@ -468,23 +473,24 @@ class LT_NodeManager(NodeManager):
             queryset.update(
                 path=Concat(
                     Subpath(F("path"), 0, node_depth - 1),
-                    Text2LTree(Concat(Ltree2Text(Subpath(F("path"), node_depth - 1, 1)), Value("A"))),
+                    Text2LTree(Concat(Ltree2Text(Subpath(F("path"), node_depth - 1, 1)), Value(suffix))),
                     Subpath(F("path"), node_depth),
                 ),
             )
         else:
             # Moving root nodes
             result_class.objects.filter(path__gte=start_node.path, path__depth=1).update(
-                path=Text2LTree(Concat(Ltree2Text(Subpath(F("path"), 0, 1)), Value("A")))
+                path=Text2LTree(Concat(Ltree2Text(Subpath(F("path"), 0, 1)), Value(suffix)))
             )
             queryset = result_class.objects.filter(path__gte=start_node.path, path__depth__gt=1)
             queryset.update(
-                path=Concat(Text2LTree(Concat(Ltree2Text(Subpath(F("path"), 0, 1)), Value("A"))), Subpath(F("path"), 1))
+                path=Concat(Text2LTree(Concat(Ltree2Text(Subpath(F("path"), 0, 1)), Value(suffix))), Subpath(F("path"), 1))
             )
 
         subtree_moved_right.send(
             sender=result_class,
             path=start_node.path,
+            suffix=suffix,
             using=queryset.db,
         )
 
-- 
2.43.0


From 4f51cbddd23b5ce4e41f87576a45af2099d5e79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:37 +0000
Subject: [PATCH 19/25] fix: NS insertion and move after the last sibling could
 use a stale cached parent

The rgt of the parent object cached on the target was used as the position: it
is outdated as soon as another node of the tree has been added or moved.
---
 treebeard/ns_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 287c026..05072c1 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -241,7 +241,7 @@ class NS_NodeManager(NodeManager):
                     target = siblings.first()
 
             if pos == "last-sibling":
-                newpos = self.get_parent(target).rgt
+                newpos = self.get_parent(target, True).rgt
                 self._alter_gap(target.tree_id, newpos, 2)
             elif pos == "first-sibling" or pos == "left":
                 newpos = target.lft
@@ -340,7 +340,7 @@ class NS_NodeManager(NodeManager):
                 self._move_tree_right(target.tree_id)
         else:
             if pos == "last-sibling":
-                newpos = self.get_parent(target).rgt
+                newpos = self.get_parent(target, True).rgt
                 self._alter_gap(target.tree_id, newpos, gap)
             elif pos == "first-sibling" or pos == "left":
                 newpos = target.lft
-- 
2.43.0


From 63adeb3a22ec6ccf961dc02a046aae22b1199b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 20/25] fix: MoveNodeForm ignored a change of a field that
 node_order_by sorts in descending order

---
 treebeard/forms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index 723b752..88ec703 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -166,7 +166,7 @@ class MoveNodeForm(forms.ModelForm):
         treebeard_fields = {
             "treebeard_ref_node",
             "treebeard_position",
-            *(manager.tree_model.node_order_by or []),
+            *(field.removeprefix("-") for field in manager.tree_model.node_order_by or []),
         }
         if not set(self.changed_data) & treebeard_fields:
             return super().save(commit=commit)
-- 
2.43.0


From ee47ce4f8f5ab3a15dbec3f2a2dff01d2be15011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:56 +0000
Subject: [PATCH 21/25] fix: MoveNodeForm.save() placed a new node nowhere when
 its tree fields equal the initial values

---
 treebeard/forms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index 88ec703..0c554fc 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -162,13 +162,14 @@ class MoveNodeForm(forms.ModelForm):
         position_type = self.cleaned_data.pop("treebeard_position")
         manager = self._meta.model.objects
 
-        # If no treebeard fields have been modified, skip treebeard-specific logic and delegate to parent class
+        # If no treebeard fields of an existing node have been modified, skip treebeard-specific logic
+        # and delegate to parent class
         treebeard_fields = {
             "treebeard_ref_node",
             "treebeard_position",
             *(field.removeprefix("-") for field in manager.tree_model.node_order_by or []),
         }
-        if not set(self.changed_data) & treebeard_fields:
+        if not self.instance._state.adding and not set(self.changed_data) & treebeard_fields:
             return super().save(commit=commit)
 
         if self.instance._state.adding:
-- 
2.43.0


From 8d949fd8aadaa8b5e35b1605f538c5fdb1847ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:20 +0000
Subject: [PATCH 22/25] fix: MoveNodeForm.save() on an invalid form wrote to
 the tree before raising

---
 treebeard/forms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index 0c554fc..8d9d992 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -158,6 +158,10 @@ class MoveNodeForm(forms.ModelForm):
         inlines report an error. If you use this form elsewhere, you will need to do the same.
         """
 
+        if self.errors:
+            # Raises ValueError, before anything is written
+            return super().save(commit=commit)
+
         reference_node = self.cleaned_data.pop("treebeard_ref_node", None)
         position_type = self.cleaned_data.pop("treebeard_position")
         manager = self._meta.model.objects
-- 
2.43.0


From 602b4174cf75769c42d5880d0cc2d784263d47e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:27 +0000
Subject: [PATCH 23/25] fix: the form of an inherited adjacency list node
 offered the node itself as reference

---
 treebeard/forms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index 8d9d992..9833cf0 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -105,11 +105,13 @@ class MoveNodeForm(forms.ModelForm):
         if issubclass(opts.model, AL_Node):
             choices = opts.model.objects.get_tree()
             descendants = opts.model.objects.get_descendants(instance, include_self=True) if instance else []
+            # Compare primary keys: the nodes of a tree of inherited models can be of different classes
+            excluded = {node.pk for node in descendants}
             field = self.fields["treebeard_ref_node"]
             self.fields["treebeard_ref_node"]._choices = [("", "--------")] + [
                 (field.prepare_value(node), field.label_from_instance(node))
                 for node in choices
-                if node not in descendants
+                if node.pk not in excluded
             ]
             # Must set queryset so that the manually defined choices are valid.
             # Must also do this *after* setting _choices above, otherwise the setter
-- 
2.43.0


From be14936b20f4bd71541f397c11e5b8421235af37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:14 +0000
Subject: [PATCH 24/25] fix: forms of inherited adjacency list nodes rejected
 reference nodes of other classes that they offered

---
 treebeard/forms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index 9833cf0..6885933 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -116,7 +116,7 @@ class MoveNodeForm(forms.ModelForm):
             # Must set queryset so that the manually defined choices are valid.
             # Must also do this *after* setting _choices above, otherwise the setter
             # for queryset will overwrite the choices.
-            self.fields["treebeard_ref_node"].queryset = opts.model.objects.all()
+            self.fields["treebeard_ref_node"].queryset = opts.model.objects.tree_model.objects.all()
             return
 
         queryset = opts.model.objects.get_tree()
-- 
2.43.0


From 49a98840ae7c4474bed4a4135c69cf89890fd21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:50 +0000
Subject: [PATCH 25/25] fix: siblings of an adjacency-list node whose parent
 has a falsy primary key

get_siblings() tested the truth of parent_id, so the children of a node with
the primary key 0 (or an empty string) were taken for root nodes: their
siblings were wrong, and adding or moving next to them used the wrong group.
---
 treebeard/al_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index dc14b43..c2eb524 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -206,7 +206,7 @@ class AL_NodeManager(NodeManager):
         :returns: A queryset of all the node's siblings, including the node
             itself.
         """
-        if node.parent_id:
+        if node.parent_id is not None:
             return self.tree_model.objects.filter(parent_id=node.parent_id)
         return self.get_root_nodes()
 
-- 
2.43.0

